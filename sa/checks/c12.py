"""Measured values: trace with the density matrix over its trace, averaged; energy: every term once, per site."""
from fractions import Fraction
from ..world import *

MODEL = '''
from acetn.ipeps import Ipeps
from acetn.model import Model
class Op:
    def __init__(self, mat):
        self.mat = mat
def wrap(t):
    return Op(t) if as_object else t
class M(Model):
    def one_site_observables(self, site):
        return {n: wrap(one(n, site)) for n in ones}
    def two_site_observables(self, bond):
        return {n: wrap(two(n, bond)) for n in twos}
    def one_site_hamiltonian(self, site):
        return wrap(one("h", site)) if has(site) else None
    def two_site_hamiltonian(self, bond):
        return wrap(two("h", bond))
class Plain(Model):
    def two_site_hamiltonian(self, bond):
        return wrap(two("h", bond))
'''


def key(I, x):
    return tuple(I.resolve(y) for y in I.iterate(x))


def rho(x, p):
    return tnet.atom_tv(('rho',) + tuple(x), (p,) * (2 if len(x) == 2 else 4))


def op(name, x, p):
    return tnet.atom_tv(('op', name) + tuple(x), (p,) * (2 if len(x) == 2 else 4))


def re(v):
    return v if tnet.ALL_REAL[0] else tnet.scale(tnet.add(v, tnet.conj(v)), Fraction(1, 2))


def value(name, x, p):
    """Re tr(rho op) / Re tr(rho), with rho[bra, ket] and op[row, column] = <row|op|column>"""
    r = rho(x, p)
    if len(x) == 2:
        num, den = tnet.einsum([r, op(name, x, p)], 'Pp,Pp->'), tnet.einsum([r], 'pp->')
    else:
        num, den = tnet.einsum([r, op(name, x, p)], 'PQpq,PQpq->'), tnet.einsum([r], 'pqpq->')
    return tnet.mul(re(num), tnet.pow_(re(den), -1))


def total(vs, n):
    t = None
    for v in vs:
        t = v if t is None else tnet.add(t, v)
    return tnet.scale(t, Fraction(1, n))


def hook_rdm(I, real, p, seen):
    I.load('acetn.ipeps')
    cls = sym(I, 'acetn.measurement.rdm', 'RDM')
    f = cls.lookup('__getitem__')
    if not isinstance(f, PFunc):
        raise Incomplete('RDM has no item access')

    def handler(I, f, args, kw, proceed):
        k = key(I, args[1])
        seen.append(k)
        return tobj(I, rho(k, p), real)
    I.hooks[f] = handler


def run(R):
    for real in (True, False):
        for L in ((1, 1), (1, 2), (2, 1), (2, 2)):
            for p, shape4, as_object, sites, ones, twos in (
                    (2, False, False, 'all', ['a', 'b'], ['c']), (2, True, True, 'all', ['a'], ['c', 'd']),
                    (3, False, True, 'some', [], ['c']), (2, True, False, 'none', ['a', 'b', 'e'], []), (2, False, False, 'plain', [], [])):
                if L == (2, 2) and (ones or twos) and not (real and sites == 'all' and not as_object):
                    continue
                label = f'{"real" if real else "complex"} {L} p={p}, one-site terms {sites}, operators as {"objects" if as_object else "tensors"}{" with four legs" if shape4 else ""}'
                I = fresh(real)
                plain_boundary(I)
                seen = []
                hook_rdm(I, real, p, seen)
                S = sites_of(L)
                has = {s: sites == 'all' or (sites == 'some' and s != S[-1]) for s in S}

                def one(I, args, kw):
                    return tobj(I, op(I.resolve(args[0]), key(I, args[1]), p), real)

                def two(I, args, kw):
                    v = op(I.resolve(args[0]), key(I, args[1]), p)
                    return tobj(I, v if shape4 else tnet.reshape(v, (p * p, p * p)), real)
                cfg = config(L[0], L[1], {'phys': p, 'bond': dim('D'), 'chi': dim('chi')}, real)
                fn = pylib.fn
                given = dict(cfg=cfg, as_object=as_object, ones=ones, twos=twos, one=fn('one', one), two=fn('two', two),
                             has=fn('has', lambda I, a, k: has[key(I, a[0])]))
                ok, g = R.attempt('measure', label, lambda: script(I, MODEL + '''
                    c = Ipeps(cfg)
                    c.set_model(%s, {})
                    bonds = [tuple(b) for b in c.bond_list]
                    r = c.measure()
                    r2 = c.measure(Plain(c.config.model))
                    '''.replace('\n                    ', '\n') % ('Plain' if sites == 'plain' else 'M'), **given), I)
                if not ok:
                    continue
                B = [key(I, b) for b in I.iterate(g['bonds'])]
                r = {k: I.resolve(v) for k, v in g['r'].d.values()}
                R.ob('keys', label, set(r) == {'Energy', *ones, *twos}, f'measured {sorted(r)}')
                bond_e = [value('h', b, p) for b in B]
                e = total([value('h', s, p) for s in S if has[s]] + bond_e, len(S))
                want = {'Energy': e}
                for n in ones:
                    want[n] = total([value(n, s, p) for s in S], len(S))
                for n in twos:
                    want[n] = total([value(n, b, p) for b in B], len(B))
                for n, w in want.items():
                    if n not in r:
                        continue
                    v = r[n].v if isinstance(r[n], TObj) else tnet.tv(r[n])
                    R.ob('energy' if n == 'Energy' else 'observable', f'{n}, {label}', *tnet.equal_all(v, w))
                r2 = {k: I.resolve(v) for k, v in g['r2'].d.values()}
                v = r2['Energy'].v
                R.ob('energy', f'model given as argument, {label}', *tnet.equal_all(v, total(bond_e, len(S))))
                R.ob('every-term', label, set(seen) == set(S) | set(B), f'density matrices taken at {seen}')
                R.covers(I)
    R.expect('energy', 40)
    R.expect('observable', 30)
