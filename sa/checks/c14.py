"""Gate of a bond = exp(-dtau (two-site term + a quarter of each end's one-site term)); the model stays as it was."""
from ..world import *
from .c12 import key, op

MODEL = '''
from acetn.ipeps import Ipeps
from acetn.model import Model
from acetn.evolution.gate import Gate
class Op:
    def __init__(self, mat):
        self.mat = mat
class M(Model):
    def __init__(self, config):
        super().__init__(config)
        self.ops = {}
    def keep(self, k, t):
        if k not in self.ops:
            self.ops[k] = Op(t) if as_object else t
        return self.ops[k]
    def one_site_hamiltonian(self, site):
        return self.keep(("h", site), one("h", site)) if has(site) else None
    def two_site_hamiltonian(self, bond):
        return self.keep(("h", bond), two("h", bond))
class Plain(Model):
    def two_site_hamiltonian(self, bond):
        return two("h", bond)
'''


def expo_of(v, ws):
    """The matrix exponential may be taken directly or through the eigenvalues of the (hermitian) generator."""
    first = tnet.equal_all(v, ws[0])
    return first if first[0] else next((r for r in (tnet.equal_all(v, w) for w in ws[1:]) if r[0]), first)


def run(R):
    dtau = dim('dtau')
    for real in (True, False):
        for L in ((1, 1), (1, 2), (2, 2), (2, 3)):
            for p, shape4, as_object, sites in ((2, False, True, 'all'), (2, False, False, 'all'), (2, True, False, 'some'), (3, False, True, 'one'),
                                                (3, True, False, 'all'), (2, False, False, 'none'), (2, True, True, 'plain')):
                if L == (2, 3) and not (real and sites in ('all', 'some') and p == 2):
                    continue
                if not real and L != (1, 2):
                    continue
                S = sites_of(L)
                has = {s: sites == 'all' or (sites == 'some' and (s[0] + s[1]) % 2 == 0) or (sites == 'one' and s == S[-1]) for s in S}
                label = f'{"real" if real else "complex"} {L} p={p}, one-site terms {sites}, operators as {"objects" if as_object else "tensors"}{" with four legs" if shape4 else ""}'
                I = fresh(real)
                plain_boundary(I)

                def one(I, args, kw):
                    return tobj(I, op(I.resolve(args[0]), key(I, args[1]), p), real)

                def two(I, args, kw):
                    v = op(I.resolve(args[0]), key(I, args[1]), p)
                    return tobj(I, v if shape4 else tnet.reshape(v, (p * p, p * p)), real)
                cfg = config(L[0], L[1], {'phys': p, 'bond': dim('D'), 'chi': dim('chi')}, real)
                fn = pylib.fn
                given = dict(cfg=cfg, as_object=as_object, one=fn('one', one), two=fn('two', two), t=dtau, torch=I.load('torch'), p=p,
                             has=fn('has', lambda I, a, k: has[key(I, a[0])]))
                ok, g = R.attempt('gate', label, lambda: script(I, MODEL + '''
c = Ipeps(cfg)
c.set_model(%s, {})
from acetn.model.model_factory import model_factory
m = model_factory.create(c.config.model)
bonds = list(c.bond_list)
names = [tuple(b) for b in bonds]
g = Gate(m, t, c.bond_list, c.site_list)
gates = [g[b] for b in bonds]
g2 = Gate(m, t, c.bond_list, c.site_list)
again = [g2[b] for b in bonds]
later = [g[b] for b in bonds]
kept = getattr(m, "ops", {})
def expo(h):
    return torch.matrix_exp(-t*h)
def spectral(h):
    w, v = torch.linalg.eigh(h)
    return (v*torch.exp(-t*w)) @ v.mH
def spectral_neg(h):
    w, v = torch.linalg.eigh(-t*h)
    return (v*torch.exp(w)) @ v.mH
def want(b, expo):
    h = two("h", b).reshape(p*p, p*p)
    e = torch.eye(p, dtype=c.dtype)
    if has(b.s1):
        h = h + torch.kron(one("h", b.s1), e)/4
    if has(b.s2):
        h = h + torch.kron(e, one("h", b.s2))/4
    return expo(h).reshape(p, p, p, p)
wants = [want(b, expo) for b in bonds]
wants2 = [want(b, spectral) for b in bonds]
wants3 = [want(b, spectral_neg) for b in bonds]
''' % ('Plain' if sites == 'plain' else 'M'), **given), I)
                if not ok:
                    continue
                B = [key(I, b) for b in I.iterate(g['names'])]
                lists = {n: [I.resolve(t) for t in I.iterate(g[n])] for n in ('gates', 'again', 'later', 'wants', 'wants2', 'wants3')}
                for i, b in enumerate(B):
                    ws = [lists[n][i].v for n in ('wants', 'wants2', 'wants3')]
                    got = lists['gates'][i]
                    R.ob('gate-shape', f'bond {b}, {label}', tuple(got.shape) == (p,) * 4, f'shape {got.shape}')
                    R.ob('gate', f'bond {b}, {label}', *expo_of(got.v, ws))
                    if L != (2, 3):
                        R.ob('gate-again', f'bond {b}, second set, {label}', *expo_of(lists['again'][i].v, ws))
                        R.ob('gate-again', f'bond {b}, first set later, {label}', *expo_of(lists['later'][i].v, ws))
                kept = g['kept']
                if isinstance(kept, PDict):
                    for k, o in kept.d.values():
                        o = I.resolve(o)
                        t = I.resolve(I.getattr(o, 'mat')) if isinstance(o, Inst) else o
                        x = I.resolve(list(I.iterate(k))[1])
                        x = key(I, x)
                        v = op('h', x, p)
                        if len(x) == 3 and not shape4:
                            v = tnet.reshape(v, (p * p, p * p))
                        R.ob('model-untouched', f'term of {x}, {label}', *tnet.equal_all(t.v, v))
                R.covers(I)
    R.expect('gate', 100)
    R.expect('model-untouched', 60)
