"""A time step applies the gate of every bond of the cell once; the environment follows each full update."""
from .moves import *
from .c12 import key, op
from .c11 import make_bond
from .c15 import updater

MODEL = '''
from acetn.ipeps import Ipeps
from acetn.model import Model
class M(Model):
    def one_site_hamiltonian(self, site):
        return one("h", site, self.params.get("J", 0)) if sites else None
    def two_site_hamiltonian(self, bond):
        return two("h", bond, self.params.get("J", 0))
c.set_model(M, {"J": J1}, "mine")
def expected(b, t, J):
    h = two("h", b, J).reshape(p*p, p*p)
    e = torch.eye(p, dtype=c.dtype)
    if sites:
        h = h + torch.kron(one("h", b.s1, J), e)/4 + torch.kron(e, one("h", b.s2, J))/4
    return torch.matrix_exp(-t*h).reshape(p, p, p, p)
'''


def cell_bonds(L):
    """every nearest-neighbour pair of the cell, as (site, direction of the second site seen from it)"""
    return {(s, k) for s in sites_of(L) for k in (1, 2)}


def canonical(b):
    s1, s2, k = b
    return (s1, k) if k in (1, 2) else (s2, (k + 2) % 4)


def updaters(I):
    """the bond_update function of every updater class, with the class"""
    out = {}
    for n in ('acetn.evolution.fast_full_update', 'acetn.evolution.simple_update', 'acetn.evolution.full_update', 'acetn.evolution.evolve'):
        for c in I.load(n).box.content.values():
            f = c.lookup('bond_update') if isinstance(c, PClass) else None
            if isinstance(f, PFunc):
                out[f] = c
    if not out:
        raise Incomplete('no updater was found')
    return out


def schedule(R):
    t1, t2, J1, J2 = dim('t1'), dim('t2'), dim('J1'), dim('J2')
    fn = pylib.fn
    p = 2
    for L, typ, sites in [((2, 2), 'full', True), ((2, 2), 'simple', True), ((1, 2), 'simple', False), ((2, 1), 'full', False), ((3, 2), 'full', True),
                          ((2, 3), 'simple', True), ((1, 1), 'full', True), ((3, 3), 'simple', False)]:
        real = typ == 'simple'
        I, ip = lattice(L, real, p, evolution={'update_type': typ})
        log = []

        def oper(I, a, k):
            n, x, J = I.resolve(a[0]), key(I, a[1]), I.resolve(a[2])
            v = op(f'{n} {J!r}', x, p)
            return tobj(I, tnet.reshape(v, (p * p, p * p)) if len(x) == 3 else v, real)
        g = dict(c=ip, one=fn('one', oper), two=fn('two', oper), J1=J1, torch=I.load('torch'), sites=sites, p=p)
        g = script(I, MODEL, **g)
        ren = sym(I, 'acetn.ipeps', 'Ipeps').lookup('renormalize')
        I.hooks[ren] = lambda I, f, a, kw, proceed: log.append(('renormalise',))

        def upd(I, f, a, kw, proceed):
            b = I.resolve(a[1] if len(a) > 1 else kw['bond'])
            gate = I.resolve(I.getitem(I.getattr(a[0], 'gate'), b))
            log.append(('bond', key(I, b), gate, b))
            return (0, 0)
        for f in updaters(I):
            I.hooks[f] = upd
        I.setattr(ip, 'site_states_initialized', True)
        runs = [(t1, 1, J1), (t2, 2, J1), (t1, 3, J2), (t2, 0, J2), (t2, 1, J2)]
        J = J1
        for n, (t, steps, Jn) in enumerate(runs):
            label = f'{L[0]}x{L[1]} {typ} update, run {n + 1}: {steps} steps of {t}'
            if Jn is not J:
                script(I, 'c.set_model_params(J=J)', c=ip, J=Jn)
                J = Jn
            del log[:]
            ok, _ = R.attempt('run', label, lambda: script(I, 'c.evolve(t, steps)', c=ip, t=t, steps=steps), I)
            if not ok:
                continue
            done = [x for x in log if x[0] == 'bond']
            nb = len(cell_bonds(L))
            R.ob('steps', label, len(done) == nb * steps, f'{len(done)} bond updates, {nb} bonds times {steps} steps are required')
            R.ob('renewed', label, bool(log) and log[0][0] == log[-1][0] == 'renormalise' and (not done or len(log) >= len(done) + 2),
                 'the environment is not renewed before the first and after the last update')
            for i in range(steps):
                bs = sorted(canonical(x[1]) for x in done[i * nb:(i + 1) * nb])
                R.ob('every-bond', f'{label}, step {i + 1}', bs == sorted(cell_bonds(L)), f'bonds updated {bs}, bonds of the cell {sorted(cell_bonds(L))}')
            for i, x in enumerate(done):
                if i < nb or i >= len(done) - 2:
                    w = script(I, 'w = expected(b, t, J)', expected=g['expected'], b=x[3], t=t, J=J)['w']
                    R.ob('gate', f'{label}, bond {x[1]}', *tnet.equal_all(x[2].v, w.v))
            ls = sorted(canonical(key(I, b)) for b in I.iterate(I.getattr(ip, 'bond_list')))
            R.ob('bonds-kept', label, ls == sorted(cell_bonds(L)), f'list of bonds afterwards: {ls}')
        R.covers(I)
    R.expect('gate', 100)


def line(s, k):
    return s[0] if k in (0, 2) else s[1]


def absorption(R):
    """a full update stores the two new tensors and absorbs them from both sides of the bond before it returns"""
    p = 2
    for L in [(2, 2), (1, 2), (2, 1), (3, 2)]:
        for k in range(4):
            s1 = (0, 0) if L != (3, 2) else (2, 1)
            s2 = shift(s1, k, L)
            if s1 == s2:
                continue
            label = f'bond {s1}-{s2} direction {k} of {L[0]}x{L[1]}'
            I, ip = lattice(L, False, p, evolution={'use_gauge_fix': False, 'als_niter': 0})
            I.rules['no_faults'] = I.rules['no_while'] = True
            hook_projectors(I, L, False, [])
            env = named_env(L, p)
            up = updater(I, ip, p, False)
            b = make_bond(I, s1, s2, k)
            r = I.resolve(I.call_method(up, 'update', [b]))
            want = [I.resolve(x).v for x in list(I.iterate(r))[:2]]
            got = {}
            f = sym(I, 'acetn.ipeps.site_tensor', 'SiteTensor').lookup('__setitem__')
            where = {id(I.resolve(I.getitem(ip, s))): s for s in sites_of(L)}

            def handler(I, f, a, kw, proceed):
                s = where[id(I.resolve(a[0]))]
                if I.resolve(a[1]) == 'A':
                    v = I.resolve(a[2])
                    n = tnet.atom_tv(('new', s), A_dims(s, p))
                    got.setdefault(s, []).append(v.v)
                    return I.call_func(f, [a[0], 'A', tobj(I, n, False)], {})
                return proceed()
            I.hooks[f] = handler
            ok, _ = R.attempt('absorb', label, lambda: I.call_method(up, 'bond_update', [b]), I)
            if not ok:
                continue
            R.ob('stored', label, sorted(got) == sorted((s1, s2)) and all(len(v) == 1 for v in got.values()), f'tensors stored at {sorted(got)}')
            for s, w in zip((s1, s2), want):
                if s in got:
                    R.ob('stored', f'{label}: tensor of {s}', *tnet.equal_all(got[s][-1], w))
            base = {x: v for x, v in env.items()}
            for s in (s1, s2):
                base['A', s] = tnet.atom_tv(('new', s), A_dims(s, p))
            now = get_env(I, ip, L)
            best = None
            for order in (((k + 2) % 4, s1), (k, s2)), ((k, s2), ((k + 2) % 4, s1)):
                e = dict(base)
                for d, s in order:
                    e.update(oracle_move(d, line_sites(d, line(s, d), L), L, e))
                bad = [(x, tnet.equal_all(I.resolve(v).v, e[x], True)) for x, v in now.items()]
                bad = [(key_name(x), r[1]) for x, r in bad if not r[0]]
                best = bad if best is None or len(bad) < len(best) else best
            R.ob('absorb', label, not best, f'environment after the update does not contain the new tensors on both sides of the bond: {best[:2]}')
            R.covers(I)
    R.expect('absorb', 10)


def run(R):
    schedule(R)
    absorption(R)
