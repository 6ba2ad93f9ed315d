"""Built-in models against the documented Hamiltonians, with symbolic parameters; direction labels of bonds."""
from fractions import Fraction
from ..world import *
from .c12 import key
from .c25 import P, kron, lin, scal

DIRECTION = {(-1, 0): '-x', (0, 1): '+y', (1, 0): '+x', (0, -1): '-y'}


def matrix(R, I, rule, label, x, want):
    t = I.resolve(I.getattr(x, 'mat')) if isinstance(x, Inst) else x
    if not isinstance(t, TObj):
        return R.fail(rule, label, f'is {t!r}, not an operator')
    n = len(want)
    v = t.v
    if not isinstance(v, tnet.Dense):
        raise Incomplete('operator matrix is not concrete')
    if poly.compare('==', tnet.prod(t.shape), n * n) is not True:
        return R.fail(rule, label, f'has shape {t.shape}')
    bad = [(i // n, i % n, p, q) for i, (p, q) in enumerate(zip(v.data, [a for r in want for a in r]))
           if poly.simp(Poly.of(poly.sub(p, q))) != 0]
    R.ob(rule, label, not bad, f'element, found, required: {bad[:4]}')


def run(R):
    J, jz, hx = dim('J'), dim('jz'), dim('hx')
    heis = scal(lin(lin(kron(P['X'], P['X']), kron(P['Y'], P['Y']), 1), kron(P['Z'], P['Z']), 1), Fraction(1, 4))
    one = 1
    cases = [('heisenberg', {'J': J}, scal(heis, J), None), ('heisenberg', {}, heis, None), ('heisenberg', None, heis, None),
             ('heisenberg', {'J': -2}, scal(heis, -2), None), ('heisenberg', {'J': 0}, scal(heis, 0), None), ('heisenberg', {'J': J, 'other': 1}, scal(heis, J), None),
             ('ising', {'jz': jz, 'hx': hx}, scal(kron(P['Z'], P['Z']), poly.mul(-1, jz)), scal(P['X'], poly.mul(-1, hx))),
             ('ising', {'jz': 1, 'hx': 0}, scal(kron(P['Z'], P['Z']), -1), scal(P['X'], 0)),
             ('ising', {'hx': 3, 'jz': -1}, kron(P['Z'], P['Z']), scal(P['X'], -3))]
    for dt in ('float64', 'complex128', 'float32'):
        real = not dt.startswith('complex')
        for name, params, bond_h, site_h in cases:
            for L in ((2, 2), (1, 2), (3, 2)):
                if L != (2, 2) and (dt != 'float64' or params not in ({'J': J}, {'jz': jz, 'hx': hx})):
                    continue
                I = fresh(real)
                plain_boundary(I)
                model = {'name': name}
                if params is not None:
                    model['params'] = params
                cfg = config(L[0], L[1], {'phys': 2, 'bond': 2, 'chi': 8}, real, model=model, dtype=dt)
                label = f'{name} {params}, {dt}, {L}'
                ok, g = R.attempt('hamiltonian', label, lambda: script(I, '''
                    from acetn.ipeps import Ipeps
                    from acetn.model.model_factory import model_factory
                    c = Ipeps(cfg)
                    m = model_factory.create(c.config.model)
                    bonds = list(c.bond_list)
                    names = [tuple(b) for b in bonds]
                    h2 = [m.two_site_hamiltonian(b) for b in bonds]
                    sites = list(c.site_list)
                    h1 = [m.one_site_hamiltonian(s) for s in sites]
                    obs = [m.one_site_observables(s) for s in sites]
                    obs2 = [m.two_site_observables(b) for b in bonds]
                    init = [m.initial_site_state(s) for s in sites]
                    ''', cfg=cfg), I)
                if not ok:
                    continue
                L_ = lambda n: [I.resolve(x) for x in I.iterate(g[n])]
                for b, h in zip(L_('names'), L_('h2')):
                    matrix(R, I, 'hamiltonian', f'bond {key(I, b)}, {label}', h, bond_h)
                for s, h, o, st in zip(L_('sites'), L_('h1'), L_('obs'), L_('init')):
                    s = key(I, s)
                    if site_h is None:
                        R.ob('hamiltonian', f'site {s}, {label}', h is None, f'has a one-site term {h!r}')
                    else:
                        matrix(R, I, 'hamiltonian', f'site {s}, {label}', h, site_h)
                    sub = name == 'heisenberg' and sum(s) % 2
                    got = {k: I.resolve(v) for k, v in o.d.values()}
                    R.ob('observables', f'names at {s}, {label}', set(got) == {'sx', 'sz'}, f'observables {sorted(got)}')
                    for n, p in (('sx', 'X'), ('sz', 'Z')):
                        if n in got:
                            matrix(R, I, 'observables', f'{n} at {s}, {label}', got[n], scal(P[p], -1 if sub else 1))
                    v = [I.resolve(x) for x in I.iterate(st)]
                    R.ob('initial', f'{s}, {label}', [poly.simp(Poly.of(x)) for x in v] == ([0, 1] if sub else [1, 0]), f'initial state {v}')
                for x in L_('h2') + L_('h1'):
                    t = I.resolve(I.getattr(x, 'mat')) if isinstance(x, Inst) else x
                    if isinstance(t, TObj):
                        R.ob('model-dtype', label, str(t.dtype).endswith(dt), f'term has dtype {t.dtype}')
                R.covers(I)
    directions(R)
    base(R)
    R.expect('hamiltonian', 150)
    R.expect('observables', 80)
    R.expect('direction', 20)


def directions(R):
    """bond_direction names the displacement from the first to the second site"""
    for L in ((3, 3), (3, 4)):
        I = fresh(True)
        plain_boundary(I)
        cfg = config(L[0], L[1], {'phys': 2, 'bond': 2, 'chi': 8}, True, model={'name': 'ising', 'params': {'jz': 1, 'hx': 1}})
        ok, g = R.attempt('direction', str(L), lambda: script(I, '''
            from acetn.ipeps import Ipeps
            from acetn.ipeps.bond import Bond
            from acetn.model import Model
            from acetn.model.model_factory import model_factory
            c = Ipeps(cfg)
            m = model_factory.create(c.config.model)
            bonds = [tuple(b) for b in c.bond_list]
            dirs = [m.bond_direction(b) for b in c.bond_list]
            more = [Model.bond_direction(Bond((1, 1), (1 + dx, 1 + dy), k)) for dx, dy, k in ((-1, 0, 0), (0, 1, 1), (1, 0, 2), (0, -1, 3))]
            lists = [Model.bond_direction([(1, 1), (1 + dx, 1 + dy), k]) for dx, dy, k in ((-1, 0, 0), (0, 1, 1), (1, 0, 2), (0, -1, 3))]
            ''', cfg=cfg), I)
        if not ok:
            continue
        for b, d in zip(I.iterate(g['bonds']), I.iterate(g['dirs'])):
            s1, s2, k = [I.resolve(x) for x in I.iterate(b)]
            s1, s2 = key(I, s1), key(I, s2)
            disp = tuple(x if x in (-1, 0, 1) else (-1 if x > 0 else 1) for x in ((s2[i] - s1[i]) for i in (0, 1)))
            R.ob('direction', f'bond {s1} {s2}, {L}', I.resolve(d) == DIRECTION.get(disp), f'called {I.resolve(d)!r} instead of {DIRECTION.get(disp)!r}')
        for n in ('more', 'lists'):
            got = [I.resolve(x) for x in I.iterate(g[n])]
            R.ob('direction', f'all four directions, {n}', got == ['-x', '+y', '+x', '-y'], f'called {got}')
        R.covers(I)


def base(R):
    """what a model inherits when it defines only its two-site term"""
    for p in (2, 3, 4):
        I = fresh(True)
        plain_boundary(I)
        cfg = config(1, 2, {'phys': p, 'bond': 2, 'chi': 8}, True, model={'name': 'ising', 'params': {'x': 3}})
        ok, g = R.attempt('base', f'p={p}', lambda: script(I, '''
            from acetn.ipeps import Ipeps
            from acetn.model import Model
            class M(Model):
                def two_site_hamiltonian(self, bond):
                    return None
            c = Ipeps(cfg)
            m = M(c.config.model)
            got = [m.one_site_hamiltonian((0, 0)), dict(m.one_site_observables((0, 0))), dict(m.two_site_observables(c.bond_list[0])), list(m.initial_site_state((0, 1))),
                   m.dim, m.dtype, m.params]
            class N(Model):
                pass
            ''', cfg=cfg), I)
        if ok:
            h, o1, o2, st, d, dt, pr = [I.resolve(x) for x in I.iterate(g['got'])]
            R.ob('base', f'no one-site term, p={p}', h is None, repr(h))
            R.ob('base', f'no observables, p={p}', not o1.d and not o2.d, f'{o1!r} {o2!r}')
            R.ob('base', f'polarised initial state, p={p}', [I.resolve(x) for x in I.iterate(st)] == [1] + [0] * (p - 1), repr(st))
            R.ob('base', f'physical dimension, p={p}', d == p, repr(d))
            R.ob('base', f'dtype, p={p}', str(dt).endswith('float64'), repr(dt))
            R.ob('base', f'parameters, p={p}', repr(pr) == "PDict('x': 3)", repr(pr))
            e = raises(I, 'N(c.config.model)', N=g['N'], c=g['c'])
            R.ob('base', f'a model without two-site term is abstract, p={p}', e is not None, 'can be instantiated')
        R.covers(I)
