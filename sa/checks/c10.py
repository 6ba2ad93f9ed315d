"""Initial tensors: requested product state plus requested noise, and the traced double layer as boundary, all normalised."""
import ast
from fractions import Fraction
from ..world import *
from .moves import named_env, key_name

MODEL = '''
from acetn.ipeps import Ipeps
from acetn.model import Model
class M(Model):
    def initial_site_state(self, site):
        return f(site)
    def two_site_hamiltonian(self, bond):
        return h
'''


def is_normalised(I, got, want):
    """got = want divided by its norm"""
    n = len(want.shape)
    ix = ''.join(chr(97 + i) for i in range(n))
    t = torchlib.mk(I, want, torchlib.DTYPES['float64' if tnet.ALL_REAL[0] else 'complex128'], torchlib.CPU)
    norm = I.resolve(I.call_method(t, 'norm', [])).v
    for w in (tnet.pow_(norm, -1), tnet.pow_(tnet.einsum([want, tnet.conj(want)], f'{ix},{ix}->'), Fraction(-1, 2))):
        if tnet.equal_all(got, tnet.mul(want, w))[0]:
            return True, ''
    ok, msg = tnet.equal_all(got, want, True)
    return False, 'right up to a factor, but not divided by its norm' if ok else msg


def frame(v, k):
    return tnet.permute(v, [(i + k) % 4 for i in range(4)] + [4])


def corner(A, k):
    a = frame(A, k)
    v = tnet.einsum([a, tnet.conj(a)], 'lurdp,luRDp->dDrR')
    s = v.shape
    return tnet.reshape(v, (poly.mul(s[0], s[1]), poly.mul(s[2], s[3])))


def edge(A, k):
    a = frame(A, k)
    v = tnet.einsum([a, tnet.conj(a)], 'lurdp,LuRDp->lLrRdD')
    s = v.shape
    return tnet.reshape(v, (poly.mul(s[0], s[1]), poly.mul(s[2], s[3]), s[4], s[5]))


def site_class(I):
    c = sym(I, 'acetn.ipeps.site_tensor', 'SiteTensor')
    f = c.lookup('__setitem__')
    if not isinstance(f, PFunc):
        raise Incomplete('SiteTensor has no item assignment')
    return c, f


def states(R, real, *cells):
    """the site tensor itself"""
    if True:
        for L, p, ns in cells:
            for how in ('given', 'model', 'tensor', 'noise', 'quiet'):
                label = f'{"real" if real else "complex"} {L[0]}x{L[1]}, {p} local states, {ns} amplitudes, {how}'
                I = fresh(real)
                plain_boundary(I)
                amp = lambda s: [dim(f's{s[0]}{s[1]}{n}') for n in range(ns)]
                nu = dim('nu')
                ren = None
                cfg = config(L[0], L[1], {'phys': p, 'bond': dim('D'), 'chi': dim('chi')}, real)

                def f(I, a, k):
                    s = tuple(I.resolve(x) for x in I.iterate(a[0]))
                    l = PList(amp(s))
                    if how == 'tensor':
                        return I.call(I.getattr(I.load('torch'), 'tensor'), [l], {})
                    return l
                g = dict(cfg=cfg, f=pylib.fn('f', f), nu=nu, ns=ns, h=tobj(I, tnet.atom_tv(('h',), (p * p, p * p)), real))
                I.load('acetn.ipeps')
                n0 = [I.nrand]
                body = {'given': 'c = Ipeps(cfg)\nc.initialize_site_tensors(f)', 'tensor': 'c = Ipeps(cfg)\nc.initialize_site_tensors(f)',
                        'model': 'c = Ipeps(cfg)\nc.set_model(M, {})\nc.evolve(1, 0)',
                        'noise': 'c = Ipeps(cfg)\nfor s in c.site_list:\n    c[s].initialize_site_tensor(f(s), noise=nu)',
                        'quiet': 'c = Ipeps(cfg)\nfor s in c.site_list:\n    c[s].initialize_site_tensor(f(s))'}[how]
                if how == 'model':
                    for n, fs in (('acetn.ipeps', 'renormalize'),):
                        fn = sym(I, n, 'Ipeps').lookup(fs)
                        I.hooks[fn] = lambda I, f, a, kw, proceed: None
                ok, g = R.attempt('state', label, lambda: script(I, MODEL + body, **g), I)
                if not ok:
                    continue
                env = get_env(I, g['c'], L)
                D = dim('D')
                used = set()
                for s in sites_of(L):
                    got = env['A', s].v
                    sh = (D, D, D, D, p)
                    if not tuple(map(str, got.shape)) == tuple(map(str, sh)):
                        R.fail('state', f'{label}, site {s}', f'shape {got.shape}, {sh} is required')
                        continue
                    res = (False, 'no random tensor')
                    cands = [None] if how == 'quiet' else list(range(1, I.nrand + 1))
                    for m in cands:
                        t = torchlib.mk(I, tnet.scale(tnet.atom_tv(('rand', m), sh), nu if how == 'noise' else Fraction(1, 100)) if m is not None else tnet.opaque('zeros', [], sh), env['A', s].dtype, torchlib.CPU)
                        if m is None:
                            t = I.call(I.getattr(I.load('torch'), 'zeros'), list(sh), {'dtype': env['A', s].dtype})
                        for n, a in enumerate(amp(s)):
                            i = (0, 0, 0, 0, n)
                            x = I.getitem(t, i)
                            I.setitem(t, i, I.binop(ast.Add(), x, a))
                        res = is_normalised(I, got, t.v)
                        if res[0]:
                            if m is not None:
                                R.ob('own-noise', f'{label}, site {s}', m not in used, 'two sites share their noise')
                                used.add(m)
                            break
                    R.ob('state', f'{label}, site {s}', res[0], f'the site tensor is not the normalised state with its noise: {res[1]}')
                R.covers(I)


def boundary(R, real):
    """corner and edge tensors made from a site tensor"""
    if True:
        for L, p in (((1, 1), 2), ((2, 1), 2), ((2, 2), 3), ((1, 3), 2)):
            for how, body in (('construction', 'c = Ipeps(cfg)'), ('initialisation', 'c = Ipeps(cfg)\nc.initialize_site_tensors(f)')):
                label = f'{"real" if real else "complex"} {L[0]}x{L[1]}, {p} local states, {how}'
                I = fresh(real)
                c, setter = site_class(I)
                count = [0]

                def named(I, f, a, kw, proceed):
                    b = I.bind(f, a, kw)
                    vals = list(b.values())
                    if I.resolve(vals[1]) == 'A':
                        t = I.resolve(vals[2])
                        count[0] += 1
                        vals[2] = torchlib.mk(I, tnet.atom_tv(('A', count[0]), tuple(t.shape)), t.dtype, t.device)
                    return I.call_func(f, vals, {})
                I.hooks[setter] = named
                cfg = config(L[0], L[1], {'phys': p, 'bond': dim('D'), 'chi': dim('chi')}, real)
                f = pylib.fn('f', lambda I, a, k: PList([dim('s'), dim('t')]))
                I.load('acetn.ipeps')
                ok, g = R.attempt('boundary', label, lambda: script(I, 'from acetn.ipeps import Ipeps\n' + body, cfg=cfg, f=f), I)
                if not ok:
                    continue
                env = get_env(I, g['c'], L)
                for s in sites_of(L):
                    A = env['A', s].v
                    for k in range(4):
                        R.ob('boundary', f'{label}: C[{k}] of site {s}', *is_normalised(I, env['C', k, s].v, corner(A, k)))
                        R.ob('boundary', f'{label}: E[{k}] of site {s}', *is_normalised(I, env['E', k, s].v, edge(A, k)))
                R.covers(I)


def run(R):
    tasks = []
    for real in (True, False):
        for cell in (((1, 1), 2, 2), ((2, 1), 2, 1), ((2, 3), 2, 2), ((1, 2), 3, 3), ((2, 2), 3, 2)):
            tasks.append(lambda a=(real, cell): states(R, *a))
        tasks.append(lambda a=real: boundary(R, a))
    R.parallel(tasks)
    R.expect('state', 60)
    R.expect('boundary', 100)
