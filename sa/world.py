"""Contexts for the checks: a fresh abstract interpreter on /repo's sources, abstract values, lattices."""
import os
from . import poly, tnet, pylib, torchlib, objects
from .poly import Poly
from .tnet import Incomplete, DimError
from .interp import Interp, PyRaise, hkey
from .objects import *

ROOT = os.environ.get('ACETN_ROOT', '/repo')
OPP = {0: 2, 1: 3, 2: 0, 3: 1}
STEP = {0: (-1, 0), 1: (0, 1), 2: (1, 0), 3: (0, -1)}


def dim(name):
    return Poly.sym(name, True, True)


def up(v):
    """python value -> abstract value"""
    if isinstance(v, dict):
        return PDict({hkey(k): (k, up(x)) for k, x in v.items()})
    if isinstance(v, list):
        return PList([up(x) for x in v])
    if isinstance(v, tuple):
        return tuple(up(x) for x in v)
    return v


def fresh(real=True, env=None):
    tnet.ALL_REAL[0] = bool(real)
    I = Interp(ROOT, 'acetn')
    if env is not None:
        pylib.set_env(I, env)
    return I


def sym(I, modname, name):
    return I.getattr(I.load(modname), name)


def config(nx=2, ny=2, dims=None, real=True, ctmrg=None, evolution=None, model=None, **kw):
    dims = dims or {'phys': dim('p'), 'bond': dim('D'), 'chi': dim('chi')}
    c = {'TN': {'nx': nx, 'ny': ny, 'dims': dims}, 'dtype': 'float64' if real else 'complex128', 'device': 'cpu'}
    if ctmrg is not None:
        c['ctmrg'] = ctmrg
    if evolution is not None:
        c['evolution'] = evolution
    if model is not None:
        c['model'] = model
    c.update(kw)
    return up(c)


def make_ipeps(I, cfg, prev=None):
    cls = sym(I, 'acetn.ipeps', 'Ipeps')
    return I.call(cls, [cfg] + ([prev] if prev is not None else []), {})


# ------------------------------------------------------------- lattice geometry
def shift(s, k, L):
    return ((s[0] + STEP[k][0]) % L[0], (s[1] + STEP[k][1]) % L[1])


def sites_of(L):
    return [(x, y) for x in range(L[0]) for y in range(L[1])]


def link(k, s, L):
    """dimension of leg 1 of the edge tensor E[k] of site s (= leg 0 of its clockwise neighbour, = leg 0 of C[k+1](s))"""
    k %= 4
    return dim(f'x{k}_{s[0]}{s[1]}')


def link_in(k, s, L):
    """dimension of leg 0 of E[k](s)"""
    return link(k, shift(s, k % 4, L), L)


def bond_dim(k, s, L, uniform=True):
    return dim('D')


def A_dims(s, p=None):
    return (dim('D'),) * 4 + (p if p is not None else dim('p'),)


def C_dims(k, s, L):
    return (link(k - 1, s, L), link_in(k, s, L))


def E_dims(k, s, L):
    return (link_in(k, s, L), link(k, s, L), dim('D'), dim('D'))


def A_atom(s, p=None, conj=False):
    return tnet.atom_tv(('A', s), A_dims(s, p), conj)


def C_atom(k, s, L):
    k %= 4
    return tnet.atom_tv(('C', k, s), C_dims(k, s, L))


def E_atom(k, s, L):
    k %= 4
    return tnet.atom_tv(('E', k, s), E_dims(k, s, L))


def reach(o, seen=None):
    """every object reachable from an abstract value"""
    seen = {} if seen is None else seen
    todo = [o]
    while todo:
        x = todo.pop()
        if isinstance(x, Phi):
            todo += [x.a, x.b]
            continue
        if isinstance(x, (tuple, list)):
            todo += list(x)
            continue
        if isinstance(x, Bound):
            todo.append(x.self)
            continue
        if not isinstance(x, (PList, PDict, Inst, PSet, TObj)) or id(x) in seen:
            continue
        seen[id(x)] = x
        if isinstance(x, Inst):
            todo += list(x.box.content.values())
        elif isinstance(x, PList):
            todo += list(x.items)
        elif isinstance(x, PDict):
            todo += [v for _, v in x.d.values()]
    return list(seen.values())


def set_dims(o, **dims):
    """give the dimension dictionaries held by o (and by what it holds) other values"""
    n = 0
    for x in reach(o):
        if isinstance(x, PDict) and all(hkey(k) in x.d for k in ('phys', 'bond', 'chi')):
            for k, v in dims.items():
                x.d[hkey(k)] = (k, v)
            n += 1
    if not n:
        raise Incomplete('no dimension dictionary reachable from the network')


def tobj(I, v, real=True):
    return torchlib.mk(I, v, torchlib.DTYPES['float64' if real else 'complex128'], torchlib.CPU)


def put_env(I, ip, L, p=None, real=None):
    """overwrite every tensor of the network by a named unknown with its own dimensions"""
    real = tnet.ALL_REAL[0] if real is None else real
    for s in sites_of(L):
        st = I.getitem(ip, s)
        I.setitem(st, 'A', tobj(I, A_atom(s, p), real))
        I.setitem(st, 'C', PList([tobj(I, C_atom(k, s, L), real) for k in range(4)]))
        I.setitem(st, 'E', PList([tobj(I, E_atom(k, s, L), real) for k in range(4)]))


def get_env(I, ip, L):
    out = {}
    for s in sites_of(L):
        st = I.getitem(ip, s)
        out['A', s] = I.getitem(st, 'A')
        for c in 'CE':
            l = I.getitem(st, c)
            for k in range(4):
                out[c, k, s] = I.getitem(l, k)
    return out


def lattice(L=(2, 2), real=True, p=2, dims=None, ctmrg=None, evolution=None, model=None, env=None, named=True, I=None):
    """an Ipeps object on an L lattice with every tensor named"""
    I = I or fresh(real, env)
    d = {'phys': 2 if isinstance(p, Poly) else p, 'bond': dim('D'), 'chi': dim('chi')}
    d.update(dims or {})
    ip = make_ipeps(I, config(L[0], L[1], d, real, ctmrg, evolution, model))
    if named:
        if isinstance(p, Poly):
            set_dims(ip, phys=p)
        put_env(I, ip, L, p, real)
    return I, ip


# ------------------------------------------------------------------ client scenarios
def script(I, src, /, **given):
    """analyse a client program of the package; returns its variables.  An exception it certainly raises is PyRaise;
    exceptions it may raise are left in I.may"""
    import ast
    import textwrap
    from .interp import Frame
    m = PModule('client', {'__name__': 'client', **{k: up(v) for k, v in given.items()}})
    m.ispkg = False
    fr = Frame(m)
    fr.vars = m.box
    normal, exits = I.exec_block(ast.parse(textwrap.dedent(src)).body, fr)
    raises = [e for e in exits if e.kind == 'raise']
    if not normal:
        raise PyRaise(raises[-1].val)
    I.may = [e.val for e in raises]
    return {k: I.resolve(v) for k, v in m.box.content.items()}


def raises(I, src, /, **given):
    """the exception a client certainly raises, or None"""
    try:
        script(I, src, **given)
    except PyRaise as e:
        return e.val
    except DimError as e:
        return e
    return None


def tensors_of(I, tn, L):
    """name -> tensor object of every tensor of a network"""
    return get_env(I, tn, L)


def storage_ids(ts):
    return {b.id for t in ts for b in t.storages()}


def forget_values(I):
    """abstract every tensor assigned to a site to an unknown of its shape (for properties that do not depend on values)"""
    for mod, cls in (('acetn.ipeps.site_tensor', 'SiteTensor'), ('acetn.evolution.lambda_tensors', 'LambdaTensors')):
        try:
            c = sym(I, mod, cls)
        except (PyRaise, Incomplete):
            continue
        f = c.lookup('__setitem__')
        if not isinstance(f, PFunc):
            continue

        def handler(I, f, args, kw, proceed):
            vals = [I.resolve(x) for x in list(args) + list(kw.values())]

            def unknown(t):
                t = I.resolve(t)
                if not isinstance(t, TObj):
                    return t
                u = torchlib.mk(I, tnet.atom_tv(('unknown', tnet.uid()), t.shape), t.dtype, t.device)
                u.lay = t.lay
                return u
            new = []
            for v in vals:
                if isinstance(v, TObj):
                    v = unknown(v)
                elif isinstance(v, (PList, tuple)) and all(isinstance(I.resolve(x), TObj) for x in (v.items if isinstance(v, PList) else v)):
                    its = [unknown(x) for x in (v.items if isinstance(v, PList) else v)]
                    v = PList(its) if isinstance(v, PList) else tuple(its)
                new.append(v)
            return I.call_func(f, new, {})
        I.hooks[f] = handler
    ren = sym(I, 'acetn.ipeps', 'Ipeps').lookup('renormalize')

    def after(I, f, args, kw, proceed):
        r = proceed()
        ip = I.resolve(args[0])
        for s in I.iterate(I.getattr(ip, 'site_list')):
            st = I.getitem(ip, s)
            for n in 'CE':
                I.setitem(st, n, I.getitem(st, n))
        return r
    if isinstance(ren, PFunc):
        I.hooks[ren] = after


def plain_boundary(I):
    """boundary tensors of a new site as unknowns (for properties that do not depend on them)"""
    c = sym(I, 'acetn.ipeps.site_tensor', 'SiteTensor')
    for name, key, nl in (('initialize_corner_tensors', 'C', 2), ('initialize_edge_tensors', 'E', 4)):
        f = c.lookup(name)
        if not isinstance(f, PFunc):
            continue

        def handler(I, f, args, kw, proceed, key=key, nl=nl):
            st = I.resolve(args[0])
            D = I.getitem(I.getattr(st, 'dims'), 'bond')
            sh = (poly.mul(D, D),) * 2 + (D,) * (nl - 2)
            mk = lambda: torchlib.mk(I, tnet.atom_tv(('boundary', tnet.uid()), sh), I.getattr(st, 'dtype'), I.getattr(st, 'device'))
            I.setitem(st, key, PList([mk() for _ in range(4)]))
        I.hooks[f] = handler


def snapshot(I, o, path='', out=None, seen=None):
    """path -> value of everything public reachable from an object (cycles cut)"""
    out = {} if out is None else out
    seen = set() if seen is None else seen
    o = I.resolve(o)
    if isinstance(o, TObj):
        out[path] = ('tensor', o.v, str(o.dtype), str(o.device))
        return out
    if isinstance(o, (PList, PDict, Inst, tuple, list)):
        if id(o) in seen and not isinstance(o, tuple):
            return out
        seen.add(id(o))
    if isinstance(o, Inst):
        for n, v in o.box.content.items():
            if not n.startswith('_'):
                snapshot(I, v, f'{path}.{n}', out, seen)
    elif isinstance(o, PDict):
        out[path + ' keys'] = sorted(repr(k) for k, _ in o.d.values())
        for k, v in o.d.values():
            snapshot(I, v, f'{path}[{k!r}]', out, seen)
    elif isinstance(o, (PList, tuple, list)):
        items = o.items if isinstance(o, PList) else o
        out[path + ' length'] = len(items)
        for i, v in enumerate(items):
            snapshot(I, v, f'{path}[{i}]', out, seen)
    elif isinstance(o, (PFunc, PClass, Bound)):
        out[path] = ('code', getattr(o, 'name', None) or repr(type(o)))
    else:
        out[path] = repr(o)
    return out


def same(R, rule, label, before, after, skip=()):
    """everything in the first snapshot still has its value"""
    bad = []
    for p, v in before.items():
        if any(p.startswith(s) for s in skip):
            continue
        w = after.get(p)
        if isinstance(v, tuple) and v[0] == 'tensor':
            if not (isinstance(w, tuple) and w[0] == 'tensor' and w[2:] == v[2:] and tnet.equal_all(w[1], v[1])[0]):
                bad.append((p, 'tensor changed'))
        elif v != w:
            bad.append((p, f'{v} became {w}'))
    R.ob(rule, label, not bad, f'changed: {bad[:5]}')
