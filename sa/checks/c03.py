"""Networks, site tensors and gates are isolated from each other: no operation on one changes another, copies are deep."""
from ..world import *

CFG = {'phys': 2, 'bond': dim('D'), 'chi': dim('chi')}
MODEL = {'name': 'ising', 'params': {'jz': dim('jz'), 'hx': dim('hx')}}


def values(env):
    return {k: t.v for k, t in env.items()}


def unchanged(R, rule, label, tn_env_before, env_after):
    for k, v in tn_env_before.items():
        t = env_after[k]
        ok, msg = tnet.equal_all(t.v, v)
        R.ob(rule, f'{label}: {k[0]}{list(k[1:])}', ok, msg)


def disjoint(R, rule, label, a, b):
    ia = {}
    for k, t in a.items():
        for i in storage_ids([t]):
            ia[i] = k
    bad = [(k, ia[i]) for k, t in b.items() for i in storage_ids([t]) if i in ia]
    R.ob(rule, label, not bad, f'tensors share memory: {bad[:4]}')


def net(I, L, real, name, steps=1):
    ip = make_ipeps(I, config(L[0], L[1], CFG, real, {'steps': steps, 'svd_type': 'full-rank'}, {'update_type': 'simple'}, MODEL))
    for s in sites_of(L):
        st = I.getitem(ip, s)
        at = lambda key, dims: tobj(I, tnet.atom_tv((name,) + key, dims), real)
        D, chi = dim('D'), dim('chi')
        I.setitem(st, 'A', at(('A', s), (D, D, D, D, 2)))
        I.setitem(st, 'C', PList([at(('C', k, s), (chi, chi)) for k in range(4)]))
        I.setitem(st, 'E', PList([at(('E', k, s), (chi, chi, D, D)) for k in range(4)]))
    return ip


OPS = [
    ('constructing a network', 'Ipeps(cfg)'),
    ('constructing a network from another', 'Ipeps(cfg, b)'),
    ('initialising the site tensors', 'b.initialize_site_tensors(lambda site: [0., 1.])'),
    ('copy()', 'b.copy()'),
    ('to()', 'b.to(dtype=torch.float32)'),
    ('setting site tensors', 'c = b.copy()\nb[(0, 0)] = c[(0, 0)]\nb[(0, 0)]["A"] = x'),
    ('changing tensors in place', 'b[(0, 0)]["A"].mul_(2)\nb[(0, 0)]["C"][1] = y\nb[(0, 0)]["E"][2].mul_(3)'),
    ('renormalising', 'b.renormalize()'),
    ('evolving', 'b.evolve(0.1, 1)'),
    ('saving', 'b.save("f.pt")'),
    ('loading', 'b.save("f.pt")\nb.load("f.pt")'),
    ('changing chi and parameters', 'b.set_chi(7)\nb.set_model_params(hx=3.)'),
    ('setting the model', 'b.set_model(IsingModel, {"jz": 1., "hx": 2.})'),
    ('reversing the bond list', 'b.bond_list.reverse()\nb.site_list.pop()'),
]


def scalars(I, ip):
    """settings of a network that operations on another must not change"""
    c = I.getattr(ip, 'config')
    m = I.getattr(c, 'model')
    return (repr(I.getattr(ip, 'dims')), repr(I.getattr(m, 'params')), repr(I.getattr(m, 'name')), repr(I.getattr(ip, 'bond_list')),
            repr(I.getattr(ip, 'site_list')), repr(I.getattr(ip, 'site_states_initialized')))


def list_repr(I, tn, name):
    return [tuple(I.resolve(y) for y in I.iterate(x)) for x in I.iterate(I.getattr(tn, name))]


def run(R):
    L, real = (1, 2), True
    for what, code in OPS:
        I = fresh(real)
        a = net(I, L, real, 'a')
        cfg = config(L[0], L[1], CFG, real, {'steps': 1, 'svd_type': 'full-rank'}, {'update_type': 'simple'}, MODEL)
        b = net(I, L, real, 'b')
        before = values(get_env(I, a, L))
        lists = list_repr(I, a, 'bond_list'), list_repr(I, a, 'site_list')
        sets = scalars(I, a)[:3] + scalars(I, a)[5:]
        if what == 'evolving':
            forget_values(I)
        D = dim('D')
        label = f'{what} leaves other networks alone'
        ok, g = R.attempt('isolation', label, lambda: script(
            I, 'from acetn.ipeps import Ipeps\nfrom acetn.model.models.ising import IsingModel\n' + code, b=b, cfg=cfg, torch=I.load('torch'),
            x=tobj(I, tnet.atom_tv(('x',), (D, D, D, D, 2))), y=tobj(I, tnet.atom_tv(('y',), (dim('chi'), dim('chi'))))), I)
        if not ok:
            continue
        unchanged(R, 'isolation', label, before, get_env(I, a, L))
        R.ob('isolation-lists', label, (list_repr(I, a, 'bond_list'), list_repr(I, a, 'site_list')) == lists, 'bond or site list of the other network changed')
        R.ob('isolation-settings', label, scalars(I, a)[:3] + scalars(I, a)[5:] == sets, f'settings of the other network changed from {sets} to {scalars(I, a)}')
        disjoint(R, 'disjoint', label, get_env(I, a, L), get_env(I, b, L))
        R.covers(I)
    copies(R, L, real)
    sites(R, real)
    gates(R, L, real)
    R.expect('isolation', 100)
    R.expect('copy', 20)


def copies(R, L, real):
    I = fresh(real)
    a = net(I, L, real, 'a')
    cfg = config(L[0], L[1], CFG, real, None, None, MODEL)
    forms = [('copy()', 'c = a.copy()'), ('to() without arguments', 'c = a.to()'), ('to(device)', 'c = a.to(device="cpu")'),
             ('to(dtype)', 'c = a.to(dtype=torch.float64)'), ('a network made from another', 'c = Ipeps(cfg, a)'),
             ('a copy of a copy', 'c = a.copy().copy()')]
    for what, code in forms:
        before = values(get_env(I, a, L))
        ok, g = R.attempt('copy', what, lambda: script(I, 'from acetn.ipeps import Ipeps\n' + code, a=a, cfg=cfg, torch=I.load('torch')), I)
        if not ok:
            continue
        c = g['c']
        ea, ec = get_env(I, a, L), get_env(I, c, L)
        for k, v in before.items():
            ok, msg = tnet.equal_all(ec[k].v, v)
            R.ob('copy', f'{what} equals the original: {k}', ok, msg)
        unchanged(R, 'copy', f'{what} leaves the original', before, ea)
        disjoint(R, 'disjoint', f'{what} and the original', ea, ec)
        lists = list_repr(I, c, 'bond_list'), list_repr(I, c, 'site_list')
        R.ob('copy-lists', what, lists == (list_repr(I, a, 'bond_list'), list_repr(I, a, 'site_list')), 'site or bond list differs')
        # later changes of either stay there
        ok, g = R.attempt('copy', what + ', then changed', lambda: script(
            I, 'c[(0, 0)]["A"].mul_(2)\nc[(0, 1)]["C"][0].mul_(2)\nc[(0, 1)]["E"][3].mul_(2)\nc.bond_list.reverse()\nc.site_list.reverse()\n'
               'n = 0 if c[(0, 0)] is a[(0, 0)] or c.bond_list is a.bond_list or c.site_list is a.site_list else 1', a=a, c=c), I)
        if ok:
            unchanged(R, 'copy', f'changing {what} leaves the original', before, get_env(I, a, L))
            R.ob('copy-lists', what + ', own lists', g['n'] == 1, 'site tensors or lists are shared with the original')
            R.ob('copy-lists', what + ', reversed', list_repr(I, c, 'bond_list') == lists[0][::-1] and list_repr(I, a, 'bond_list') == lists[0], 'reversing one list changed the other')
    R.covers(I)


def sites(R, real):
    """site tensors own what they hold"""
    D, chi = dim('D'), dim('chi')
    I = fresh(real)
    a = net(I, (1, 1), real, 'a')
    T = lambda n, *d: tobj(I, tnet.atom_tv((n,), d), real)
    given = dict(a=a, x=T('x', D, D, D, D, 2), ys=PList([T(f'y{k}', chi, chi) for k in range(4)]), zs=PList([T(f'z{k}', chi, chi, D, D) for k in range(4)]))
    ok, g = R.attempt('owned', 'assignment', lambda: script(I, '''
        st = a[(0, 0)]
        st["A"] = x
        st["C"] = ys
        st["E"] = zs
        got = [st["A"]] + list(st["C"]) + list(st["E"])
        x.mul_(2)
        ys[1].mul_(2)
        ys[2] = ys[3]
        zs[1].mul_(2)
        now = [st["A"]] + list(st["C"]) + list(st["E"])
        ''', **given), I)
    if ok:
        names = ['x'] + [f'y{k}' for k in range(4)] + [f'z{k}' for k in range(4)]
        shapes = [(D, D, D, D, 2)] + [(chi, chi)] * 4 + [(chi, chi, D, D)] * 4
        for n, sh, t in zip(names, shapes, I.iterate(g['now'])):
            o, msg = tnet.equal_all(I.resolve(t).v, tnet.atom_tv((n,), sh))
            R.ob('owned', f'assigned tensor {n} changed by its source', o, msg)
    for what, code in [('copy()', 'c = st.copy()'), ('to()', 'c = st.to()'), ('a site tensor made from another', 'c = SiteTensor(st.dims, st)'),
                       ('copy_from', 'c = b[(0, 0)]\nc.copy_from(st)')]:
        I = fresh(real)
        a, b = net(I, (1, 1), real, 'a'), net(I, (1, 1), real, 'b')
        before = values(get_env(I, a, (1, 1)))
        ok, g = R.attempt('site-copy', what, lambda: script(I, 'from acetn.ipeps.site_tensor import SiteTensor\nst = a[(0, 0)]\n' + code +
                                                            '\nr = [c["A"]] + list(c["C"]) + list(c["E"])\nq = [st["A"]] + list(st["C"]) + list(st["E"])', a=a, b=b), I)
        if ok:
            r, q = ([I.resolve(t) for t in I.iterate(g[n])] for n in 'rq')
            for i, (x, y, v) in enumerate(zip(r, q, before.values())):
                o1, m1 = tnet.equal_all(x.v, v)
                o2, m2 = tnet.equal_all(y.v, v)
                R.ob('site-copy', f'{what}: tensor {i}', o1 and o2, m1 if not o1 else m2)
                R.ob('disjoint', f'{what} of a site tensor: tensor {i}', not storage_ids([x]) & storage_ids([y]), 'shares memory with the original')
        R.covers(I)


def gates(R, L, real):
    """two sets of gates, two sets of weights"""
    I = fresh(real)
    a = net(I, L, real, 'a')
    ok, g = R.attempt('gates', 'gates of two time steps', lambda: script(I, '''
        from acetn.evolution.gate import Gate
        from acetn.model.model_factory import model_factory
        m = model_factory.create(a.config.model)
        g1 = Gate(m, t1, a.bond_list, a.site_list)
        x1 = [g1[b] for b in a.bond_list]
        g2 = Gate(m, t2, a.bond_list, a.site_list)
        y1 = [g1[b] for b in a.bond_list]
        y2 = [g2[b] for b in a.bond_list]
        ''', a=a, t1=dim('t1'), t2=dim('t2')), I)
    if ok:
        x1, y1, y2 = ([I.resolve(t) for t in I.iterate(g[n])] for n in ('x1', 'y1', 'y2'))
        for i, (p, q, r) in enumerate(zip(x1, y1, y2)):
            o, msg = tnet.equal_all(p.v, q.v)
            R.ob('gates', f'gate of bond {i} after gates of another time step were made', o, msg)
            R.ob('gates', f'gates of bond {i} of two time steps differ', not tnet.equal_all(q.v, r.v)[0], 'are the same')
    R.covers(I)
