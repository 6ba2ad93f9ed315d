"""Values that differ between processes (random numbers, results of one rank's share of the work) are made equal before they enter the network."""
import time
from .spmdlib import *

PROGRAMS = [
    ('construction', 'c = Ipeps(cfg)\nwatch(c)'),
    ('initialisation', 'c = Ipeps(cfg)\nwatch(c)\nc.initialize_site_tensors(f)'),
    ('initialisation twice', 'c = Ipeps(cfg)\nwatch(c)\nc.initialize_site_tensors(f)\nc.initialize_site_tensors(f)'),
    ('copies', 'b = Ipeps(cfg)\nb.initialize_site_tensors(f)\nc = Ipeps(cfg, b)\nd = c.copy()\ne = b.to(dtype=b.dtype)'),
    ('renormalisation', 'c = Ipeps(cfg)\nwatch(c)\nc.initialize_site_tensors(f)\nc.renormalize()'),
    ('renormalisation of another network', 'b = Ipeps(cfg)\nc = Ipeps(cfg, b)\nwatch(c)\nc.renormalize()\nd = c.copy()'),
    ('evolution', 'c = Ipeps(cfg)\nwatch(c)\nc.set_model(M, {})\nc.evolve(t, 1)\nr = c.measure()'),
    ('evolution after initialisation', 'c = Ipeps(cfg)\nwatch(c)\nc.initialize_site_tensors(f)\nc.set_model(M, {})\nc.evolve(t, 1)'),
]


class Renamer:
    """give the tensors of the watched network fresh common names whenever every rank holds the same ones"""
    def __init__(self, W):
        self.W, self.ips, self.last = W, {}, None
        self.apart, self.t0 = 0, time.time()
        W.S.on_exchange = self.exchange

    def watch(self, I, r, ip):
        self.ips[r] = ip

    def envs(self):
        out = []
        for k in self.W.S.ranks:
            with self.W.S.as_rank(k):
                out.append(get_env(k.I, self.ips[k.r], self.W.L))
        return out

    def exchange(self):
        if len(self.ips) < self.W.n:
            return
        es = self.envs()
        ids = [[id(t.v) for t in e.values()] for e in es]
        if ids == self.last:
            return
        vs = [{x: self.W.S.value(k, t) for x, t in e.items()} for k, e in zip(self.W.S.ranks, es)]
        if any(not tnet.equal_all(v[x], vs[0][x])[0] for v in vs[1:] for x in vs[0]):
            # ranks that have been apart for long: one name per group of equal tensors keeps the terms small
            self.apart += 1
            if self.apart < 100 or time.time() - self.t0 < 15:
                return
        else:
            self.apart = 0
        groups = {x: [] for x in vs[0]}
        for k, e, v in zip(self.W.S.ranks, es, vs):
            with self.W.S.as_rank(k):
                for x, t in e.items():
                    for w, n in groups[x]:
                        if w is v[x] or tnet.equal_all(v[x], w)[0]:
                            break
                    else:
                        n = tnet.uid()
                        groups[x].append((v[x], n))
                    t.write(tnet.atom_tv(('common', n), tuple(t.shape)))
        self.last = [[id(t.v) for t in e.values()] for e in self.envs()]


def scenario(R, n, L, real, typ, what, code):
    label = f'{what}, {n} processes, {L[0]}x{L[1]}, {typ} update'
    W = World(R, n, L, real, boundary=n > 2, named=False, rdm=True)
    N = Renamer(W)
    if typ == 'simple':
        for k in W.S.ranks:                 # the simple update has no share of its own
            with W.S.as_rank(k):
                simple(k.I, real)

    def extra(I, r):
        return {'watch': pylib.fn('watch', lambda I, a, k: N.watch(I, r, I.resolve(a[0])))}
    ok, gs = attempt(R, 'equal', label, lambda: W.script(MODEL + code, extra, typ=typ), W)
    if not ok:
        return
    W.covers()
    for v in 'bcde':
        if v in gs[0]:
            equal_envs(R, 'equal', f'{label}: {v}', W.envs([g[v] for g in gs]))
    if 'r' in gs[0]:
        rs = []
        for k, g in zip(W.S.ranks, gs):
            with W.S.as_rank(k):
                rs.append({x: k.I.resolve(v).v for x, v in g['r'].d.values()})
        for r, x in enumerate(rs[1:], 1):
            R.ob('measured', f'{label}: rank {r}', set(x) == set(rs[0]) and all(tnet.equal_all(x[y], rs[0][y])[0] for y in x), 'measured values differ from those of rank 0')


def simple(I, real):
    """the simple update of a bond as an unknown function of the tensors it is given"""
    from .c17 import updaters
    for f, c in updaters(I).items():
        if c.module is not None and 'simple' not in getattr(c, 'name', '').lower():
            continue

        def handler(I, f, a, kw, proceed):
            me = I.resolve(a[0])
            b = [I.resolve(x) for x in I.iterate(I.resolve(a[1] if len(a) > 1 else kw['bond']))]
            ip = I.getattr(me, 'ipeps')
            ts = [I.resolve(I.getitem(I.getitem(ip, s), 'A')) for s in b[:2]]
            vs = [t.v for t in ts]
            for i, s in enumerate(b[:2]):
                I.setitem(I.getitem(ip, s), 'A', tobj(I, tnet.opaque(('simple', i, b[2]), vs, tuple(ts[i].shape)), real))
            return (0, 0)
        I.hooks[f] = handler


def run(R):
    tasks = []
    sizes = [(2, (1, 1)), (2, (2, 2)), (3, (2, 1)), (4, (2, 2)), (5, (1, 2)), (6, (3, 1))]
    if R.tier == 'thorough':
        sizes += [(3, (3, 3)), (8, (2, 2)), (4, (3, 3)), (7, (2, 3)), (12, (1, 3))]
    for n, L in sizes:
        for what, code in PROGRAMS:
            for typ in ('full', 'simple'):
                if typ == 'simple' and 'evol' not in what:
                    continue
                tasks.append(lambda a=(n, L, n != 4, typ, what, code): scenario(R, *a))
    R.parallel(tasks)
    R.expect('equal', 50)
