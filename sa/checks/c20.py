"""Every rank takes part in the same collectives, for every number of processes and cell."""
from .spmdlib import *

# (what, program)
PROGRAMS = [
    ('construction', 'c = Ipeps(cfg)'),
    ('two networks', 'c = Ipeps(cfg)\nd = Ipeps(cfg)'),
    ('construction from another network', 'b = Ipeps(cfg)\nc = Ipeps(cfg, b)'),
    ('initialisation', 'c = Ipeps(cfg)\nc.initialize_site_tensors(f)'),
    ('copy, conversion', 'b = Ipeps(cfg)\nc = Ipeps(cfg, b.copy())\nd = b.to(dtype=b.dtype)'),
    ('save and load', 'b = Ipeps(cfg)\nb.save("f.pt")\nc = Ipeps(cfg)\nc.load("f.pt")'),
    ('renormalisation', 'c = Ipeps(cfg)\nc.renormalize()'),
    ('measurement', 'c = Ipeps(cfg)\nc.set_model(M, {})\nr = c.measure()'),
    ('evolution', 'c = Ipeps(cfg)\nc.set_model(M, {})\nc.evolve(t, 1)'),
    ('evolution without steps', 'c = Ipeps(cfg)\nc.set_model(M, {})\nc.evolve(t, 0)'),
    ('evolution and measurement', 'c = Ipeps(cfg, Ipeps(cfg))\nc.set_model(M, {})\nc.evolve(t, 1)\nr = c.measure()\nc.set_chi(7)\nc.renormalize()'),
]


def run(R):
    sizes = [(2, (1, 1)), (2, (2, 2)), (3, (2, 1)), (4, (2, 2)), (4, (3, 2)), (5, (1, 3)), (6, (2, 3)), (8, (1, 2))]
    if R.tier == 'thorough':
        sizes += [(2, (3, 3)), (3, (3, 3)), (7, (2, 3)), (8, (4, 3)), (9, (2, 2)), (12, (3, 1))]
    tasks = []
    for n, L in sizes:
        for real, typ in ((True, 'full'), (False, 'simple')):
            for what, code in PROGRAMS:
                if typ == 'simple' and 'evol' not in what:
                    continue
                if L[0]*L[1] > 4 or n > 6:
                    if what in ('two networks', 'copy, conversion', 'construction from another network', 'evolution and measurement'):
                        continue
                tasks.append(lambda a=(n, L, real, typ, what, code): scenario(R, *a))
    R.parallel(tasks)
    R.expect('matched', 60)


def scenario(R, n, L, real, typ, what, code):
    label = f'{what}, {n} processes, {L[0]}x{L[1]}, {typ} update'
    W = World(R, n, L, real, named=False, forget=True, boundary=n > 2)
    ok, g = attempt(R, 'matched', label, lambda: W.script(MODEL + code, typ=typ), W)
    if ok:
        R.ob('matched', label, True, f'{W.S.collectives} collectives')
        for i in range(W.S.collectives):
            ops = {k.log[i] for k in W.S.ranks}
            R.ob('collective', f'{label}: {i}', len(ops) == 1, f'{ops}')
        if 'renorm' in what or (typ == 'full' and 'evol' in what and 'without' not in what):
            R.ob('work-shared', label, W.S.collectives > 0, 'no collective operation')
    W.covers()
