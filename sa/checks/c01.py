"""The lattice: every site once, every nearest-neighbour link of the torus once; networks made from it carry the same lists."""
from ..world import *


def bonds_of(I, tn):
    out = []
    for b in I.iterate(I.getattr(tn, 'bond_list')):
        b = I.resolve(b)
        s1, s2, k = (I.resolve(x) for x in I.iterate(b))
        a1, a2, ak = (I.resolve(I.getattr(b, n)) for n in ('s1', 's2', 'k'))
        out.append(((s1, s2, k), (a1, a2, ak)))
    return out


def check_lists(R, I, label, tn, L):
    sites = [I.resolve(s) for s in I.iterate(I.getattr(tn, 'site_list'))]
    R.ob('sites', label, sorted(sites) == sites_of(L), f'sites {sites}, the unit cell has {sites_of(L)}')
    bs = bonds_of(I, tn)
    links = {}
    for (s1, s2, k), attr in bs:
        name = f'{label}: bond {s1}-{s2} direction {k}'
        R.ob('bond-fields', name, (s1, s2, k) == attr, f'unpacks as {(s1, s2, k)} but has s1, s2, k = {attr}')
        ok = isinstance(k, int) and 0 <= k < 4 and s1 in sites_of(L) and shift(s1, k, L) == s2
        R.ob('bond-step', name, ok, f'the neighbour of {s1} in direction {k} is {shift(s1, k % 4, L) if isinstance(k, int) else "?"}, not {s2}')
        if ok:
            key = (s1, k) if k in (1, 2) else (s2, (k + 2) % 4)
            links.setdefault(key, []).append((s1, s2, k))
    for s in sites_of(L):
        for k in (1, 2):
            n = links.get((s, k), [])
            R.ob('links', f'{label}: link {s} direction {k}', len(n) == 1, f'is in the bond list {len(n)} times: {n}')


def run(R):
    rng = range(1, 5 if R.tier == 'quick' else 8)
    for L in [(x, y) for x in rng for y in rng]:
        I = fresh(True)
        label = f'{L[0]}x{L[1]}'
        ok, ip = R.attempt('construct', label, lambda: make_ipeps(I, config(L[0], L[1], {'phys': 2, 'bond': dim('D'), 'chi': dim('chi')})), I)
        if not ok:
            continue
        R.ob('construct', label, True)
        check_lists(R, I, label, ip, L)
        if L[0] * L[1] <= 4:
            ok, g = R.attempt('copies', label, lambda: script(I, '''
                from acetn.ipeps import Ipeps
                c = ip.copy()
                t = ip.to(dtype=torch.float32)
                n = Ipeps(cfg, ip)
                ''', ip=ip, torch=I.load('torch'), cfg=config(L[0], L[1], {'phys': 2, 'bond': dim('D'), 'chi': dim('chi')})), I)
            if ok:
                for n in 'ctn':
                    check_lists(R, I, f'{label}, {dict(c="copy()", t="to()", n="network made from it")[n]}', g[n], L)
        if L == (2, 3):
            # bonds are values: equal and usable as keys by what they connect
            ok, g = R.attempt('bond-values', label, lambda: script(I, '''
                from acetn.ipeps.bond import Bond
                r = []
                for b in ip.bond_list:
                    s1, s2, k = b
                    d = {b: 1}
                    r.append((b == Bond(s1, s2, k), Bond([s1[0], s1[1]], [s2[0], s2[1]], k) in d, b == Bond(s1, s2, (k + 1) % 4)))
                ''', ip=ip), I)
            if ok:
                for i, x in enumerate(I.iterate(g['r'])):
                    R.ob('bond-values', f'{label}: bond {i}', I.resolve(x) == (True, True, False),
                         f'(equal to itself, found as key, equal to another direction) = {x}')
        R.covers(I)
    R.expect('links', 150)
