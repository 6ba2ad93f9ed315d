"""save() then load(): every tensor comes back at its site; nothing else changes."""
from .c03 import net, values, unchanged, disjoint, scalars, list_repr
from ..world import *


def settings(I, a):
    s = scalars(I, a)
    return (s[:3] + s[5:], list_repr(I, a, 'bond_list'), list_repr(I, a, 'site_list'), repr(I.resolve(I.getattr(a, 'dtype'))),
            repr(I.resolve(I.getattr(a, 'device'))), repr(I.resolve(I.getattr(a, 'nx'))), repr(I.resolve(I.getattr(a, 'ny'))))


def equal(R, rule, label, want, got):
    for k, v in want.items():
        ok, msg = tnet.equal_all(got[k].v, v)
        R.ob(rule, f'{label}: {k[0]}{list(k[1:])}', ok, msg)


CASES = [
    ('a file', (2, 2), 'a.save("f.pt")\nb.load("f.pt")'),
    ('the default file name', (1, 2), 'a.save()\nb.load("ipeps.pt")'),
    ('a file name given by keyword', (1, 2), 'a.save(filename="g.pt")\nb.load(filename="g.pt")'),
    ('a rectangular cell', (2, 3), 'a.save("f.pt")\nb.load("f.pt")'),
    ('one of two files', (1, 2), 'b.save("g.pt")\na.save("f.pt")\nb.save("h.pt")\nb.load("f.pt")'),
    ('a file saved over another', (1, 2), 'b.save("f.pt")\na.save("f.pt")\nb.load("f.pt")'),
    ('a file of a copy', (1, 2), 'a.copy().save("f.pt")\nb.load("f.pt")'),
    ('a file of a loaded network', (2, 1), 'a.save("f.pt")\nb.load("f.pt")\nb.save("g.pt")\nc = a.copy()\nb[(0, 0)]["A"].mul_(2)\nb.load("g.pt")'),
    ('the state at the time of saving', (1, 2), 'c = Ipeps(cfg, a)\nc.save("f.pt")\nc[(0, 0)]["A"].mul_(2)\nc[(0, 1)]["C"][2].mul_(2)\nb.load("f.pt")'),
]


def run(R):
    for real in (True, False):
        for what, L, code in CASES:
            if not real and what not in ('the default file name', 'a file of a copy'):
                continue
            I = fresh(real)
            a, b = net(I, L, real, 'a'), net(I, L, real, 'b')
            cfg = config(L[0], L[1], {'phys': 2, 'bond': dim('D'), 'chi': dim('chi')}, real)
            want = values(get_env(I, a, L))
            pre = settings(I, a), settings(I, b)
            label = f'{what}, {"real" if real else "complex"} {L}'
            ok, g = R.attempt('round-trip', label, lambda: script(I, 'from acetn.ipeps import Ipeps\n' + code, a=a, b=b, cfg=cfg), I)
            if not ok:
                continue
            ea, eb = get_env(I, a, L), get_env(I, b, L)
            equal(R, 'round-trip', f'loading {label}', want, eb)
            equal(R, 'saved-unchanged', f'saving {label}', want, ea)
            R.ob('settings', f'saving {label} changes nothing', settings(I, a) == pre[0], f'{pre[0]} became {settings(I, a)}')
            now = settings(I, b)
            now = ((now[0][:-1] + pre[1][0][-1:]),) + now[1:]
            R.ob('settings', f'loading {label} keeps the settings of the network', now == pre[1], f'{pre[1]} became {now}')
            disjoint(R, 'disjoint', f'{label}: saved and loaded network', ea, eb)
            R.covers(I)
    fresh_state(R)
    conversions(R)
    refused(R)
    R.expect('round-trip', 200)
    R.expect('convert', 40)


def fresh_state(R):
    """saving a network does not declare its state supplied; loading does"""
    I = fresh(True)
    L = (1, 2)
    cfg = config(1, 2, {'phys': 2, 'bond': dim('D'), 'chi': dim('chi')}, True)
    b = net(I, L, True, 'b')
    ok, g = R.attempt('flag', 'saving a fresh network', lambda: script(I, '''
        from acetn.ipeps import Ipeps
        a = Ipeps(cfg)
        f0 = a.site_states_initialized
        a.save("f.pt")
        f1 = a.site_states_initialized
        b.load("f.pt")
        f2 = a.site_states_initialized
        ''', b=b, cfg=cfg), I)
    if ok:
        R.ob('flag', 'saving a fresh network', g['f0'] == g['f1'] == g['f2'], f'the flag for a supplied state went {g["f0"]}, {g["f1"]}, {g["f2"]}')
    # an operation in a process without a GPU can read the file
    R.covers(I)


def conversions(R):
    L = (1, 2)
    kinds = [('float64', 'cpu'), ('float32', 'cpu'), ('complex128', 'cpu'), ('float64', 'cuda')]
    for sd, sv in kinds:
        for ld, lv in kinds:
            if sd.startswith('complex') and not ld.startswith('complex'):
                continue
            tnet.ALL_REAL[0] = not sd.startswith('complex')
            I = fresh(not sd.startswith('complex'))
            I.cuda_available = True
            mk = lambda d, v: make_ipeps(I, config(1, 2, {'phys': 2, 'bond': dim('D'), 'chi': dim('chi')}, True, dtype=d, device=v))
            a, b = mk(sd, sv), mk(ld, lv)
            D, chi = dim('D'), dim('chi')
            T = lambda n, *sh: torchlib.mk(I, tnet.atom_tv(n, sh), torchlib.DTYPES[sd], torchlib.CPU)
            for s in sites_of(L):
                st = I.getitem(a, s)
                I.setitem(st, 'A', T(('a', s), D, D, D, D, 2))
                I.setitem(st, 'C', PList([T(('c', k, s), chi, chi) for k in range(4)]))
                I.setitem(st, 'E', PList([T(('e', k, s), chi, chi, D, D) for k in range(4)]))
            before = get_env(I, a, L)
            kind = {k: (str(t.dtype), str(t.device)) for k, t in before.items()}
            label = f'{sd}/{sv} saved, {ld}/{lv} loads'
            ok, g = R.attempt('convert', label, lambda: script(I, 'a.save("f.pt")\nb.load("f.pt")', a=a, b=b), I)
            if not ok:
                continue
            eb = get_env(I, b, L)
            for k, t in eb.items():
                okk = str(t.dtype).split('.')[-1].strip("'>") .endswith(ld) and lv in str(t.device)
                R.ob('convert', f'{label}: {k[0]}{list(k[1:])}', okk, f'holds {t.dtype} on {t.device}')
                R.ob('round-trip', f'{label}: {k[0]}{list(k[1:])}', *tnet.equal_all(t.v, before[k].v))
            after = {k: (str(t.dtype), str(t.device)) for k, t in get_env(I, a, L).items()}
            R.ob('convert-saved', label, after == kind, 'saving moved or converted the tensors of the saved network')
            on_gpu = [1 for o in reach(I.fs.get('f.pt')) if isinstance(o, TObj) and 'cuda' in str(o.device)]
            R.ob('portable', label, not on_gpu, 'tensors in the file are on the GPU, the file cannot be loaded without one')
            R.covers(I)


def refused(R):
    """a file that does not exist is an error, not an empty load"""
    I = fresh(True)
    b = net(I, (1, 1), True, 'b')
    before = values(get_env(I, b, (1, 1)))
    r = raises(I, 'b.load("missing.pt")', b=b)
    R.ob('missing', 'loading a file that does not exist', r is not None, 'does not raise')
    unchanged(R, 'missing', 'a failed load', before, get_env(I, b, (1, 1)))
