"""One boundary sweep absorbs every row and every column once from each of the four sides, in propagation order."""
from .moves import *


def lines_of(log, L):
    """the projector log grouped into absorbed lines: [(k, line index, [sites])]"""
    out = []
    for k, sites, _ in log:
        s = sites[0]
        line = s[0] if k in (0, 2) else s[1]
        if out and out[-1][0] == k and out[-1][1] == line and s not in out[-1][2]:
            out[-1][2].append(s)
        else:
            out.append((k, line, [s]))
    return out


def fresh_env_hook(I, ip, L, p, real, log):
    """as hook_projectors, but re-name the environment at the start of every line so that values stay small"""
    fs = hook_projectors(I, L, real, log)
    h0 = I.hooks[fs[0]]

    def handler(I, f, args, kw, proceed):
        n = len(log)
        r = h0(I, f, args, kw, proceed)
        if len(log) > n:
            g = lines_of(log, L)
            if len(g[-1][2]) == 1:
                put_env(I, ip, L, p, real)
        return r
    for f in fs:
        I.hooks[f] = handler


def check_sweeps(R, rule, label, log, L, steps):
    g = lines_of(log, L)
    for k in range(4):
        n = L[0] if k in (0, 2) else L[1]
        seq = [l for kk, l, _ in g if kk == k]
        d = STEP[(k + 2) % 4][0 if k in (0, 2) else 1]
        R.ob(rule, f'{label}: side {k}', sorted(seq) == sorted(list(range(n)) * steps),
             f'lines absorbed {seq}, every one of {list(range(n))} is required once per sweep, {steps} sweeps')
        ok = all((a + d) % n == b for i, (a, b) in enumerate(zip(seq, seq[1:])))
        R.ob(rule + '-order', f'{label}: side {k}', ok or n == 1,
             f'lines absorbed in order {seq}: a line is absorbed before the one whose result it must use (step {d})')
        full = all(len(ss) == (L[1] if k in (0, 2) else L[0]) for kk, l, ss in g if kk == k)
        R.ob(rule + '-sites', f'{label}: side {k}', full, f'a line is absorbed only in part: {[x for x in g if x[0] == k]}')


def run(R):
    lats = [((1, 1), (0, 1, 2)), ((2, 1), (1,)), ((1, 2), (1,)), ((2, 2), (0, 1, 2, 3)), ((3, 2), (1,)), ((2, 3), (1, 2)), ((3, 3), (1,)), ((4, 3), (1,)), ((3, 4), (1,))]
    if R.tier == 'thorough':
        lats += [((4, 4), (1, 2)), ((5, 3), (1,)), ((3, 5), (2,)), ((5, 5), (1,)), ((1, 4), (2,)), ((6, 1), (1,))]
    real = True
    for L, stepss in lats:
        I, ip = lattice(L, real)
        log = []
        fresh_env_hook(I, ip, L, 2, real, log)
        conf = I.getattr(I.getattr(ip, 'config'), 'ctmrg')
        for st in stepss:
            I.setattr(conf, 'steps', st)
            put_env(I, ip, L, 2, real)
            del log[:]
            label = f'{L[0]}x{L[1]}, steps={st}'
            ok, _ = R.attempt('sweep', label, lambda: I.call_method(ip, 'renormalize', []), I)
            if ok:
                check_sweeps(R, 'sweep', label, log, L, st)
        R.covers(I)
    R.expect('sweep', 40)
