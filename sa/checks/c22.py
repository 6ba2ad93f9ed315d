"""Process group: created once by the launcher's rank and size, usable while a network lives, gone with the last one, never in a single process."""
from .spmdlib import *

CLIENT = '''
from acetn.ipeps import Ipeps
import torch.distributed as dist
def f(site):
    return [w]
def drop(x):
    d = getattr(x, "__del__", None)
    if d is not None:
        d()
def broken(*args):
    x = Ipeps.__new__(Ipeps)
    try:
        x.__init__(*args)
    except Exception:
        drop(x)
        return True
    return False
'''


def orders(n):
    """all orders of creating and dropping n networks (creation in the order 0, 1, ..)"""
    def go(made, live, seq):
        if made == n and not live:
            yield seq
            return
        if made < n:
            yield from go(made + 1, live | {made}, seq + [('make', made)])
        for x in sorted(live):
            yield from go(made, live - {x}, seq + [('drop', x)])
    yield from go(0, frozenset(), [])


def group(k):
    st = k.I.dist_state.d
    e = st.get('init')
    return k.I.resolve(e[1]) is True if e else False


def history(R, n, label, steps):
    """steps: [(program text, number of networks alive after it)]"""
    W = World(R, n, (1, 1), True, named=False, forget=True)
    for k in W.S.ranks:
        with W.S.as_rank(k):
            del k.I.events[:]
    src, checks = CLIENT, []

    def extra(I, r):
        def look(I, a, kw):
            k = W.S.ranks[r]
            checks.append((r, I.resolve(a[0]), I.resolve(a[1]), group(k), sum(e[0] == 'init_process_group' for e in I.events), sum(e[0] == 'destroy_process_group' for e in I.events)))
        return {'look': pylib.fn('look', look), 'w': dim('w'), 'bad': config(1, 1, {'phys': 2, 'bond': 2, 'chi': 4}, True, {'svd_type': 'no such type'})}
    for i, (text, alive) in enumerate(steps):
        src += f'{text}\nlook({i}, {alive})\n'
    ok, gs = attempt(R, 'history', label, lambda: W.script(src, extra), W)
    if not ok:
        return
    W.covers()
    starts, was, extra_ = {}, {}, {}
    for r, i, alive, init, made, gone in checks:
        what = f'{label}, after "{steps[i][0]}", rank {r}'
        if alive and not was.get(r):
            starts[r] = starts.get(r, 0) + 1
        was[r] = alive
        R.ob('alive', what, init == (alive > 0), f'{alive} networks live and the process group {"exists" if init else "does not exist"}')
        if not alive and 'broken' in steps[i][0]:       # may have set up and released one of its own
            extra_[r] = extra_.get(r, 0) + 1
        R.ob('once', what, starts.get(r, 0) <= made <= starts.get(r, 0) + extra_.get(r, 0) and made - gone == (alive > 0),
             f'process group created {made} times and destroyed {gone} times')
    for k in W.S.ranks:
        for e in k.I.events:
            if e[0] == 'init_process_group':
                R.ob('identity', f'{label}, rank {k.r}', e[1:3] == (k.r, n), f'process {k.r} of {n} joins as {e[1:3]}')
    for k, g in zip(W.S.ranks, gs):
        for v, x in g.items():
            if v in 'abc' and isinstance(x, Inst):
                got = tuple(k.I.resolve(k.I.getattr(x, m)) for m in ('rank', 'world_size', 'is_distributed'))
                R.ob('identity', f'{label}: network {v} on rank {k.r}', got == (k.r, n, True), f'network has rank, size, distributed = {got}')


def single(R):
    for env in ({}, {'RANK': '0'}, {'WORLD_SIZE': '4'}, {'RANK': '0', 'WORLD_SIZE': '1'}, {'LOCAL_RANK': '1', 'WORLD_SIZE': '2'},
                {'SLURM_PROCID': '1', 'SLURM_NTASKS': '4'}, {'RANK': '0', 'WORLD_SIZE': '1', 'MASTER_ADDR': 'localhost', 'MASTER_PORT': '1'}):
        label = f'environment {env}'
        I = fresh(True, env)
        plain_boundary(I)
        cfg = config(1, 2, {'phys': 2, 'bond': dim('D'), 'chi': dim('chi')}, True)
        ok, g = R.attempt('single', label, lambda: script(I, CLIENT + 'a = Ipeps(cfg)\nb = Ipeps(cfg, a)\na.initialize_site_tensors(f)\nc = a.copy()\ndrop(a)\nb.initialize_site_tensors(f)\ndrop(b)', cfg=cfg, w=dim('w')), I)
        if not ok:
            continue
        ev = [e for e in I.events if 'process_group' in str(e[0])]
        R.ob('single', label, not ev, f'a run in one process uses a process group: {ev}')
        got = tuple(I.resolve(I.getattr(g['a'], m)) for m in ('rank', 'world_size', 'is_distributed'))
        R.ob('single', label + ': identity', got == (0, 1, False), f'rank, size, distributed = {got}')
        R.covers(I)


def short(R, n, cpus, cuda):
    """fewer devices than processes: an error on every rank and no group"""
    label = f'{n} processes, {cpus} CPUs, {cuda} CUDA devices'
    for r in range(n):
        I = fresh(True, {'RANK': str(r), 'WORLD_SIZE': str(n), 'LOCAL_RANK': str(r), 'MASTER_ADDR': 'localhost', 'MASTER_PORT': '29500'})
        I.cpu_count = cpus
        if cuda is not None:
            I.load('torch')
            I.cuda_available, I.cuda_count = True, cuda
        plain_boundary(I)
        cfg = config(1, 1, {'phys': 2, 'bond': dim('D'), 'chi': dim('chi')}, True, device='cuda' if cuda is not None else 'cpu')
        try:
            e = raises(I, CLIENT + 'a = Ipeps(cfg)', cfg=cfg, w=dim('w'))
        except Incomplete as x:
            R.ob('devices', f'{label}, rank {r}', False, f'no error: {x}') if 'driver' in str(x) else R.lost(f'{label}: {x}')
            continue
        name = str(getattr(e.cls, 'name', e.cls)) if e is not None and hasattr(e, 'cls') else repr(e)
        R.ob('devices', f'{label}, rank {r}', e is not None and 'RuntimeError' in name, f'ends with {name}')
        R.ob('devices', f'{label}, rank {r}: group', not any(x[0] == 'init_process_group' for x in I.events), 'the process group is created although the devices do not suffice')
        R.covers(I)


def run(R):
    tasks = [lambda: single(R)]
    N = 'abcde'
    for m in (1, 2, 3) if R.tier == 'quick' else (1, 2, 3, 4):
        for seq in orders(m):
            steps, alive = [], 0
            for i, (op, x) in enumerate(seq):
                alive += 1 if op == 'make' else -1
                new = f'{N[x]} = Ipeps(cfg)' + (f'\n{N[x]}.initialize_site_tensors(f)' if alive > 1 and i % 2 else '')
                steps.append((new if op == 'make' else f'drop({N[x]})', alive))
            label = ', '.join(f'{op} {N[x]}' for op, x in seq)
            tasks.append(lambda a=(2 if len(seq) > 2 else 3, label, steps): history(R, *a))
    A, B = 'a = Ipeps(cfg)', 'b = Ipeps(cfg, a)'
    for label, steps in [
            ('network from another', [(A, 1), (B, 2), ('drop(a)', 1), ('b.initialize_site_tensors(f)', 1), ('c = Ipeps(cfg, b)', 2), ('drop(b)', 1), ('c.initialize_site_tensors(f)', 1), ('drop(c)', 0)]),
            ('copies do not own the group', [(A, 1), ('x = a.copy()', 1), ('y = a.to(dtype=a.dtype)', 1), ('drop(x)', 1), ('a.initialize_site_tensors(f)', 1), ('drop(y)', 1), (B, 2), ('drop(a)', 1), ('drop(b)', 0)]),
            ('saving and loading', [(A, 1), ('a.save("f")', 1), (B, 2), ('b.load("f")', 2), ('drop(a)', 1), ('b.load("f")', 1), ('b.save("g")', 1), ('drop(b)', 0)]),
            ('again after the last', [(A, 1), ('drop(a)', 0), (A, 1), (B, 2), ('drop(b)', 1), ('drop(a)', 0), (B.replace(', a', ''), 1), ('drop(b)', 0)]),
            ('rejected configuration', [(A, 1), ('q = broken(bad)', 1), ('a.initialize_site_tensors(f)', 1), ('q = broken(bad)', 1), ('q = broken({})', 1), (B, 2), ('drop(a)', 1), ('q = broken(bad)', 1), ('b.initialize_site_tensors(f)', 1), ('drop(b)', 0), ('q = broken(bad)', 0)]),
            ('unusable initial network', [(A, 1), ('q = broken(cfg, 5)', 1), ('a.initialize_site_tensors(f)', 1), ('drop(a)', 0), ('q = broken(cfg, 5)', 0), (A, 1), ('drop(a)', 0)]),
            ('renormalisation', [(A, 1), ('a.renormalize()', 1), ('drop(a)', 0)])]:
        tasks.append(lambda a=(2, label, steps): history(R, *a))
        tasks.append(lambda a=(4, label, steps): history(R, *a))
    for n, cpus, cuda in ((2, 1, None), (4, 3, None), (2, 64, 1), (3, 64, 2)):
        tasks.append(lambda a=(n, cpus, cuda): short(R, *a))
    R.parallel(tasks)
    R.expect('alive', 150)
    R.expect('single', 10)
    R.expect('devices', 8)
