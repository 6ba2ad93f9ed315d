"""A distributed run makes the moves, updates and measurements of a serial run, each once, and leaves every process with the same tensors."""
from .spmdlib import *
from .c08 import check_sweeps
from .c12 import hook_rdm
from .c17 import cell_bonds, canonical

# programs without boundary moves: equal to the same program in one process
PLAIN = [
    ('initialisation', 'c = Ipeps(cfg)\nc.initialize_site_tensors(f)'),
    ('copy of a supplied network', 'b = Ipeps(cfg)\nb.initialize_site_tensors(f)\nc = Ipeps(cfg, b)\nd = c.copy()\ne = c.to(dtype=c.dtype)'),
    ('save and load', 'b = Ipeps(cfg)\nb.initialize_site_tensors(f)\nb.save("f.pt")\nc = Ipeps(cfg)\nc.load("f.pt")'),
    ('measurement', 'c = Ipeps(cfg)\nc.set_model(M, {})\nr = c.measure()\nr2 = c.measure(M(c.config.model))'),
    ('simple update', 'c = Ipeps(cfg)\nc.set_model(M, {})\nc.evolve(t, 1)\nr = c.measure()'),
]


def plain(R, n, L, real, what, code):
    label = f'{what}, {n} processes, {L[0]}x{L[1]}'
    hooks = []

    def renew(I):
        f = sym(I, 'acetn.ipeps', 'Ipeps').lookup('renormalize')
        if not isinstance(f, PFunc):
            raise Incomplete('Ipeps.renormalize not found')
        hooks.append([])
        I.hooks[f] = lambda I, f, a, kw, proceed, log=hooks[-1]: log.append(1)
    I = fresh(real)
    I.load('acetn.ipeps')
    renew(I)
    hook_rdm(I, real, 2, [])
    I.nrand = 10 ** 6
    ok, want = R.attempt('serial', label, lambda: script(I, MODEL + code, **given(I, real, L, 'simple')), I)
    if not ok:
        return
    W = World(R, n, L, real, boundary=False)
    for k in W.S.ranks:
        with W.S.as_rank(k):
            renew(k.I)
    ok, gs = attempt(R, 'serial', label, lambda: W.script(MODEL + code, typ='simple'), W)
    if not ok:
        return
    W.covers()
    R.ob('renewals', label, all(h == hooks[0] for h in hooks), f'the boundary is renewed {[len(h) for h in hooks]} times (serial first)')
    for k, g in zip(W.S.ranks, gs):
        for v in 'cde':
            if v not in want:
                continue
            a = {x: t.v for x, t in get_env(I, want[v], L).items()}
            with W.S.as_rank(k):
                b = {x: t.v for x, t in get_env(k.I, g[v], L).items()}
            for x in a:
                R.ob('serial', f'{label}: {key_name(x)} of {v}, rank {k.r}', *tnet.equal_all(b[x], a[x]))
        for v in ('r', 'r2'):
            if v not in want:
                continue
            a = {n_: I.resolve(x) for n_, x in want[v].d.values()}
            with W.S.as_rank(k):
                b = {n_: k.I.resolve(x) for n_, x in g[v].d.values()}
            R.ob('measured', f'{label}: {v}, rank {k.r}', set(a) == set(b), f'{sorted(b)} measured, {sorted(a)} in one process')
            for x in a:
                if x in b:
                    R.ob('measured', f'{label}: {x} of {v}, rank {k.r}', *tnet.equal_all(b[x].v, a[x].v))


class Moves:
    """the pairs of opposite moves of a distributed run: environment renamed before each, compared with the oracle after it"""
    def __init__(self, R, W, label, serial=None):
        self.R, self.W, self.label = R, W, label
        self.serial = serial or {}          # update number -> site tensors it changed, in a run in one process
        self.st = [dict(ip=None, pairs=[], env=None, nup=0) for _ in range(W.n)]
        W.on_projector = self.projector
        W.S.on_exchange = self.catch_up
        W.P = lambda n, k, s, r: P_atom(n, k, s, W.L)
        self.seen = set()

    def line(self, k, s):
        return s[0] if k in (0, 2) else s[1]

    def watch(self, I, r, ip):
        self.st[r]['ip'] = ip

    def projector(self, I, r, ip, k, sites):
        st = self.st[r]
        st['ip'] = ip
        s, L = sites[0], self.W.L
        l = self.line(k, s)
        p = st['pairs'][-1] if st['pairs'] else None
        if p is None or p['axis'] != k % 2 or p['lines'].get(k, l) != l or p['before'] != len(self.W.updates[0]):
            self.open(I, r, k % 2)
            p = st['pairs'][-1]
        p['lines'][k] = l
        p['cuts'].append((k, s))
        want = expected_sites(k, s, L)
        if list(sites) != want:
            self.R.fail('projector-sites', f'{self.label}: direction {k} at {s}', f'projectors computed from sites {sites}, the four sites around the cut are {want}')
        # the environment this projector is taken from: as before the pair, or with the whole opposite move done
        e = get_env(I, ip, L)
        key = (r, k, s)
        if key not in self.seen:
            self.seen.add(key)
            o = (k + 2) % 4
            ok = None
            for cand in ('before', 'after'):
                w = dict(st['env'])
                if cand == 'after':
                    if o not in p['lines']:
                        continue
                    w.update(oracle_move(o, line_sites(o, p['lines'][o], L), L, st['env']))
                ok = all(tnet.equal_all(e[x].v, w[x], True)[0] for x in w)
                if ok:
                    break
            self.R.ob('projector-environment', f'{self.label}: direction {k} at {s}, rank {r}', ok,
                      'the projectors of a line are taken from an environment in which that pair of moves is half done')

    def open(self, I, r, axis):
        st = self.st[r]
        self.close(I, r)
        put_env(I, st['ip'], self.W.L, 2, self.W.real)
        st['env'] = named_env(self.W.L)
        st['nup'] = len(self.W.updates[0])
        st['pairs'].append({'axis': axis, 'lines': {}, 'cuts': [], 'before': len(self.W.updates[0])})

    def close(self, I, r):
        """compare what the last pair left on this rank with the oracle"""
        st, W, L = self.st[r], self.W, self.W.L
        if st['env'] is None:
            return
        n = len(st['pairs']) - 1
        lines = {}
        for o in self.st:                       # what any rank computed for this pair
            if len(o['pairs']) > n:
                lines.update(o['pairs'][n]['lines'])
        want = dict(st['env'])
        for k, l in lines.items():
            want.update(oracle_move(k, line_sites(k, l, L), L, st['env']))
        ups = W.updates[0][st['nup']:]
        for u in range(st['nup'] + 1, st['nup'] + len(ups) + 1):
            if u not in self.serial:
                raise Incomplete(f'no environment move follows update {u} of a run in one process')
            want.update(self.serial[u])
        got = get_env(I, st['ip'], L)
        for x, t in got.items():
            self.R.ob('moved', f'{self.label}: pair {n} {sorted(lines.items())}: {key_name(x)}, rank {r}', *tnet.equal_all(t.v, want[x], x[0] != 'A'))

    def catch_up(self):
        """a rank without a projector of its own in this pair begins it with the others"""
        n = max(len(st['pairs']) for st in self.st)
        for k, st in zip(self.W.S.ranks, self.st):
            if len(st['pairs']) < n and st['ip'] is not None:
                axis = next(o['pairs'][-1]['axis'] for o in self.st if len(o['pairs']) == n)
                with self.W.S.as_rank(k):
                    self.open(k.I, k.r, axis)

    def finish(self):
        for k in self.W.S.ranks:
            with self.W.S.as_rank(k):
                self.close(k.I, k.r)

    def merged(self):
        """[(bond updates before, {k: line}, {k: sites})] over all ranks"""
        R, out = self.R, []
        ns = [len(st['pairs']) for st in self.st]
        R.ob('same-moves', self.label, len(set(ns)) == 1, f'numbers of pairs of moves on the ranks: {ns}')
        for i in range(min(ns)):
            lines, cuts = {}, {}
            ok = True
            for st in self.st:
                p = st['pairs'][i]
                for k, l in p['lines'].items():
                    ok = ok and lines.setdefault(k, l) == l
                for k, s in p['cuts']:
                    cuts.setdefault(k, set()).add(s)
            R.ob('same-moves', f'{self.label}: pair {i}', ok, f'the ranks move different lines: {[st["pairs"][i]["lines"] for st in self.st]}')
            for k, l in lines.items():
                R.ob('covered', f'{self.label}: pair {i}, direction {k}', cuts[k] == set(line_sites(k, l, self.W.L)),
                     f'projectors computed for {sorted(cuts[k])}, the line has {line_sites(k, l, self.W.L)}')
            out.append((self.st[0]['pairs'][i]['before'], lines))
        return out


def serial_updates(R, L, real, code, typ, steps):
    W = World(R, 1, L, real)
    W.P = lambda n, k, s, r: P_atom(n, k, s, L)
    out, at = {}, [None]
    base = named_env(L)

    def projector(I, r, ip, k, sites):
        s = sites[0]
        u = len(W.updates[0])
        now = (u, k, s[0] if k in (0, 2) else s[1])
        if now != at[0]:
            if u and u not in out:
                out[u] = {('A', x): I.getitem(I.getitem(ip, x), 'A').v for x in sites_of(L)}
                out[u] = {x: v for x, v in out[u].items() if not tnet.equal_all(v, base[x])[0]}
            put_env(I, ip, L, 2, real)
            at[0] = now
    W.on_projector = projector
    W.script(MODEL + code, lambda I, r: {'watch': pylib.fn('watch', lambda I, a, k: None)}, typ=typ, steps=steps)
    return out


def moves(R, n, L, real, what, code, steps, typ, evolved):
    label = f'{what}, {n} processes, {L[0]}x{L[1]}, {steps} sweeps'
    W = World(R, n, L, real, boundary=True)
    ok, serial = attempt(R, 'one-process', label, lambda: serial_updates(R, L, real, code, typ, steps) if evolved else {}, W)
    if not ok:
        return
    T = Moves(R, W, label, serial)

    def extra(I, r):
        def watch(I, a, k):
            T.watch(I, r, I.resolve(a[0]))
        return {'watch': pylib.fn('watch', watch)}
    ok, gs = attempt(R, 'moved', label, lambda: W.script(MODEL + code, extra, typ=typ, steps=steps), W)
    if not ok:
        return
    T.finish()
    W.covers()
    pairs = T.merged()
    nup = len(W.updates[0])
    R.ob('updated-once', label, all(len(u) in (0, nup) for u in W.updates), 'ranks update different numbers of bonds')
    # pairs that follow a bond update, and those that belong to sweeps
    first = {}
    sweeps, absorbs = [], {}
    for i, (u, lines) in enumerate(pairs):
        if u and u not in first:
            first[u] = i
            absorbs[u] = lines
        else:
            sweeps.append(lines)
    log = [(k, [s], None) for lines in sweeps for k in sorted(lines) for s in line_sites(k, lines[k], L)]
    check_sweeps(R, 'sweep', label, log, L, steps * (2 if evolved else 1))
    if not evolved:
        return
    bonds = []
    for u, (b, _) in enumerate(W.updates[0], 1):
        s1, s2, k = b
        want = {(k + 2) % 4: T.line(k, s1), k: T.line(k, s2)}
        R.ob('absorbed', f'{label}: update {u} of bond {b}', absorbs.get(u) == want,
             f'after the update the lines {absorbs.get(u)} are absorbed, {want} hold the updated tensors')
        bonds.append(canonical(b))
    R.ob('every-bond', label, sorted(bonds) == sorted(cell_bonds(L)), f'bonds updated in a step: {sorted(bonds)}')


def run(R):
    tasks = []
    real = True
    for n, L in [(2, (1, 1)), (2, (2, 1)), (3, (1, 2))] + ([(4, (2, 2)), (5, (3, 1))] if R.tier == 'thorough' else []):
        for what, code in PLAIN:
            tasks.append(lambda a=(n, L, n != 3, what, code): plain(R, *a))
    R.parallel(tasks)
    tasks = []
    sizes = [(2, (1, 1)), (2, (2, 2)), (3, (2, 2)), (4, (2, 2)), (4, (3, 3)), (5, (1, 3)), (6, (2, 3)), (8, (3, 2)), (9, (2, 1)), (7, (3, 3))]
    if R.tier == 'thorough':
        sizes += [(2, (4, 3)), (6, (4, 4)), (16, (3, 3)), (11, (3, 4)), (10, (5, 2)), (12, (1, 1))]
    for n, L in sizes:
        tasks.append(lambda a=(n, L, True, 'renormalisation', 'c = Ipeps(cfg)\nwatch(c)\nc.renormalize()', 1 if L[0]*L[1] > 4 else 2, 'full', False): moves(R, *a))
    for n, L in [(2, (1, 1)), (2, (2, 2)), (3, (1, 2)), (4, (2, 2)), (6, (3, 2)), (4, (1, 3))] + ([(5, (3, 3)), (8, (2, 3)), (8, (2, 2))] if R.tier == 'thorough' else []):
        tasks.append(lambda a=(n, L, L != (2, 2), 'full update', 'c = Ipeps(cfg)\nc.set_model(M, {})\nwatch(c)\nc.evolve(t, 1)', 1, 'full', True): moves(R, *a))
    R.parallel(tasks)
    R.expect('serial', 100)
    R.expect('moved', 500)
    R.expect('covered', 60)
    R.expect('sweep', 40)
    R.expect('absorbed', 20)
