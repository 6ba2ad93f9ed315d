"""Lock-step analysis of a multi-process run: one abstract interpreter per rank, stopped at every collective operation.

Ranks run one after the other up to their next collective; when every rank has arrived (or ended) the operations are
matched, the values exchanged, and all ranks go on.  Each rank has its own heap, path assumptions and random numbers."""
import threading
import weakref
from . import poly, tnet, torchlib
from .tnet import Incomplete, DimError
from .interp import PyRaise
from .objects import *
from .world import fresh


class Abort(BaseException):
    pass


class Mismatch(Exception):
    """the ranks do not take part in the same collectives"""


class Rank:
    def __init__(self, r):
        self.r = r
        self.reg = weakref.WeakValueDictionary()
        self.assume = {}
        self.go = threading.Event()
        self.op = None
        self.status = 'ready'
        self.result = None
        self.exc = None
        self.I = None
        self.log = []           # collectives taken part in


class Spmd:
    def __init__(self, n, real=True, prepare=None, env=None, cuda=0):
        self.n, self.real = n, real
        self.ranks = [Rank(r) for r in range(n)]
        self.back = threading.Event()
        self.abort = False
        self.collectives = 0
        self.on_exchange = None
        for k in self.ranks:
            with self.as_rank(k):
                e = {'RANK': str(k.r), 'WORLD_SIZE': str(n), 'LOCAL_RANK': str(k.r), 'LOCAL_WORLD_SIZE': str(n), 'MASTER_ADDR': 'localhost', 'MASTER_PORT': '29500'}
                e.update(env or {})
                k.I = I = fresh(real, e)
                I.cpu_count = max(64, n)
                if cuda:
                    I.cuda_available, I.cuda_count = True, cuda
                I.load('torch')
                I.nrand = 10 ** 6 * (k.r + 1)
                I.dist_driver = lambda name, a, kw, k=k: self.collective(k, name, a, kw)
                if prepare:
                    prepare(I, k.r)

    # ------------------------------------------------------------------ whose heap is live
    def as_rank(self, k):
        outer = self

        class Ctx:
            def __enter__(s):
                s.old = REG.cur, tnet.ASSUME[0]
                REG.cur, tnet.ASSUME[0] = k.reg, k.assume
                return k.I

            def __exit__(s, *e):
                k.assume = tnet.ASSUME[0]
                REG.cur, tnet.ASSUME[0] = s.old
        return Ctx()

    # ------------------------------------------------------------------ running
    def run(self, fn):
        """fn(I, rank) on every rank; returns the list of results"""
        for k in self.ranks:
            k.status, k.op, k.result, k.exc = 'ready', None, None, None
            k.go.clear()
        self.abort = False
        threads = []
        for k in self.ranks:
            t = threading.Thread(target=self.body, args=(k, fn), daemon=True)
            t.start()
            threads.append(t)
        try:
            while True:
                for k in self.ranks:
                    if k.status == 'ready':
                        self.step(k)
                if all(k.status == 'done' for k in self.ranks):
                    return [k.result for k in self.ranks]
                for k in self.ranks:
                    if k.status == 'raised':
                        raise k.exc
                waiting = [k for k in self.ranks if k.status == 'waiting']
                if len(waiting) < self.n:
                    d = [k for k in self.ranks if k.status == 'done']
                    raise Mismatch(f'rank {d[0].r} ends while rank {waiting[0].r} waits in {waiting[0].op[0]} at {self.where(waiting[0])}')
                if self.on_exchange:
                    self.on_exchange()
                self.exchange()
                for k in self.ranks:
                    k.status = 'ready'
        finally:
            self.abort = True
            for k in self.ranks:
                if k.status != 'done' and k.status != 'raised':
                    self.step(k)
            for t in threads:
                t.join()

    def step(self, k):
        self.back.clear()
        k.go.set()
        self.back.wait()

    def body(self, k, fn):
        k.go.wait()
        k.go.clear()
        try:
            if not self.abort:
                with self.as_rank(k):
                    k.result = fn(k.I, k.r)
                k.status = 'done'
        except Abort:
            k.status = 'done'
        except BaseException as e:
            k.exc = e
            if getattr(e, 'where', None) is None:
                try:
                    e.where = list(k.I.where)
                except Exception:
                    pass
            k.status = 'raised'
        self.back.set()

    def where(self, k):
        w = [(m, l) for m, l in k.op[3] if m.startswith('acetn')]
        return ' > '.join(f'{m.replace(".", "/")}.py:{l}' for m, l in w[-4:]) or 'client'

    # ------------------------------------------------------------------ collectives
    def collective(self, k, name, a, kw):
        I = k.I
        if self.abort:
            raise Abort()
        if I.forking:
            raise Incomplete(f'{name} depends on a condition the analysis cannot decide')
        a = [I.resolve(x) for x in a]
        kw = {n: I.resolve(x) for n, x in kw.items()}
        k.op = (name, a, kw, list(I.where), {g.key: v for g, v in I.assume.items() if g.key[0] != 'raises'})
        k.status = 'waiting'
        k.assume = tnet.ASSUME[0]
        self.back.set()
        k.go.wait()
        k.go.clear()
        if self.abort:
            raise Abort()
        REG.cur, tnet.ASSUME[0] = k.reg, k.assume
        if kw.get('async_op') is True:
            return PModule('Work', {'wait': Builtin('wait', lambda I, a, kw: True), 'is_completed': Builtin('is_completed', lambda I, a, kw: True)})
        return None

    def arg(self, k, i, name, default=None):
        _, a, kw, _, _ = k.op
        return a[i] if len(a) > i else kw.get(name, default)

    def same(self, what, vals, eq=lambda x, y: x == y):
        for k, v in zip(self.ranks[1:], vals[1:]):
            if not eq(v, vals[0]):
                raise Mismatch(f'{what} differs: {vals[0]} on rank 0 at {self.where(self.ranks[0])}, {v} on rank {k.r} at {self.where(k)}')

    def exchange(self):
        self.collectives += 1
        ks = self.ranks
        names = [k.op[0] for k in ks]
        for k in ks:
            k.log.append(k.op[0])
        self.same('collective operation', names)
        if any(k.op[4] != ks[0].op[4] for k in ks):
            raise Incomplete('the ranks reach a collective under different undecided conditions')
        f = getattr(self, 'do_' + names[0], None)
        if f is None:
            raise Incomplete(f'collective {names[0]}')
        f(ks)

    def tensors(self, ks, pos=0, name='tensor'):
        ts = [self.arg(k, pos, name) for k in ks]
        for k, t in zip(ks, ts):
            if not isinstance(t, TObj):
                raise Mismatch(f'{k.op[0]} of {t!r} on rank {k.r} at {self.where(k)}')
            if t.lay == 'n':
                raise Mismatch(f'{k.op[0]} of a tensor that is laid out in memory as a permutation of its indices on rank {k.r} at {self.where(k)}')
        return ts

    def value(self, k, t):
        with self.as_rank(k):
            return t.v

    def shapes(self, ks, ts):
        sh = [tuple(self.value(k, t).shape) for k, t in zip(ks, ts)]
        self.same('shape', sh, same_shape)
        self.same('dtype', [str(t.dtype) for t in ts])
        return sh

    def write(self, k, t, v):
        with self.as_rank(k):
            if not same_shape(tuple(t.shape), tuple(v.shape)):
                raise Mismatch(f'{k.op[0]} writes a tensor of shape {tuple(v.shape)} into one of shape {tuple(t.shape)} on rank {k.r} at {self.where(k)}')
            k.I.inplace_log.append((t, 'setitem', tuple(k.I.where[-1:])))
            t.write(v)

    def do_barrier(self, ks):
        pass

    def root(self, ks, pos, name, default=None):
        src = [self.arg(k, pos, name, default) for k in ks]
        for k, s in zip(ks, src):
            if not isinstance(s, int) or not 0 <= s < self.n:
                raise Mismatch(f'{name}={s!r} in {k.op[0]} on rank {k.r} of {self.n} at {self.where(k)}')
        self.same(name, src)
        return src[0]

    def do_broadcast(self, ks):
        ts = self.tensors(ks)
        src = self.root(ks, 1, 'src')
        self.shapes(ks, ts)
        v = self.value(ks[src], ts[src])
        for k, t in zip(ks, ts):
            if k.r != src:
                self.write(k, t, v)

    def do_all_gather(self, ks):
        ls = [self.arg(k, 0, 'tensor_list') for k in ks]
        ts = self.tensors(ks, 1)
        self.shapes(ks, ts)
        vs = [self.value(k, t) for k, t in zip(ks, ts)]
        for k, l in zip(ks, ls):
            with self.as_rank(k):
                its = [k.I.resolve(x) for x in k.I.iterate(l)]
            if len(its) != self.n:
                raise Mismatch(f'{len(its)} tensors to gather {self.n} into on rank {k.r} at {self.where(k)}')
            for t, v in zip(its, vs):
                if not isinstance(t, TObj):
                    raise Mismatch(f'all_gather into {t!r} on rank {k.r} at {self.where(k)}')
                if str(t.dtype) != str(ts[k.r].dtype) or t.lay == 'n':
                    raise Mismatch(f'all_gather of {ts[k.r].dtype} into a tensor of {t.dtype}{", laid out as a permutation of its indices" if t.lay == "n" else ""} on rank {k.r} at {self.where(k)}')
                self.write(k, t, v)

    def do_all_reduce(self, ks):
        ts = self.tensors(ks)
        self.shapes(ks, ts)
        ops = [self.arg(k, 1, 'op') for k in ks]
        self.same('reduction', [repr(o) for o in ops])
        if ops[0] is not None and 'SUM' not in repr(ops[0]):
            raise Incomplete(f'all_reduce with {ops[0]!r}')
        vs = [self.value(k, t) for k, t in zip(ks, ts)]
        total = vs[0]
        for v in vs[1:]:
            total = tnet.add(total, v)
        for k, t in zip(ks, ts):
            self.write(k, t, total)

    def do_all_gather_into_tensor(self, ks):
        raise Incomplete('all_gather_into_tensor')

    def do_broadcast_object_list(self, ks):
        raise Incomplete('broadcast_object_list')


def same_shape(a, b):
    if len(a) != len(b):
        return False
    for x, y in zip(a, b):
        if poly.simp(poly.sub(x, y)) != 0:
            return False
    return True
