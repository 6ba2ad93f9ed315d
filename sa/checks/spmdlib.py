"""Scenarios of distributed runs: every rank analysed in lock step, projectors and bond updates as unknowns of the rank that computed them."""
from .moves import *
from .. import tnet
from ..spmd import Spmd, Mismatch, Abort
from .c12 import hook_rdm

MODEL = '''
from acetn.ipeps import Ipeps
from acetn.model import Model
class M(Model):
    def initial_site_state(self, site):
        return [u, v]
    def one_site_observables(self, site):
        return {"o": h1}
    def two_site_observables(self, bond):
        return {"oo": h2}
    def one_site_hamiltonian(self, site):
        return h1
    def two_site_hamiltonian(self, bond):
        return h2
def f(site):
    return [w, site[0] + 2*site[1]]
'''


def given(I, real, L, typ='full', steps=1, svd='full-rank', dims=None, **ev):
    T = lambda n, *d: tobj(I, tnet.atom_tv((n,), d), real)
    d = {'phys': 2, 'bond': dim('D'), 'chi': dim('chi')}
    d.update(dims or {})
    return dict(cfg=config(L[0], L[1], d, real, {'steps': steps, 'svd_type': svd}, {'update_type': typ, **ev}), h1=T('h1', 2, 2), h2=T('h2', 4, 4),
                u=dim('u'), v=dim('v'), w=dim('w'), t=dim('t'), t2=dim('t2'), torch=I.load('torch'))


class World:
    """n ranks (or one without a launcher when n is None) with hooks"""
    def __init__(self, R, n, L, real, projectors=True, update=True, boundary=True, rdm=True, named=True, forget=False):
        self.R, self.n, self.L, self.real = R, n, L, real
        self.cuts = [[] for _ in range(n)]         # per rank: [(pair, k, sites)]
        self.S = Spmd(n, real, self.prepare)
        self.opt = projectors, update, boundary, rdm
        self.updates = [[] for _ in range(n)]
        self.on_projector = None
        self.named, self.znames, self.forget = named, {}, forget
        for k in self.S.ranks:
            with self.S.as_rank(k):
                self.hooks(k.I, k.r)

    def prepare(self, I, r):
        I.load('acetn.ipeps')

    def hooks(self, I, r):
        projectors, update, boundary, rdm = self.opt
        if self.forget:
            forget_values(I)
        if boundary:
            plain_boundary(I)
        if rdm:
            hook_rdm(I, self.real, 2, [])
        if projectors:
            for f in projector_functions(I):
                I.hooks[f] = lambda I, f, a, kw, proceed: self.projector(I, r, a, kw)
        if update:
            fs = set()
            for n in ('acetn.evolution.full_update', 'acetn.evolution.fast_full_update'):
                for c in I.load(n).box.content.values():
                    f = c.lookup('tensor_update') if isinstance(c, PClass) else None
                    if isinstance(f, PFunc):
                        fs.add(f)
            if not fs:
                raise Incomplete('the full update of a bond was not found')
            for f in fs:
                I.hooks[f] = lambda I, f, a, kw, proceed: self.update(I, r, I.bind(f, a, kw))

    def projector(self, I, r, args, kw):
        sites = k = ip = None
        for v in list(args) + list(kw.values()):
            v = I.resolve(v)
            if isinstance(v, (PList, tuple)):
                its = [I.resolve(x) for x in (v.items if isinstance(v, PList) else v)]
                if len(its) == 4 and all(isinstance(x, tuple) and len(x) == 2 for x in its):
                    sites = its
            elif isinstance(v, int) and not isinstance(v, bool):
                k = v
            elif isinstance(v, Inst) and v.cls.lookup('site_list') is None and 'site_list' in v.box.content:
                ip = v
        if sites is None or k is None or ip is None:
            raise Incomplete('sites/direction of a projector calculation not recognised')
        k %= 4
        if self.on_projector:
            self.on_projector(I, r, ip, k, sites)
        s = sites[0]
        if self.named:
            return (tobj(I, self.P(1, k, s, r), self.real), tobj(I, self.P(2, k, s, r), self.real))
        # unknowns fitting the cut as it is; the kept dimension is a function of the cut
        e = I.getitem(I.getitem(I.getitem(ip, s), 'E'), (k + 3) % 4).shape
        cut = (e[0], e[2], e[3])
        key = (k, s, repr(cut))
        z = self.znames.setdefault(key, dim(f'Z{len(self.znames)}'))
        return tuple(tobj(I, tnet.atom_tv((f'P{i}', k, s, r, tnet.uid()), cut + (z,)), self.real) for i in (1, 2))

    def P(self, n, k, s, r):
        return tnet.atom_tv((f'P{n}', k, s, r), cut_dims(k, s, self.L) + (zdim(k, s),))

    def update(self, I, r, b):
        bond = tuple(I.resolve(x) for x in I.iterate(b['bond']))
        n = len(self.updates[r])
        D = dim('D')
        vs = [tnet.atom_tv(('updated', r, n, i), (D, D, D, D, 2)) for i in (0, 1)]
        self.updates[r].append((bond, vs))
        return tuple(tobj(I, v, self.real) for v in vs)

    # ------------------------------------------------------------------
    def script(self, src, extra=None, **kw):
        """the same client program on every rank -> list of its variables"""
        def f(I, r):
            g = given(I, self.real, self.L, **kw)
            g.update((extra or (lambda I, r: {}))(I, r))
            return script(I, src, **g)
        return self.S.run(f)

    def envs(self, nets):
        out = []
        for k, c in zip(self.S.ranks, nets):
            with self.S.as_rank(k):
                out.append({x: t.v for x, t in get_env(k.I, c, self.L).items()})
        return out

    def covers(self):
        for k in self.S.ranks:
            self.R.covers(k.I)


def attempt(R, rule, label, fn, W=None):
    """run a distributed scenario: a mismatch of collectives, or a failure on one rank, is a definite violation"""
    try:
        return True, fn()
    except Mismatch as e:
        R.fail(rule, label, str(e))
        return False, None
    except BaseException as e:
        I = W.S.ranks[0].I if W else None

        def again():
            raise e
        return R.attempt(rule, label, again, I)


def equal_envs(R, rule, label, envs, names=None):
    """the tensors of every rank are those of rank 0"""
    for r, e in enumerate(envs[1:], 1):
        bad = [(key_name(k), tnet.equal_all(e[k], envs[0][k])) for k in envs[0]]
        bad = [(k, x[1]) for k, x in bad if not x[0]]
        R.ob(rule, f'{label}: rank {r}', not bad, f'tensors differ from those of rank 0: {bad[:2]}')
