"""measure() leaves network, model and configuration as they were, and repeats."""
from .c03 import net, values, unchanged
from ..world import *
from .c12 import hook_rdm, key

MODEL = '''
from acetn.ipeps import Ipeps
from acetn.model import Model
class Op:
    def __init__(self, mat):
        self.mat = mat
class M(Model):
    def __init__(self, config):
        super().__init__(config)
        self.h1, self.h2, self.o1, self.o2 = h1, h2, Op(o1), Op(o2)
        self.table = {"a": self.o1, "b": self.h1}
        self.pairs = {"c": self.o2}
    def one_site_observables(self, site):
        return self.table
    def two_site_observables(self, bond):
        return self.pairs
    def one_site_hamiltonian(self, site):
        return self.h1
    def two_site_hamiltonian(self, bond):
        return self.h2
'''


def run(R):
    for real in (True, False):
        for L in ((1, 1), (1, 2), (2, 1)):
            for form in ('own model', 'model given as argument', 'built-in model'):
                for abstract in (True, False):
                    if not abstract and (not real or L != (1, 1) or form == 'built-in model'):
                        continue
                    I = fresh(real)
                    plain_boundary(I)
                    if abstract:
                        hook_rdm(I, real, 2, [])
                    a = net(I, L, real, 'a')
                    T = lambda n, *d: tobj(I, tnet.atom_tv((n,), d), real)
                    given = dict(a=a, h1=T('h1', 2, 2), h2=T('h2', 4, 4), o1=T('o1', 2, 2), o2=T('o2', 2, 2, 2, 2))
                    label = f'{form}, {"real" if real else "complex"} {L}{"" if abstract else ", density matrices included"}'
                    ok, g = R.attempt('read-only', label, lambda: script(I, MODEL + ('a.set_model(M, {"x": 1})\n' if form == 'own model' else '') + 'm = M(a.config.model)\n', **given), I)
                    if not ok:
                        continue
                    m = g['m']
                    env = values(get_env(I, a, L))
                    ids = {k: storage_ids([t]) for k, t in get_env(I, a, L).items()}
                    pre = snapshot(I, a, 'network'), snapshot(I, m, 'model'), snapshot(I, [given[n] for n in ('h1', 'h2', 'o1', 'o2')], 'operators')
                    call = 'a.measure(m)' if form == 'model given as argument' else 'a.measure()'
                    ok, g = R.attempt('read-only', label, lambda: script(I, f'r1 = {call}\nr2 = {call}', a=a, m=m), I)
                    if not ok:
                        continue
                    unchanged(R, 'read-only', label, env, get_env(I, a, L))
                    same(R, 'settings', f'network, {label}', pre[0], snapshot(I, a, 'network'))
                    same(R, 'settings', f'model, {label}', pre[1], snapshot(I, m, 'model'))
                    same(R, 'settings', f'operators, {label}', pre[2], snapshot(I, [given[n] for n in ('h1', 'h2', 'o1', 'o2')], 'operators'))
                    r1, r2 = snapshot(I, g['r1'], 'result'), snapshot(I, g['r2'], 'result')
                    same(R, 'repeat', label, r1, r2)
                    same(R, 'repeat', label + ', no further keys', r2, r1)
                    R.ob('results-own', label, not (storage_ids([v for v in map(I.resolve, [x for _, x in g['r1'].d.values()]) if isinstance(v, TObj)]) &
                                                     set().union(*ids.values())), 'a measured value shares memory with the network')
                    R.covers(I)
    R.expect('read-only', 100)
    R.expect('settings', 50)
