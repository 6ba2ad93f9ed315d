"""evolve() continues from the state the network was given; only a network without one gets the model's product state."""
from .c03 import net, values, unchanged
from ..world import *

MODELS = '''
from acetn.ipeps import Ipeps
from acetn.model import Model
from acetn.model.pauli_matrix import pauli_matrices
class M(Model):
    def initial_site_state(self, site):
        x, y = site
        return [u[x], v[y]]
    def two_site_hamiltonian(self, bond):
        X, Y, Z, I = pauli_matrices(self.dtype, self.device)
        return X*X
class M2(M):
    def initial_site_state(self, site):
        x, y = site
        return [v[y], w]
class M3(M):
    pass
'''
QUIET = 'torch.rand = torch.zeros\ntorch.randn = torch.zeros\n'
STATES = {'M': lambda s: (f'u{s[0]}', f'v{s[1]}'), 'M2': lambda s: (f'v{s[1]}', 'w'), 'f': lambda s: ('q', f'u{s[0]}'), 'up': lambda s: (1, 0)}

# (what, program, expected state of c: a model / map name, or the network whose tensors it must have)
CASES = [
    ('a fresh network', 'c = Ipeps(cfg)\nc.set_model(M, {})\nc.evolve(t, 0)', 'M'),
    ('a fresh network, twice', 'c = Ipeps(cfg)\nc.set_model(M, {})\nc.evolve(t, 0)\nc.set_model(M2, {})\nc.evolve(t, 0)', 'M'),
    ('a fresh network, model set twice', 'c = Ipeps(cfg)\nc.set_model(M, {})\nc.set_model(M2, {})\nc.evolve(t, 0)', 'M2'),
    ('a fresh network measured before', 'c = Ipeps(cfg)\nc.set_model(M, {})\nc.measure()\nc.renormalize()\nc.evolve(t, 0)', 'M'),
    ('a fresh network, model given as argument', 'c = Ipeps(cfg)\nc.set_model(M, {})\nm = M2(c.config.model)\nc.evolve(t, 0, m)', 'M2'),
    ('a fresh network, model given by keyword', 'c = Ipeps(cfg)\nc.set_model(M, {})\nm = M2(c.config.model)\nc.evolve(dtau=t, steps=0, model=m)', 'M2'),
    ('a fresh network, None given', 'c = Ipeps(cfg, None)\nc.set_model(M, {}, "Name")\nc.evolve(t, 0)', 'M'),
    ('an initialised network', 'c = Ipeps(cfg)\nc.initialize_site_tensors(f)\nc.set_model(M, {})\nc.evolve(t, 0)', 'f'),
    ('an initialised network, model set first', 'c = Ipeps(cfg)\nc.set_model(M, {})\nc.initialize_site_tensors(f)\nc.evolve(t, 0)', 'f'),
    ('a network initialised after evolution', 'c = Ipeps(cfg)\nc.set_model(M, {})\nc.evolve(t, 0)\nc.initialize_site_tensors(f)\nc.evolve(t, 0)', 'f'),
    ('a network from another', 'c = Ipeps(cfg, a)\nc.set_model(M, {})\nc.evolve(t, 0)', 'a'),
    ('a network from another by keyword', 'c = Ipeps(cfg, ipeps=a)\nc.set_model(M, {})\nc.evolve(t, 0)\nc.evolve(t, 0)', 'a'),
    ('a network from a copy', 'c = Ipeps(cfg, a.copy())\nc.set_model(M, {})\nc.evolve(t, 0)', 'a'),
    ('a network from a converted copy', 'c = Ipeps(cfg, a.to(dtype=a.dtype))\nc.set_model(M, {})\nc.evolve(t, 0)', 'a'),
    ('a network from a fresh one', 'b = Ipeps(cfg)\nc = Ipeps(cfg, b)\nc.set_model(M, {})\nc.evolve(t, 0)', 'up'),
    ('a network from an evolved one', 'b = Ipeps(cfg)\nb.set_model(M2, {})\nb.evolve(t, 0)\nc = Ipeps(cfg, b)\nc.set_model(M, {})\nc.evolve(t, 0)', 'M2'),
    ('a loaded network', 'a.save("f.pt")\nc = Ipeps(cfg)\nc.load("f.pt")\nc.set_model(M, {})\nc.evolve(t, 0)', 'a'),
    ('a loaded network, model set first', 'a.save("f.pt")\nc = Ipeps(cfg)\nc.set_model(M, {})\nc.load("f.pt")\nc.evolve(t, 0)', 'a'),
    ('a network loaded after evolution', 'a.save("f.pt")\nc = Ipeps(cfg)\nc.set_model(M, {})\nc.evolve(t, 0)\nc.load("f.pt")\nc.evolve(t, 0)', 'a'),
    ('a saved fresh network', 'c = Ipeps(cfg)\nc.set_model(M, {})\nc.save("f.pt")\nc.evolve(t, 0)', 'M'),
    ('a loaded fresh network', 'b = Ipeps(cfg)\nb.save("f.pt")\nc = Ipeps(cfg)\nc.load("f.pt")\nc.set_model(M, {})\nc.evolve(t, 0)', 'up'),
    ('changed parameters', 'c = Ipeps(cfg, a)\nc.set_model(M, {})\nc.evolve(t, 0)\nc.set_model_params(k=1)\nc.set_chi(9)\nc.evolve(t, 0)', 'a'),
    ('tensors changed after initialisation', 'c = Ipeps(cfg, a)\nc.set_model(M, {})\nc.evolve(t, 0)\nfor s in c.site_list:\n    c[s]["A"] = o[s]["A"]\nc.evolve(t, 0)', 'o'),
    ('two networks', 'b = Ipeps(cfg, a)\nc = Ipeps(cfg)\nb.set_model(M2, {})\nc.set_model(M, {})\nb.evolve(t, 0)\nc.evolve(t, 0)', 'M'),
    ('two networks, the other fresh', 'b = Ipeps(cfg)\nc = Ipeps(cfg, a)\nb.set_model(M2, {})\nc.set_model(M, {})\nb.evolve(t, 0)\nc.evolve(t, 0)', 'a'),
]


def run(R):
    for real, L, upd in ((True, (1, 2), 'full'), (False, (2, 1), 'simple')):
        for what, code, want in CASES:
            I = fresh(real)
            plain_boundary(I)
            cfg = config(L[0], L[1], {'phys': 2, 'bond': dim('D'), 'chi': dim('chi')}, real, {'steps': 0}, {'update_type': upd})
            a, o = net(I, L, real, 'a'), net(I, L, real, 'o')
            label = f'{what}, {upd} update'
            names = {n: dim(n) for n in ('u0', 'u1', 'v0', 'v1', 'w', 'q', 't')}
            given = dict(a=a, o=o, cfg=cfg, torch=I.load('torch'), u=[names['u0'], names['u1']], v=[names['v0'], names['v1']],
                         w=names['w'], q=names['q'], t=names['t'])
            ok, g = R.attempt('start', label, lambda: script(I, QUIET + MODELS + 'def f(site):\n    return [q, u[site[0]]]\n' + code, **given), I)
            if not ok:
                continue
            c = g['c']
            for s in sites_of(L):
                got = I.getitem(I.getitem(c, s), 'A')
                if want in STATES:
                    x, y = [names.get(n, n) for n in STATES[want](s)]
                    ok, w = R.attempt('start', label, lambda: script(I, '''
                        z = torch.zeros(D, D, D, D, 2, dtype=dt)
                        z[0, 0, 0, 0, 0] = x
                        z[0, 0, 0, 0, 1] = y
                        z = z / z.norm()
                        ''', torch=I.load('torch'), D=dim('D'), x=x, y=y, dt=I.getattr(c, 'dtype'))['z'], I)
                    if not ok:
                        continue
                    v = w.v
                else:
                    v = I.getitem(I.getitem(g[want] if want in g else given[want], s), 'A').v
                    okn, _ = tnet.equal_all(v, tnet.atom_tv((want, 'A', s), got.shape))
                    R.ob('source-kept', f'{label}: {s}', okn, 'the network copied from was changed')
                R.ob('start', f'{label}: site {s}', *tnet.equal_all(got.v, v))
            R.covers(I)
    R.expect('start', 96)
