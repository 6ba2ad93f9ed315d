"""Arguments are inputs: nothing the user passed in is changed, and changing it later changes no network made from it."""
from .c03 import net
from ..world import *

CUSTOM = '''
from acetn.ipeps import Ipeps
from acetn.ipeps.tensor_network import TensorNetwork
from acetn.model import Model
from acetn.model.models.ising import IsingModel
from acetn.model.model_factory import model_factory
class M(Model):
    def __init__(self, config):
        super().__init__(config)
        self.own = [h1, h2]
    def initial_site_state(self, site):
        return state
    def one_site_observables(self, site):
        return obs1
    def two_site_observables(self, bond):
        return obs2
    def one_site_hamiltonian(self, site):
        return h1
    def two_site_hamiltonian(self, bond):
        return h2
def f(site):
    return state
'''

# (what, program): the arguments are cfg, params, extra, state, obs1, obs2, h1, h2, model m, networks a and b, site tensors x, ys, zs
USES = [
    ('constructing a network', 'c = Ipeps(cfg)'),
    ('constructing a network from another', 'c = Ipeps(cfg, a)'),
    ('constructing two networks', 'c = Ipeps(cfg)\nd = Ipeps(cfg)\nd.set_chi(9)\nd.set_model_params(hx=7)'),
    ('registering and setting a model', 'c = Ipeps(cfg)\nc.set_model(M, params)\nc.set_model(M, params, "Mine")'),
    ('changing parameters and chi', 'c = Ipeps(cfg)\nc.set_model(M, params)\nc.set_model_params(**extra)\nc.set_model_params(g=5)\nc.set_chi(9)'),
    ('initialising the site tensors', 'c = Ipeps(cfg)\nc.initialize_site_tensors(f)'),
    ('evolving', 'c = Ipeps(cfg)\nc.set_model(M, params)\nc.evolve(0.1, 1)'),
    ('evolving a network made from another', 'c = Ipeps(cfg, a)\nc.set_model(M, params)\nc.evolve(0.1, 2)'),
    ('evolving with a model passed in', 'c = Ipeps(cfg, a)\nc.evolve(0.1, 1, m)'),
    ('renormalising', 'c = Ipeps(cfg, a)\nc.renormalize()'),
    ('measuring', 'c = Ipeps(cfg, a)\nc.set_model(M, params)\nr = c.measure()\nr = c.measure(m)'),
    ('assigning tensors', 'c = Ipeps(cfg, a)\nc[(0, 0)]["A"] = x\nc[(0, 0)]["C"] = ys\nc[(0, 0)]["E"] = zs\nc.renormalize()\nc.set_model(M, params)\nc.evolve(0.1, 1)'),
    ('saving and loading', 'a.save("f.pt")\nc = Ipeps(cfg)\nc.load("f.pt")\nc.set_model(M, params)\nc.evolve(0.1, 1)'),
    ('copying', 'c = Ipeps(cfg, a.copy())\nd = a.to(dtype=a.dtype)\nd.bond_list.reverse()\nd.site_list.clear()\nd.dims["chi"] = 3'),
]

# (what, program making c, program changing an argument afterwards)
LATER = [
    ('dimensions', 'c = Ipeps(cfg)', 'cfg["TN"]["dims"]["chi"] = 77\ncfg["TN"]["dims"]["bond"] = 5\ncfg["TN"]["nx"] = 4'),
    ('sections', 'c = Ipeps(cfg)', 'cfg["ctmrg"]["steps"] = 9\ncfg["evolution"]["update_type"] = "full"\ncfg["dtype"] = "float32"\ncfg["TN"] = {}'),
    ('model parameters in the configuration', 'c = Ipeps(cfg)', 'cfg["model"]["params"]["hx"] = 9\ncfg["model"]["name"] = "heisenberg"\ncfg["model"]["params"]["new"] = 1'),
    ('parameters given to set_model', 'c = Ipeps(cfg)\nc.set_model(M, params)', 'params["jz"] = 9\nparams["new"] = 1'),
    ('parameters given to set_model by keyword', 'c = Ipeps(cfg)\nc.set_model(model_cls=M, params=params, name="n")', 'params.clear()'),
    ('network copied from', 'c = Ipeps(cfg, a)', 'a[(0, 0)]["A"].mul_(2)\na[(0, 0)]["C"][1].mul_(2)\na[(0, 0)]["E"][1].mul_(2)\na.bond_list.reverse()\na.site_list.reverse()\n'
                                                 'a.set_chi(9)\na.set_model_params(hx=1)\na[(0, 0)] = b[(0, 0)]'),
    ('network copied by copy()', 'c = a.copy()', 'a[(0, 0)]["A"].mul_(2)\na[(0, 0)]["C"][1].mul_(2)\na.bond_list.reverse()\na.set_chi(9)\na.set_model_params(hx=1)\na.renormalize()\na.evolve(0.1, 1)'),
    ('network copied by to()', 'c = a.to(dtype=a.dtype)', 'a[(0, 0)]["A"].mul_(2)\na[(0, 0)]["E"][1].mul_(2)\na.bond_list.reverse()\na.set_chi(9)\na.set_model_params(hx=1)'),
    ('a copy of the network', 'd = a.copy()\nc = a', 'd[(0, 0)]["A"].mul_(2)\nd[(0, 0)]["C"][1].mul_(2)\nd.bond_list.reverse()\nd.dims["chi"] = 9\nd.dims["bond"] = 9\nd.site_list.clear()'),
    ('a converted copy of the network', 'd = a.to(device="cpu")\nc = a', 'd[(0, 0)]["A"].mul_(2)\nd[(0, 0)]["E"][1].mul_(2)\nd.bond_list.reverse()\nd.dims["chi"] = 9'),
    ('site states', 'c = Ipeps(cfg)\nc.initialize_site_tensors(f)', 'state[0] = 5.\nstate.append(1.)'),
    ('tensors assigned to a site', 'c = Ipeps(cfg)\nc[(0, 0)]["A"] = x\nc[(0, 0)]["C"] = ys\nc[(0, 0)]["E"] = zs', 'x.mul_(2)\nys[0].mul_(2)\nys[1] = ys[2]\nzs[3].mul_(2)\nzs.reverse()'),
    ('file loaded from', 'a.save("f.pt")\nc = Ipeps(cfg)\nc.load("f.pt")', 'a[(0, 0)]["A"].mul_(2)\na.set_chi(9)\nd = Ipeps(cfg)\nd.load("f.pt")\nd[(0, 0)]["A"].mul_(2)\nd.save("f.pt")'),
]


def setting(real, L):
    I = fresh(real)
    plain_boundary(I)
    cfg = config(L[0], L[1], {'phys': 2, 'bond': dim('D'), 'chi': dim('chi')}, real, {'steps': 1, 'svd_type': 'full-rank'}, {'update_type': 'simple'},
                 {'name': 'ising', 'params': {'jz': dim('jz'), 'hx': dim('hx')}})
    a, b = net(I, L, real, 'a'), net(I, L, real, 'b')
    D, chi = dim('D'), dim('chi')
    T = lambda n, *d: tobj(I, tnet.atom_tv((n,), d), real)
    given = dict(cfg=cfg, params=up({'jz': dim('j2'), 'hx': dim('h2')}), extra=up({'hx': dim('h3'), 'k': dim('k')}), state=up([1., dim('s')]),
                 h1=T('h1', 2, 2), h2=T('h2', 4, 4), x=T('x', D, D, D, D, 2), ys=PList([T(f'y{k}', chi, chi) for k in range(4)]),
                 zs=PList([T(f'z{k}', chi, chi, D, D) for k in range(4)]))
    given['obs1'] = up({'o': given['h1'], 'p': T('o1', 2, 2)})
    given['obs2'] = up({'oo': T('o2', 4, 4)})
    objs = dict(given, a=a, b=b, torch=I.load('torch'))
    return I, a, b, given, objs


def everything(I, objs, names):
    out = {}
    for n in names:
        out.update(snapshot(I, objs[n], n))
    return out


def state(I, c, L):
    s = snapshot(I, c, 'network')
    for k, t in get_env(I, c, L).items():
        s[f'tensor {k}'] = ('tensor', t.v, str(t.dtype), str(t.device))
    return s


def run(R):
    for real, L in ((True, (1, 2)), (False, (2, 1))):
        kind = 'real' if real else 'complex'
        for what, code in USES:
            I, a, b, given, objs = setting(real, L)
            label = f'{what}, {kind}'
            ok, g = R.attempt('arguments', label, lambda: script(I, CUSTOM + 'm = M(a.config.model)', **objs), I)
            if not ok:
                continue
            m = g['m']
            env = {k: v for k, v in g.items() if k in ('M', 'Ipeps', 'f', 'IsingModel', 'model_factory', 'TensorNetwork')}
            if 'volv' in code or 'volv' in what:
                forget_values(I)
            names = list(given) + ['m']
            before = everything(I, {**objs, 'm': m}, names)
            nets = state(I, a, L), state(I, b, L)
            ok, g = R.attempt('arguments', label, lambda: script(I, code, **env, **objs, m=m), I)
            if not ok:
                continue
            after = everything(I, {**objs, 'm': m}, names)
            same(R, 'arguments', label, before, after)
            same(R, 'arguments', label + ', nothing added', after, before)
            for n, x, y in (('a', a, nets[0]), ('b', b, nets[1])):
                same(R, 'networks', f'{label}: network {n}', y, state(I, x, L))
            c = g['c']
            args = storage_ids([t for n in names for t in reach({**objs, 'm': m}[n]) if isinstance(t, TObj)])
            own = storage_ids(list(get_env(I, c, L).values()))
            R.ob('memory', label, not args & own, 'a tensor of the network shares memory with an argument')
            R.covers(I)
        for what, make, change in LATER:
            I, a, b, given, objs = setting(real, L)
            label = f'{what}, {kind}'
            if 'evolve' in change:
                ok, g = R.attempt('later', label, lambda: script(I, CUSTOM + make, **objs), I)
                forget_values(I)
            else:
                ok, g = R.attempt('later', label, lambda: script(I, CUSTOM + make, **objs), I)
            if not ok:
                continue
            c, before = g['c'], state(I, g['c'], L)
            ok, h = R.attempt('later', label, lambda: script(I, change, **{**objs, **{k: v for k, v in g.items() if not k.startswith('__')}}), I)
            if not ok:
                continue
            after = state(I, c, L)
            same(R, 'later', label, before, after)
            same(R, 'later', label + ', nothing added', after, before)
            R.covers(I)
    R.expect('arguments', 2 * 2 * len(USES))
    R.expect('later', 2 * 2 * len(LATER))
