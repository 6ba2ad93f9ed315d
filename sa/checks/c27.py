"""Which model class and which parameters a network uses."""
from .c12 import hook_rdm, rho, re, total
from ..world import *

# every model class defines terms that name themselves and show the parameter `g`
DEFS = '''
from acetn.ipeps import Ipeps
from acetn.model import Model
from acetn.model.models.ising import IsingModel
from acetn.model.models.heisenberg import HeisenbergModel
from acetn.model.model_factory import model_factory
class M(Model):
    def one_site_observables(self, site):
        return {"which": hm}
    def two_site_hamiltonian(self, bond):
        seen.append(["m", self.params.get("g", 1)])
        return self.params.get("g", 1)*hm2
class N(Model):
    who = 'n'
    def initial_site_state(self, site):
        return [0., 1.]
    def one_site_observables(self, site):
        return {"which": hn}
    def two_site_hamiltonian(self, bond):
        seen.append([self.who, self.params.get("g", 1)])
        return self.params.get("g", 1)*hn2
class K(N):
    who = 'k'
    def one_site_observables(self, site):
        return {"which": hk}
term = IsingModel.one_site_hamiltonian
def recorded(self, site):
    seen.append(["ising", self.params.get("hx")])
    return term(self, site)
IsingModel.one_site_hamiltonian = recorded
class NotAModel:
    def two_site_hamiltonian(self, bond):
        return hm2
'''

# (what, program, expectations network -> (model, value of g))
CASES = [
    ('one network', 'a = Ipeps(cfg)\na.set_model(M, {"g": g1})', {'a': ('m', 'g1')}),
    ('no parameters', 'a = Ipeps(cfg)\na.set_model(M, {})', {'a': ('m', 1)}),
    ('a named model', 'a = Ipeps(cfg)\na.set_model(M, {"g": g1}, "Mine")', {'a': ('m', 'g1')}),
    ('a named model, by keyword', 'a = Ipeps(cfg)\na.set_model(model_cls=M, params={"g": g1}, name="x")', {'a': ('m', 'g1')}),
    ('a model set twice', 'a = Ipeps(cfg)\na.set_model(M, {"g": g1})\na.set_model(N, {"g": g2})', {'a': ('n', 'g2')}),
    ('a model set twice, parameters left out', 'a = Ipeps(cfg)\na.set_model(M, {"g": g1})\na.set_model(N, {})', {'a': ('n', 1)}),
    ('a model replaced after evolving', 'a = Ipeps(cfg)\na.set_model(M, {"g": g1})\na.evolve(t, 0)\na.set_model(N, {"g": g2})', {'a': ('n', 'g2')}),
    ('a model replaced after measuring', 'a = Ipeps(cfg)\na.set_model(M, {"g": g1})\na.measure()\na.set_model(N, {"g": g2})\na.set_model_params(g=g3)', {'a': ('n', 'g3')}),
    ('parameters replaced after both', 'a = Ipeps(cfg)\na.set_model(M, {"g": g1})\na.evolve(t, 0)\na.measure()\na.set_model(M, {"g": g2})', {'a': ('m', 'g2')}),
    ('after measuring another model', 'a = Ipeps(cfg)\na.set_model(M, {"g": g1})\na.measure(N(a.config.model))\na.evolve(t, 0, N(a.config.model))', {'a': ('m', 'g1')}),
    ('a name used twice', 'a = Ipeps(cfg)\na.set_model(M, {"g": g1}, "x")\na.set_model(N, {"g": g2}, "x")', {'a': ('n', 'g2')}),
    ('a subclass', 'a = Ipeps(cfg)\na.set_model(K, {"g": g1})', {'a': ('k', 'g1')}),
    ('two networks', 'a = Ipeps(cfg)\nb = Ipeps(cfg)\na.set_model(M, {"g": g1})\nb.set_model(N, {"g": g2})', {'a': ('m', 'g1'), 'b': ('n', 'g2')}),
    ('two networks, one name', 'a = Ipeps(cfg)\nb = Ipeps(cfg)\na.set_model(M, {"g": g1}, "x")\nb.set_model(N, {"g": g2}, "X")', {'a': ('m', 'g1'), 'b': ('n', 'g2')}),
    ('two networks, interleaved', 'a = Ipeps(cfg)\na.set_model(M, {"g": g1})\na.measure()\nb = Ipeps(cfg)\nb.set_model(N, {"g": g2})\nb.measure()\nb.set_model_params(g=g3)',
     {'a': ('m', 'g1'), 'b': ('n', 'g3')}),
    ('two networks, the name of a built-in', 'a = Ipeps(cfg)\nb = Ipeps(cfg)\na.set_model(M, {"g": g1}, "ising")\nb.set_model(IsingModel, {"jz": 1., "hx": g1})', {'a': ('m', 'g1'), 'b': ('ising', 'g1')}),
    ('changed parameters', 'a = Ipeps(cfg)\na.set_model(M, {"g": g1})\na.set_model_params(g=g2)', {'a': ('m', 'g2')}),
    ('parameters changed twice', 'a = Ipeps(cfg)\na.set_model(M, {"g": g1})\na.set_model_params(g=g2)\na.measure()\na.set_model_params(g=g3, other=1)', {'a': ('m', 'g3')}),
    ('parameters changed after measuring', 'a = Ipeps(cfg)\na.set_model(M, {"g": g1})\na.measure()\na.set_model_params(g=g2)', {'a': ('m', 'g2')}),
    ('parameters changed after evolving', 'a = Ipeps(cfg)\na.set_model(M, {"g": g1})\na.evolve(t, 0)\na.set_model_params(g=g2)', {'a': ('m', 'g2')}),
    ('another parameter changed', 'a = Ipeps(cfg)\na.set_model(M, {"g": g1})\na.set_model_params(h=g2)', {'a': ('m', 'g1')}),
    ('parameters changed, two networks', 'a = Ipeps(cfg)\nb = Ipeps(cfg)\np = {"g": g1}\na.set_model(M, p)\nb.set_model(M, p)\na.set_model_params(g=g2)', {'a': ('m', 'g2'), 'b': ('m', 'g1')}),
    ('a copy made before', 'b = Ipeps(cfg)\nb.set_model(M, {"g": g1})\na = Ipeps(cfg, b)\na.set_model(N, {"g": g2})', {'a': ('n', 'g2'), 'b': ('m', 'g1')}),
    ('a model in the configuration', 'model_factory.register("own", M)\ncfg["model"] = {"name": "own", "params": {"g": g1}}\na = Ipeps(cfg)', {'a': ('m', 'g1')}),
    ('a model in the configuration, replaced', 'model_factory.register("own", M)\ncfg["model"] = {"name": "own", "params": {"g": g1}}\na = Ipeps(cfg)\nb = Ipeps(cfg)\na.set_model(N, {"g": g2})\nb.set_model_params(g=g3)',
     {'a': ('n', 'g2'), 'b': ('m', 'g3')}),
    ('a model registered again', 'model_factory.register("own", M)\nmodel_factory.register("own", N)\ncfg["model"] = {"name": "own", "params": {"g": g1}}\na = Ipeps(cfg)', {'a': ('n', 'g1')}),
    ('a model given as argument', 'a = Ipeps(cfg)\na.set_model(M, {"g": g1})\nb = Ipeps(cfg)\nb.set_model(N, {"g": g2})\nmodel = model_factory.create(b.config.model)', {'a': ('n', 'g2')}),
    ('a model given as argument, none set', 'a = Ipeps(cfg)\nb = Ipeps(cfg)\nb.set_model(N, {"g": g2})\nmodel = model_factory.create(b.config.model)', {'a': ('n', 'g2')}),
    ('Ising in the configuration', 'cfg["model"] = {"name": "ising", "params": {"jz": 1., "hx": g1}}\na = Ipeps(cfg)', {'a': ('ising', 'g1')}),
    ('Heisenberg in the configuration, then Ising', 'cfg["model"] = {"name": "heisenberg", "params": {"J": 1.}}\na = Ipeps(cfg)\na.set_model(IsingModel, {"jz": 1., "hx": g1})', {'a': ('ising', 'g1')}),
]

# (what, program, exception or exceptions allowed)
ERRORS = [
    ('measuring without a model', 'a = Ipeps(cfg)\na.measure()', ('ValueError',)),
    ('evolving without a model', 'a = Ipeps(cfg)\na.evolve(t, 1)', ('ValueError',)),
    ('measuring with an unregistered model', 'cfg["model"] = {"name": "nothing", "params": {}}\na = Ipeps(cfg)\na.measure()', ('KeyError',)),
    ('evolving with an unregistered model', 'cfg["model"] = {"name": "nothing", "params": {}}\na = Ipeps(cfg)\na.evolve(t, 1)', ('KeyError',)),
    ('registering something else', 'model_factory.register("x", NotAModel)', ('TypeError',)),
    ('setting something else', 'a = Ipeps(cfg)\na.set_model(NotAModel, {})', ('TypeError',)),
    ('setting an instance', 'a = Ipeps(cfg)\na.set_model(M, {})\na.set_model(M(a.config.model), {})', ('TypeError',)),
    ('a model without two-site terms', 'class P(Model):\n    pass\na = Ipeps(cfg)\na.set_model(P, {})\na.measure()', ('TypeError',)),
    ('creating without a name', 'a = Ipeps(cfg)\nmodel_factory.create(a.config.model)', ('ValueError',)),
]

# after a rejected call the network is as before
KEPT = [
    ('setting something else', 'try:\n    a.set_model(NotAModel, {"g": g2})\nexcept TypeError:\n    pass'),
    ('registering something else', 'try:\n    model_factory.register("custom", NotAModel)\nexcept TypeError:\n    pass'),
    ('listing', 'names = model_factory.list_registered()\nnames.clear()'),
    ('registering another', 'model_factory.register("another", N)'),
    ('setting another network', 'b = Ipeps(cfg)\nb.set_model(N, {"g": g2})\nb.evolve(t, 0)\nb.measure()'),
    ('measuring with another model', 'b = Ipeps(cfg)\nb.set_model(N, {"g": g2})\na.measure(model_factory.create(b.config.model))'),
]


def given(I, real):
    T = lambda n, *d: tobj(I, tnet.atom_tv((n,), d), real)
    d = {f'h{x}': T('h' + x, 2, 2) for x in 'mnk'}
    d.update({f'h{x}2': T(f'h{x}2', 4, 4) for x in 'mn'})
    d.update({f'g{i}': dim(f'g{i}') for i in (1, 2, 3)}, t=dim('t'), seen=PList([]))
    return d


def prepare(real):
    I = fresh(real)
    plain_boundary(I)
    hook_rdm(I, real, 2, [])
    cfg = config(1, 2, {'phys': 2, 'bond': dim('D'), 'chi': dim('chi')}, real, {'steps': 0}, {'update_type': 'simple'})
    return I, cfg, given(I, real)


def values_seen(I, g):
    out = []
    for x in I.iterate(g['seen']):
        n, v = [I.resolve(y) for y in I.iterate(x)]
        out.append((n, v))
    return out


def use(I, R, rule, label, g, net, d, which, val):
    """measure and evolve the network; its terms must come from the expected class with the expected parameter"""
    arg = {'model': g['model']} if 'model' in g else {}
    m = 'model' if arg else ''
    for what, code in (('measured', f'obs = a.measure({m})'), ('evolved', f'a.evolve(t, 0{", model" if m else ""})'), ('measured again', f'obs = a.measure({m})')):
        ok, h = R.attempt(rule, label, lambda: script(I, 'seen.clear()\n' + code, a=g[net], t=d['t'], seen=d['seen'], **arg), I)
        if not ok:
            return
        got = values_seen(I, d)
        R.ob(rule, f'{label}: {what}', got and {n for n, _ in got} == {which}, f'terms of {sorted({n for n, _ in got})} used instead of {which}')
        R.ob('parameters', f'{label}: {what}', got and all(same_number(v, val) for _, v in got), f'parameter {got[0][1] if got else None} used instead of {val}')
        if 'obs' in h:
            want = {'m': d['hm'], 'n': d['hn'], 'k': d['hk']}.get(which)
            obs = {k: I.resolve(v) for k, v in h['obs'].d.values()}
            if want is not None:
                r = rho((0, 0), 2), rho((0, 1), 2)
                val_ = [tnet.mul(re(tnet.einsum([x, want.v], 'Pp,Pp->')), tnet.pow_(re(tnet.einsum([x], 'pp->')), -1)) for x in r]
                x = obs.get('which')
                R.ob(rule, f'{label}: {what} value', *(tnet.equal_all(x.v, total(val_, 2)) if isinstance(x, TObj) else (False, f'observables {sorted(obs)}')))


def same_number(a, b):
    return not isinstance(a, (str, type(None))) and poly.simp(poly.sub(a, b)) == 0


def run(R):
    for real in (True, False):
        kind = 'real' if real else 'complex'
        for what, code, want in CASES:
            I, cfg, d = prepare(real)
            ok, g = R.attempt('model', f'{what}, {kind}', lambda: script(I, DEFS + code, cfg=cfg, **d), I)
            if not ok:
                continue
            for net, w in want.items():
                which, val = w
                use(I, R, 'model', f'{what}, network {net}, {kind}', g, net, d, which, d.get(val, val))
            R.covers(I)
        for what, code, exc in ERRORS:
            I, cfg, d = prepare(real)
            ok, e = R.attempt('rejected', what, lambda: raises(I, DEFS + code, cfg=cfg, **d), I)
            if ok:
                name = None if e is None else str(getattr(getattr(e, 'cls', e), 'name', getattr(e, 'cls', e)))
                R.ob('rejected', f'{what}, {kind}', name in exc, f'expected {exc[0]}, got {name or "no exception"}')
        for what, code in KEPT:
            I, cfg, d = prepare(real)
            label = f'{what}, {kind}'
            ok, g = R.attempt('kept', label, lambda: script(I, DEFS + 'a = Ipeps(cfg)\na.set_model(M, {"g": g1})\n' + code, cfg=cfg, **d), I)
            if ok:
                use(I, R, 'kept', label, {'a': g['a']}, 'a', d, 'm', d['g1'])
    R.expect('model', 100)
    R.expect('rejected', 2 * len(ERRORS))
