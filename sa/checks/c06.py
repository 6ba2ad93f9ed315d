"""Every stored tensor has the dtype and device asked for; no operation mixes devices or drops imaginary parts."""
from .spmdlib import *
from .. import objects, tnet
from .c15 import faulty

CLIENT = '''
from acetn.ipeps import Ipeps
from acetn.model import Model
from acetn.model.pauli_matrix import pauli_matrices
class M(Model):
    def initial_site_state(self, site):
        return [u, v]
    def one_site_observables(self, site):
        return {"o": h1}
    def two_site_observables(self, bond):
        return {"oo": h2}
    def one_site_hamiltonian(self, site):
        return h1
    def two_site_hamiltonian(self, bond):
        return h2
class P(Model):
    def one_site_observables(self, site):
        X, Y, Z, I = pauli_matrices(self.dtype, self.device)
        return {"o": X + Z}
    def two_site_hamiltonian(self, bond):
        X, Y, Z, I = pauli_matrices(self.dtype, self.device)
        return u*X*X + v*Y*Y + Z*Z
    def one_site_hamiltonian(self, site):
        X, Y, Z, I = pauli_matrices(self.dtype, self.device)
        return w*X
def f(site):
    return [w, site[0] + 2*site[1]]
'''
RUN = 'c = Ipeps(cfg)\nc.set_model(M, {})\n'
BASIC = [
    ('construction', 'c = Ipeps(cfg)'),
    ('initialisation', 'c = Ipeps(cfg)\nc.initialize_site_tensors(f)'),
    ('network from another', 'b = Ipeps(other)\nc = Ipeps(cfg, b)'),
    ('copy', 'b = Ipeps(cfg)\nc = b.copy()'),
    ('conversion', 'b = Ipeps(other)\nc = b.to(dtype=dtype, device=device)'),
    ('conversion of the dtype', 'b = Ipeps(other)\nc = b.to(dtype=dtype).to(device=device)'),
    ('conversion of a site', 'b = Ipeps(other)\nc = Ipeps(cfg)\nfor s in c.site_list:\n    c[s] = b[s].to(dtype=dtype, device=device)'),
    ('assignment', 'b = Ipeps(other)\nc = Ipeps(cfg)\nfor s in c.site_list:\n    c[s]["A"] = b[s]["A"]\n    c[s]["C"] = b[s]["C"]\n    c[s]["E"] = b[s]["E"]'),
    ('loading', 'b = Ipeps(other)\nb.save("f")\nc = Ipeps(cfg)\nc.load("f")'),
    ('loading and evolving', 'cfg["evolution"]["update_type"] = "simple"\nb = Ipeps(other)\nb.save("f")\nc = Ipeps(cfg)\nc.load("f")\nc.set_model(M, {})\nc.evolve(t, 1)\nr = c.measure()'),
]


def contracts(op):
    """does this operation multiply matrices (for which PyTorch wants one dtype)?"""
    if not op.startswith('einsum'):
        return op not in ('store',)
    ins, _, out = op.split(' ', 1)[1].replace(' ', '').partition('->')
    letters = ins.replace(',', '')
    return any(letters.count(c) > 1 and c not in out for c in letters)


def notes(I):
    out = set()
    for what, args, where in I.notes:
        at = ' > '.join(f'{m.replace(".", "/")}.py:{l}' for m, l in where if m.startswith('acetn'))
        if what == 'device' or what == 'cast' or (what == 'dtype' and (args[0] == 'store' or contracts(args[0]))):
            out.add(f'{what}: {args[0]} of {args[1]} and {args[2]} at {at}')
    return out


def scenario(*a, **k):
    try:
        return scenario_(*a, **k)
    finally:
        objects.OPAQUE[0] = False


def scenario_(R, dt, dev, L, what, code, ctm=None, ev=None, oev=None):
    label = f'{what}, {dt} on {dev}, {L[0]}x{L[1]}'
    real = not dt.startswith('complex')
    I = fresh(real)
    I.load('torch')
    I.cuda_available, I.cuda_count = True, 1
    if 'full update' in what:
        I.rules['no_faults'] = I.rules['no_while'] = objects.OPAQUE[0] = True
        if 'below' in what:
            I.rules['decide'] = faulty('shift', tnet.vn(tnet.scalar_tv(dim('cut'))))
    I.load('acetn.ipeps')
    if 'boundary' not in what:
        forget_values(I)
    d = {'phys': 2, 'bond': dim('D'), 'chi': dim('chi')}
    mk = lambda a, b: config(L[0], L[1], d, real, {'steps': 1, **(ctm or {})}, ev or {}, dtype=a, device=b)
    torch = I.load('torch')
    dtype = I.getattr(torch, dt)
    device = I.call(I.getattr(torch, 'device'), [dev], {})
    T = lambda n, *s: torchlib.mk(I, tnet.atom_tv((n,), s), torchlib.DTYPES[dt], device)
    other = mk('float32' if real else 'complex64', 'cpu' if dev == 'cuda' else 'cuda') if dt in ('float64', 'complex128') else mk('float64' if real else 'complex128', 'cpu' if dev == 'cuda' else 'cuda')
    g = dict(cfg=mk(dt, dev), other=other, dtype=dtype, device=device, h1=T('h1', 2, 2), h2=T('h2', 4, 4), torch=torch, **{n: dim(n) for n in ('u', 'v', 'w', 't')})
    del I.notes[:]
    ok, r = R.attempt('kept', label, lambda: script(I, CLIENT + code, **g), I)
    if not ok:
        return
    R.covers(I)
    for x, t in get_env(I, r['c'], L).items():
        R.ob('kept', f'{label}: {key_name(x)}', str(t.dtype) in (dt, 'torch.' + dt) and str(t.device).replace('device:', '').startswith(dev), f'the tensor is {t.dtype} on {t.device}')
    bad = sorted(notes(I))
    R.ob('unmixed', label, not bad, f'operations on tensors of different kinds: {bad[:4]}')


def run(R):
    tasks = []
    kinds = [('float32', 'cuda'), ('float64', 'cuda'), ('complex64', 'cuda'), ('complex128', 'cpu')]
    if R.tier == 'thorough':
        kinds = [(a, b) for a in ('float32', 'float64', 'complex64', 'complex128') for b in ('cuda', 'cpu')]
    add = lambda *a, **k: tasks.append(lambda: scenario(R, *a, **k))
    for dt, dev in kinds:
        for what, code in BASIC:
            add(dt, dev, (2, 1), what, code)
        for proj in ('half-system', 'full-system'):
            for svd in ('full-rank', 'rsvd'):
                add(dt, dev, (1, 1), f'renormalisation with {proj} {svd} projectors', 'c = Ipeps(cfg)\nc.renormalize()', {'projectors': proj, 'svd_type': svd})
        add(dt, dev, (1, 1), 'simple update', RUN + 'c.evolve(t, 1)\nr = c.measure()', {}, {'update_type': 'simple'})
        add(dt, dev, (1, 1), 'simple update with an operator model', RUN.replace('M', 'P') + 'c.evolve(t, 1)\nr = c.measure()', {}, {'update_type': 'simple'})
        for als in ('cholesky', 'pinv'):
            for fix in (True, False):
                for backend in ('torch',):
                    add(dt, dev, (1, 1), f'full update, {als} solver, gauge fixing {fix}', RUN + 'c.evolve(t, 1)', {}, {'update_type': 'full', 'als_method': als, 'use_gauge_fix': fix, 'backend': backend, 'als_niter': 3})
        add(dt, dev, (1, 1), 'full update, smallest eigenvalue below the cutoff', RUN + 'c.evolve(t, 1)', {}, {'update_type': 'full', 'positive_approx_cutoff': dim('cut'), 'als_niter': 1})
        for m, par in (('ising', '{"jz": u, "hx": v}'), ('heisenberg', '{"J": u}')):
            add(dt, dev, (1, 1), f'{m} model', f'cfg["model"] = {{"name": "{m}", "params": {par}}}\nc = Ipeps(cfg)\nc.evolve(t, 1)\nr = c.measure()', {}, {'update_type': 'simple'})
    R.parallel(tasks)
    R.expect('kept', 200)
    R.expect('unmixed', 60)
