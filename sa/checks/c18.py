"""The compiled solver computes what the PyTorch solver computes: the C++ sources, as clang parses them, and the Python solver are both
reduced to terms over the same unknown inputs."""
from .moves import *
from .. import cxx, tnet, poly

SRC = '''
from acetn.evolution.als_solver import ALSSolver
class Config:
    als_niter, als_tol, als_method, als_epsilon = niter, tol, method, eps
    backend = which
r = ALSSolver(n12, a12g, shape, Config()).solve()
'''
PROG = []


def program():
    if not PROG:
        from ..world import ROOT
        PROG.append(cxx.Program(ROOT))
    return PROG[0]


def solve(R, label, which, dtype, method, niter, cx=None, decide=None, rule='equal'):
    """one run of the solver -> (results, guards asked, inputs unchanged, interpreter)"""
    I = fresh(dtype.startswith('float'))
    I.rules['no_faults'] = True
    asked = []

    def dec(g):
        asked.append(g.key)
        return decide(g.key) if decide else (False if g.key[0] == 'tlt' else None)
    I.rules['decide'] = dec
    torch = I.load('torch')
    D = I.getattr(torch, dtype)
    nD, bD, pD = dim('nD'), dim('bD'), dim('pD')

    def T(name, sh):
        t = tobj(I, tnet.atom_tv((name,), sh), dtype.startswith('float'))
        return I.call_method(t, 'to', [D], {})
    n12, a12g = T('n12', (nD,) * 4), T('a12g', (nD, nD, pD, pD))
    before = [tnet.vn(t.v) for t in (n12, a12g)]
    C = None
    if which == 'cutensor':
        C = cxx.Cxx(program(), I, **(cx or {}))
        I.modules['acetn.evolution._extensions._C_cutensor'] = PModule('_C_cutensor', C.module())
    ok, g = R.attempt(rule, label, lambda: script(I, SRC, n12=n12, a12g=a12g, shape=(nD, bD, pD), niter=niter, tol=dim('tol'), eps=dim('eps'), method=method, which=which), I)
    R.covers(I)
    if C is not None:
        for f, n in C.calls.items():
            R.functions[f] = R.functions.get(f, 0) + n
    if not ok:
        return None
    r = [I.resolve(x) for x in I.iterate(g['r'])]
    return r, asked, [tnet.vn(t.v) for t in (n12, a12g)] == before, I, C


def compare(R, label, a, b):
    for i, (x, y) in enumerate(zip(a[0], b[0]), 1):
        ok, why = tnet.equal_all(x.v, y.v)
        R.ob('equal', f'{label}: tensor {i}', ok, f'the compiled solver returns another tensor: {why}')
        R.ob('type', f'{label}: tensor {i}', str(x.dtype) == str(y.dtype) and str(x.device) == str(y.device), f'the compiled solver returns {y.dtype} on {y.device}, the PyTorch solver {x.dtype} on {x.device}')
    R.ob('inputs', label, b[2], 'the compiled solver changes the tensors it is given')


def one(R, dtype, method, niter, cx, name):
    label = f'{dtype}, {method}, {niter} iterations, {name}'
    a = solve(R, label, 'torch', dtype, method, niter)
    b = solve(R, label, 'cutensor', dtype, method, niter, cx)
    if not a or not b:
        return
    compare(R, label, a, b)
    # leaving the iteration early: at the same iteration, on the same condition
    ga, gb = ([k for k in x[1] if k[0] == 'tlt'] for x in (a, b))
    R.ob('stop', f'{label}: conditions', not (niter > 2 and not (ga and gb)), 'the iteration cannot end before the largest number of iterations')
    if niter < 3 or cx:
        return
    for k in dict.fromkeys(ga + gb):
        pick = lambda g, k=k: (g == k) if g[0] == 'tlt' else None
        a1, b1 = solve(R, label, 'torch', dtype, method, niter, None, pick), solve(R, label, 'cutensor', dtype, method, niter, cx, pick)
        if a1 and b1:
            compare(R, f'{label}, stop on condition {list(dict.fromkeys(ga + gb)).index(k)}', a1, b1)


def run(R):
    program()
    tasks = []
    for dtype in ('float32', 'float64', 'complex64', 'complex128'):
        for method in ('cholesky', 'pinv'):
            for niter in (0, 1, 2, 4) if R.tier == 'quick' else (0, 1, 2, 3, 4, 5, 6):
                tasks.append(lambda a=(dtype, method, niter, {}, 'no workspace'): one(R, *a))
            tasks.append(lambda a=(dtype, method, 1, {'workspace': dim('ws')}, 'workspace'): one(R, *a))
            tasks.append(lambda a=(dtype, method, 1, {'workspace': dim('ws'), 'no_room': 1}, 'workspace, no room at first'): one(R, *a))
    R.parallel(tasks)
    R.expect('equal', 60)
