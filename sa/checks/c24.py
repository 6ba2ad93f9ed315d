"""Every configured option reaches the algorithm it names; omitted ones have the documented defaults; wrong ones are rejected."""
from fractions import Fraction
from .moves import *
from .c08 import fresh_env_hook, lines_of
from .c09 import hook_lowrank
from .c11 import make_bond
from .c15 import updater
from .c17 import updaters

DOC = {'ctmrg': {'steps': 40, 'projectors': 'half-system', 'svd_type': 'rsvd', 'svd_cutoff': Fraction(1, 10**12), 'rsvd_niter': 2, 'rsvd_oversampling': 2, 'disable_progressbar': False},
       'evolution': {'backend': 'torch', 'update_type': 'full', 'use_gauge_fix': True, 'gauge_fix_atol': Fraction(1, 10**12), 'positive_approx_cutoff': Fraction(1, 10**12),
                     'als_niter': 100, 'als_tol': Fraction(1, 10**15), 'als_method': 'cholesky', 'als_epsilon': Fraction(1, 10**12), 'disable_progressbar': False}}
NUMERIC = {'steps': 7, 'svd_cutoff': dim('o1'), 'rsvd_niter': 5, 'rsvd_oversampling': 9, 'gauge_fix_atol': dim('o2'), 'positive_approx_cutoff': dim('o3'),
           'als_niter': 17, 'als_tol': dim('o4'), 'als_epsilon': dim('o5')}
CHOICES = {'projectors': ('half-system', 'full-system'), 'svd_type': ('rsvd', 'full-rank'), 'backend': ('torch',), 'update_type': ('full', 'simple'), 'als_method': ('cholesky', 'pinv'),
           'use_gauge_fix': (True, False), 'disable_progressbar': (True, False)}


def number(x):
    return Fraction(repr(x)) if isinstance(x, float) else x


def same_value(a, b):
    a, b = number(a), number(b)
    if isinstance(a, bool) or isinstance(b, bool) or isinstance(a, str):
        return a is b or a == b
    return isinstance(a, (int, Fraction, Poly)) and poly.compare('==', a, b) is True


def defaults(R):
    """what an omitted entry means, in every combination of omitted sections, and that one given entry leaves the others alone"""
    def conf(I, c):
        return I.getattr(I.call(sym(I, 'acetn.ipeps', 'Ipeps'), [up(c)], {}), 'config')

    def check(I, cf, label, given=()):
        for sec, opts in DOC.items():
            s = I.getattr(cf, sec)
            for o, v in opts.items():
                w = dict(given).get((sec, o), v)
                got = I.resolve(I.getattr(s, o))
                R.ob('value', f'{label}: {sec}.{o}', same_value(got, w), f'is {got!r}, {w!r} is required')
    I = fresh(True)
    plain_boundary(I)
    for empty in ({}, {'ctmrg': {}}, {'evolution': {}}, {'model': {}}, {'ctmrg': {}, 'evolution': {}, 'model': {}}):
        label = f'sections given: TN {" ".join(empty)}'
        ok, cf = R.attempt('value', label, lambda: conf(I, {'TN': {}, **empty}), I)
        if ok:
            check(I, cf, label)
            tn = I.getattr(cf, 'TN')
            for o, w in (('nx', 2), ('ny', 2)):
                R.ob('value', f'{label}: TN.{o}', I.resolve(I.getattr(tn, o)) == w, f'{I.getattr(tn, o)!r} instead of {w}')
            for o, w in (('phys', 2), ('bond', 2), ('chi', 20)):
                R.ob('value', f'{label}: TN.dims.{o}', I.resolve(I.getitem(I.getattr(tn, 'dims'), o)) == w, f'{I.getitem(I.getattr(tn, "dims"), o)!r} instead of {w}')
            R.ob('value', f'{label}: dtype', str(I.resolve(I.getattr(cf, 'dtype'))).endswith('float64'), f'{I.getattr(cf, "dtype")!r}')
            R.ob('value', f'{label}: device', 'cpu' in str(I.resolve(I.getattr(cf, 'device'))), f'{I.getattr(cf, "device")!r}')
            R.ob('value', f'{label}: model', I.resolve(I.getattr(I.getattr(cf, 'model'), 'name')) is None, 'a model nobody asked for')
    for sec, opts in DOC.items():
        for o in opts:
            for v in ([NUMERIC[o]] if o in NUMERIC else CHOICES[o]):
                label = f'{sec}.{o}={v}'
                ok, cf = R.attempt('value', label, lambda: conf(I, {'TN': {'nx': 1, 'ny': 1}, sec: {o: v}}), I)
                if ok:
                    check(I, cf, label, {(sec, o): v}.items())
    for d in ({'bond': 3}, {'phys': 3}, {'chi': 7}, {'bond': 4, 'chi': 9}, {'phys': 3, 'bond': 4, 'chi': 9}):
        for n in ((1, 1), (3, 1), (1, 2)):
            label = f'dims {d} on {n}'
            ok, ip = R.attempt('value', label, lambda: I.call(sym(I, 'acetn.ipeps', 'Ipeps'), [up({'TN': {'nx': n[0], 'ny': n[1], 'dims': d}})], {}), I)
            if ok:
                w = {'phys': 2, 'bond': 2, 'chi': 20, **d}
                got = {k: I.resolve(I.getitem(I.getattr(ip, 'dims'), k)) for k in w}
                R.ob('value', label, got == w, f'{got} instead of {w}')
                ss = sorted(I.resolve(s) for s in I.iterate(I.getattr(ip, 'site_list')))
                R.ob('lattice', label, ss == sites_of(n), f'sites {ss}')
                A = I.getitem(I.getitem(ip, (0, 0)), 'A')
                R.ob('lattice', f'{label}: site tensor', tuple(A.shape) == (w['bond'],) * 4 + (w['phys'],), f'shape {A.shape}')
    R.covers(I)
    for cuda, given, want in ((False, 'cuda', 'cpu'), (True, 'cuda', 'cuda'), (True, 'cpu', 'cpu'), (False, 'cpu', 'cpu')):
        for obj in (False, True):
            I = fresh(True)
            plain_boundary(I)
            I.cuda_available = cuda
            d = script(I, 'd = torch.device(d)', torch=I.load('torch'), d=given)['d'] if obj else given
            label = f'device {given}{" object" if obj else ""}, CUDA {"available" if cuda else "not available"}'
            ok, ip = R.attempt('device', label, lambda: I.call(sym(I, 'acetn.ipeps', 'Ipeps'), [up({'TN': {'nx': 1, 'ny': 1}, 'device': d})], {}), I)
            if ok:
                A = I.getitem(I.getitem(ip, (0, 0)), 'A')
                R.ob('device', label, want in str(A.device), f'tensors on {A.device}')
    for name in ('float32', 'float64', 'complex64', 'complex128'):
        for obj in (False, True):
            I = fresh(False)
            plain_boundary(I)
            d = I.getattr(I.load('torch'), name) if obj else name
            label = f'dtype {name}{" object" if obj else ""}'
            ok, ip = R.attempt('dtype', label, lambda: I.call(sym(I, 'acetn.ipeps', 'Ipeps'), [up({'TN': {'nx': 1, 'ny': 1}, 'dtype': d})], {}), I)
            if ok:
                A = I.getitem(I.getitem(ip, (0, 0)), 'A')
                R.ob('dtype', label, name in str(A.dtype), f'tensors of {A.dtype}')
    R.expect('value', 400)


def renormalisation(R):
    real = True
    # number of sweeps and progress bar
    for steps in (0, 1, 3):
        for bar in (True, False):
            L = (1, 1)
            I, ip = lattice(L, real, ctmrg={'steps': steps, 'disable_progressbar': bar})
            log = []
            fresh_env_hook(I, ip, L, 2, real, log)
            label = f'steps={steps}, disable_progressbar={bar}'
            ok, _ = R.attempt('steps', label, lambda: I.call_method(ip, 'renormalize', []), I)
            if ok:
                n = [sum(1 for x in log if x[0] == k) for k in range(4)]
                R.ob('steps', label, n == [steps] * 4, f'moves per side: {n}')
                R.ob('progress', label, bool(I.pbars) and all(I.resolve(x) is bar for x in I.pbars), f'progress bar switched off: {I.pbars}')
    # projectors, decomposition, its parameters and cutoff
    L = (2, 2)
    for proj in ('half-system', 'full-system', None):
        for st in ('rsvd', 'full-rank', None):
            given = {'svd_cutoff': dim('o1'), 'rsvd_niter': dim('o2'), 'rsvd_oversampling': dim('o3')} if proj or st else {}
            opts = {**given, **({'projectors': proj} if proj else {}), **({'svd_type': st} if st else {})}
            I, ip = lattice(L, real, ctmrg=opts)
            log, args = [], []
            hook_lowrank(I, log)
            for f, h in list(I.hooks.items()):
                def wrap(I, f, a, kw, proceed, h=h):
                    args.append(I.bind(f, a, kw))
                    return h(I, f, a, kw, proceed)
                I.hooks[f] = wrap
            svds = []
            la = I.getattr(I.load('torch'), 'linalg')
            mover = I.call(sym(I, 'acetn.renormalization.directional_mover', 'DirectionalMover'), [I.getattr(I.getattr(ip, 'config'), 'ctmrg')], {})
            label = f'projectors={proj}, svd_type={st}' + (', other options given' if given else ', nothing given')
            ok, _ = R.attempt('projectors', label, lambda: I.call_method(mover, 'left_move', [ip, 0]), I)
            if not ok:
                continue
            proj_, st_ = proj or 'half-system', st or 'rsvd'
            R.ob('svd-type', label, bool(log) == (st_ == 'rsvd'), f'{len(log)} randomised decompositions')
            n = 4 if proj_ == 'full-system' else 2
            if st_ == 'rsvd' and log:
                for x in log:
                    c = corner_count(x[2])
                    R.ob('projectors', label, c == n, f'the decomposed matrix has {c} corners, {n} are required')
                for b in args:
                    q, it = I.resolve(b.get('q')), I.resolve(b.get('niter'))
                    R.ob('svd-parameters', label, same_value(it, given.get('rsvd_niter', 2)), f'power iterations {it!r}')
                    R.ob('svd-parameters', label, poly.compare('==', q, poly.add(dim('chi'), given.get('rsvd_oversampling', 2))) is True, f'size of the sample {q!r}')
            cs = [t.meta for t in I.counts.values()]
            R.ob('cutoff', label, bool(cs), 'no singular value is cut off')
            for m in cs:
                if not (isinstance(m, tuple) and m[0] == 'cmp'):
                    R.lost(f'{label}: the counted condition has no comparison form')
                    continue
                sing = svd_of(m[2]) or svd_of(m[3])
                ms = sing and sing[0]
                if ms is None:
                    R.lost(f'{label}: the counted condition has no singular values')
                    continue
                R.ob('projectors', label, corner_count(tnet.VN[ms]) == n, f'the decomposed matrix has {corner_count(tnet.VN[ms])} corners, {n} are required')
                S = sing[1]
                want = tnet.scale(tnet.mul(S, tnet.pow_(tnet.index(S, (0,)), -1)), poly.power(given.get('svd_cutoff', Fraction(1, 10**12)), -1))
                R.ob('cutoff', label, *tnet.equal_all(tnet.mul(m[2], tnet.pow_(m[3], -1)), want))
            R.covers(I)
    # boundary dimension changed later
    for st in ('rsvd', 'full-rank'):
        I, ip = lattice(L, real, ctmrg={'svd_type': st})
        hook_lowrank(I, [])
        chi2 = dim('chi2')
        I.call_method(ip, 'set_chi', [chi2])
        mover = I.call(sym(I, 'acetn.renormalization.directional_mover', 'DirectionalMover'), [I.getattr(I.getattr(ip, 'config'), 'ctmrg')], {})
        ok, _ = R.attempt('chi', f'set_chi, {st}', lambda: I.call_method(mover, 'up_move', [ip, 1]), I)
        if ok:
            C = [I.getitem(I.getitem(I.getitem(ip, s), 'C'), 1) for s in sites_of(L)]
            new = [d for c in C for d in c.shape if 'chi' in str(d) or 'count' in str(d)]
            R.ob('chi', f'set_chi, {st}', any('chi2' in str(d) for d in new) and not any('chi' in str(d).replace('chi2', '') for d in new), f'dimensions {new}')


def corner_count(v):
    seen = {}

    def count(i):
        if i not in seen:
            seen[i] = 0
            seen[i] = of(tnet.VN[i])
        return seen[i]

    def of(v):
        v = tnet.tv(v)
        n = v.terms[0][1]
        t = 0
        for a in n.atoms:
            l = a.label
            if tnet.kind(l) == 'C':
                t += 1
            elif isinstance(l, tuple) and l[0] in ('nest', 'mat'):
                t += count(l[1])
        return t
    return of(v)


def svd_of(v):
    v = tnet.resolve(v) if not isinstance(v, (int, Poly, Fraction)) else v
    if not isinstance(v, tnet.TV):
        return None
    for c, n in v.terms:
        for a in n.atoms:
            if tnet.kind(a.label) == 'svdS' and len(v.shape) == 1 and (a.legs[0],) == tuple(n.outs[0]):
                return a.label[1], tnet.TV(v.shape, [(1, tnet.Net([tnet.Atom(a.label, a.legs)], n.outs, {a.legs[0]: n.dims[a.legs[0]]}))])
    return None


def run_update(R, label, evo, decide=None, real=False, ext=None):
    """one full update with the given options: (interpreter, guards asked for) or None"""
    L, p = (2, 2), 2
    I, ip = lattice(L, real, p, evolution=evo) if ext is None else ext(L, p, evo)
    asked = []

    def dec(g):
        asked.append(g.key)
        if g.key[0] == 'raises':
            return False
        return decide(g.key) if decide else (False if g.key[0] == 'tlt' else None)
    I.rules['decide'] = dec
    f = I.load('acetn.evolution.full_update').box.content.get('build_norm_tensor')
    if isinstance(f, PFunc):
        # the options do not depend on its value
        def norm(I, f, a, kw, proceed):
            n = I.resolve(list(I.bind(f, a, kw).values())[-1]).shape[-1]
            return tobj(I, tnet.atom_tv(('n12',), (n,) * 4), real)
        I.hooks[f] = norm
    up_ = updater(I, ip, p, real)
    ok, r = R.attempt('evolution', label, lambda: I.call_method(up_, 'update', [make_bond(I, (0, 0), (1, 0), 2)]), I)
    R.covers(I)
    return (I, asked) if ok else None


def evolution(R):
    vn = lambda x: tnet.vn(tnet.scalar_tv(x))
    cut, tol, eps, atol = dim('o1'), dim('o2'), dim('o3'), dim('o4')
    base = {'positive_approx_cutoff': cut, 'als_tol': tol, 'als_epsilon': eps, 'gauge_fix_atol': atol}
    # which linear solver, how often
    for method in ('cholesky', 'pinv', None):
        for n in (0, 1, 3):
            for gf in ((True, False, None) if n < 3 else (False,)):
                evo = {**base, 'als_niter': n, **({'als_method': method} if method else {}), **({'use_gauge_fix': gf} if gf is not None else {})}
                label = f'als_method={method}, als_niter={n}, use_gauge_fix={gf}'
                r = run_update(R, label, evo)
                if not r:
                    continue
                I, asked = r
                m = method or 'cholesky'
                pv = [t for _, t in I.pinvs]
                g = 2 if gf in (True, None) else 0
                gauge = [t for t in pv if same_value(I.resolve(t.get('atol', 0)), atol)]
                als = [t for t in pv if same_value(I.resolve(t.get('rcond', t.get('rtol', 0))), eps)]
                R.ob('gauge-fix', label, len(gauge) == g, f'{len(gauge)} pseudo-inverses with the tolerance of the gauge fixing, {g} are required; all: {pv}')
                R.ob('als', label, len(als) == (2 * n if m == 'pinv' else 0), f'{len(als)} pseudo-inverses with als_epsilon, {2 * n if m == "pinv" else 0} are required; all: {pv}')
                R.ob('als', label, len(pv) == len(gauge) + len(als), f'pseudo-inverses with other tolerances: {pv}')
                R.ob('als', label, len(I.chols) == (2 * n if m == 'cholesky' else 0), f'{len(I.chols)} Cholesky factorisations, {2 * n if m == "cholesky" else 0} are required')
                low = [k for k in asked if k[0] == 'tlt' and vn(cut) in k[1:]]
                R.ob('cutoff-used', label, bool(low), 'positive_approx_cutoff is compared with nothing')
                if n == 3:
                    R.ob('tolerance-used', label, any(k[0] == 'tlt' and vn(tol) in k[1:] for k in asked), 'als_tol is compared with nothing')
    # the iteration ends at the tolerance and not before
    for conv in (True, False):
        label = f'error {"below" if conv else "above"} als_tol'
        r = run_update(R, label, {**base, 'als_niter': 6, 'use_gauge_fix': False},
                       lambda k: (k[2] == vn(tol)) == conv if k[0] == 'tlt' and vn(tol) in k[1:] else (False if k[0] == 'tlt' else None))
        if r:
            I, asked = r
            R.ob('tolerance-used', label, len(I.chols) < 12 if conv else len(I.chols) == 12, f'{len(I.chols) / 2} iterations of 6')


def backend(R):
    """the compiled solver: used when asked for and built, with the options of the run; the PyTorch solver otherwise"""
    base = {'als_niter': 4, 'als_tol': dim('o2'), 'als_epsilon': dim('o3'), 'use_gauge_fix': False}
    for built in (True, False):
        for want in ('torch', 'cutensor'):
            for method in ('cholesky', 'pinv'):
                calls = []

                def ext(L, p, evo):
                    I = fresh(False)
                    if built:
                        def solve(I, a, k):
                            calls.append([I.resolve(x) for x in a] + list(k.values()))
                            return (a[0], a[1])
                        I.modules['acetn.evolution._extensions._C_cutensor'] = PModule('_C_cutensor', {'als_solve': pylib.fn('als_solve', solve)})
                    return lattice(L, False, p, evolution=evo, I=I)
                label = f'backend={want}, extension {"built" if built else "not built"}, als_method={method}'
                r = run_update(R, label, {**base, 'backend': want, 'als_method': method}, None, False, ext)
                if not r:
                    continue
                R.ob('backend', label, len(calls) == int(built and want == 'cutensor'), f'{len(calls)} calls of the compiled solver')
                for c in calls:
                    ts, opts = [x for x in c if isinstance(x, TObj)], [x for x in c if not isinstance(x, TObj)]
                    R.ob('backend', f'{label}: options', len(ts) == 5 and len(opts) == 4 and all(same_value(a, b) for a, b in zip(opts, (4, dim('o2'), method, dim('o3')))), f'{opts}')


def schedule(R):
    """update type and progress bar of an evolution"""
    for typ in ('full', 'simple', None):
        for bar in (True, False, None):
            for L in ((2, 2),):
                evo = {**({'update_type': typ} if typ else {}), **({'disable_progressbar': bar} if bar is not None else {})}
                I, ip = lattice(L, True, 2, evolution=evo, ctmrg={'steps': 0, 'disable_progressbar': bar is not True})
                used = []
                ups = updaters(I)

                def upd(I, f, a, kw, proceed):
                    o = I.resolve(a[0])
                    used.append('full' if o.cls.lookup('absorb_bond') or o.cls.lookup('update_reduced_tensors') else 'simple')
                    return (0, 0)
                for f in ups:
                    I.hooks[f] = upd
                ren = sym(I, 'acetn.ipeps', 'Ipeps').lookup('renormalize')
                I.hooks[ren] = lambda I, f, a, kw, proceed: None
                label = f'update_type={typ}, disable_progressbar={bar}'
                I.setattr(ip, 'site_states_initialized', True)
                ok, _ = R.attempt('update-type', label, lambda: script(I, 'c.set_model(M, {"jz": 1.0, "hx": 1.0})\nc.evolve(0.1, 2)', c=ip, M=sym(I, 'acetn.model.models.ising', 'IsingModel')), I)
                if ok:
                    R.ob('update-type', label, bool(used) and set(used) == {typ or 'full'}, f'updates done: {sorted(set(used))}')
                    R.ob('progress', label, bool(I.pbars) and all(I.resolve(x) is (bar is True) for x in I.pbars), f'progress bar switched off: {I.pbars}')
    J = {'SLURM_JOB_ID': '1'}
    for env, off in (({}, False), (J, True), ({**J, 'SLURM_JOB_NAME': 'interactive'}, False), ({**J, 'SLURM_JOB_NAME': 'my-interactive-run'}, False),
                     ({**J, 'SLURM_JOB_PARTITION': 'interactive'}, False), ({**J, 'SLURM_JOB_NAME': 'prod', 'SLURM_JOB_PARTITION': 'gpu'}, True), ({'SLURM_JOB_NAME': 'prod'}, False)):
        for given in (None, False, True):
            I = fresh(True, env)
            plain_boundary(I)
            c = {'TN': {'nx': 1, 'ny': 1}}
            if given is not None:
                c.update(ctmrg={'disable_progressbar': given}, evolution={'disable_progressbar': given})
            label = f'environment {env}, disable_progressbar {given}'
            ok, ip = R.attempt('slurm', label, lambda: I.call(sym(I, 'acetn.ipeps', 'Ipeps'), [up(c)], {}), I)
            if ok:
                cf = I.getattr(ip, 'config')
                for sec in ('ctmrg', 'evolution'):
                    got = I.resolve(I.getattr(I.getattr(cf, sec), 'disable_progressbar'))
                    R.ob('slurm', f'{label}: {sec}', got is (off or bool(given)), f'{got!r}')


def rejections(R):
    def bad(label, cfg, then='', cls=None):
        I, ok, e = fresh(True), True, None
        plain_boundary(I)
        I.rules['no_faults'] = I.rules['no_while'] = True
        e = raises(I, 'from acetn.ipeps import Ipeps\nfrom acetn.model.models.ising import IsingModel\nc = Ipeps(cfg)\n' + then, cfg=up(cfg))
        R.ob('rejected', label, e is not None, 'accepted silently')
        return e
    T = {'TN': {'nx': 1, 'ny': 1}}
    m = 'c.set_model(IsingModel, {"jz": 1.0, "hx": 1.0})\n'
    bad('no TN section', {'dtype': 'float64'})
    bad('unknown entry at the top', {**T, 'colour': 1})
    bad('unknown entry in TN', {'TN': {'nx': 1, 'ny': 1, 'nz': 1}})
    bad('unknown entry in ctmrg', {**T, 'ctmrg': {'step': 4}})
    bad('unknown entry in evolution', {**T, 'evolution': {'niter': 4}})
    bad('unknown entry in model', {**T, 'model': {'parameters': {}}})
    for v in ('half', 'Full-System', 'none', 'full'):
        bad(f'ctmrg.projectors={v}', {**T, 'ctmrg': {'projectors': v, 'steps': 1}}, 'c.renormalize()')
    for v in ('svd', 'RSVD', 'full', ''):
        bad(f'ctmrg.svd_type={v}', {**T, 'ctmrg': {'svd_type': v, 'steps': 1}}, 'c.renormalize()')
    for v in ('Full', 'fast', 'simple-update', ''):
        bad(f'evolution.update_type={v}', {**T, 'ctmrg': {'steps': 0}, 'evolution': {'update_type': v}}, m + 'c.evolve(0.1, 1)')
    for v in ('numpy', 'Torch', 'cuda'):
        bad(f'evolution.backend={v}', {**T, 'evolution': {'backend': v}})
    for v in ('lu', 'Cholesky', 'qr'):
        bad(f'evolution.als_method={v}', {**T, 'evolution': {'als_method': v}})
    for v in ('float', 'double', 'int', 'float65', 'matrix'):
        if v in ('float65',):
            bad(f'dtype={v}', {**T, 'dtype': v})
    R.expect('rejected', 20)


def run(R):
    defaults(R)
    renormalisation(R)
    evolution(R)
    backend(R)
    schedule(R)
    rejections(R)
