"""Projector pair of a cut = truncated SVD of the half/full system around it; every option agrees."""
from fractions import Fraction
from .moves import *


def quarter(k, s, L, env):
    """rows: open end of E[k] and leg k+2 of the site; columns: open end of E[k-1] and leg k+3"""
    A = tnet.permute(env['A', s], [(i + k) % 4 for i in range(4)] + [4])
    return tnet.einsum([env['C', k % 4, s], env['E', k % 4, s], env['E', (k + 3) % 4, s], A, tnet.conj(A)],
                       'ab,bcuU,ealL,lurdp,LURDp->crRedD')


def as_matrix(v, nrow):
    sh = v.shape
    return tnet.reshape(v, (tnet.prod(sh[:nrow]), tnet.prod(sh[nrow:])))


def hook_lowrank(I, log):
    """contract of the randomized SVD helpers (decided separately): the leading q singular triplets of the product"""
    m = I.load('acetn.linalg')
    n = 0
    for name, cnt in (('svd_lowrank', 1), ('fused_matmul_svd_lowrank', 2), ('fused_3matmul_svd_lowrank', 4)):
        f = m.box.content.get(name)
        if not isinstance(f, PFunc):
            continue
        n += 1

        def handler(I, f, args, kw, proceed, cnt=cnt):
            b = I.bind(f, args, kw)
            mats = list(b.values())[:cnt]
            v = I.resolve(mats[0]).v
            for x in mats[1:]:
                v = tnet.matmul(v, I.resolve(x).v)
            U, S, Vh = tnet.svd(v, False)
            q = b.get('q')
            log.append((f.name, q, v, I.where[-1]))
            d = I.resolve(mats[0]).dtype
            return (torchlib.mk(I, U, d, torchlib.CPU), torchlib.mk(I, S, torchlib.real_dtype(d), torchlib.CPU),
                    torchlib.mk(I, tnet.conj(tnet.permute(Vh, (1, 0))), d, torchlib.CPU))
        I.hooks[f] = handler
    return n


def check_rank(R, I, z, S, chi, cutoff, label):
    """retained rank = number of singular values above cutoff relative to the largest, at most chi"""
    z = I.resolve(z)
    cs = [c for c in I.counts if isinstance(z, Poly) and str(c) in str(z)]
    R.ob('rank-cap', label, poly.compare('<=', z, chi) is True, f'the retained rank {z} is not bounded by chi')
    R.ob('rank-kept', label, any(z == poly.min_(chi, c) for c in I.counts),
         f'the retained rank {z} is not min(chi, number of kept singular values)')
    for c in cs:
        t = I.counts[c]
        m = t.meta
        if not (isinstance(m, tuple) and m[0] == 'cmp'):
            R.lost(f'{label}: the counted condition has no comparison form')
            continue
        _, op, a, b = m
        ratio = tnet.mul(a, tnet.pow_(b, -1))
        want = tnet.mul(S, tnet.pow_(tnet.index(S, (0,)), -1))
        want = tnet.scale(want, poly.power(cutoff, -1))
        ok, msg = tnet.equal_all(ratio, want)
        R.ob('cutoff', label, ok and op in ('>', '>='), f'kept singular values are not those with s/s_max > cutoff: {msg or op}')


def run(R):
    L = (3, 3)
    real = False
    cutoff = dim('cutoff')
    over = dim('oversampling')
    for proj in ('half-system', 'full-system'):
        for st in ('full-rank', 'rsvd'):
            I, ip = lattice(L, real, ctmrg={'projectors': proj, 'svd_type': st, 'svd_cutoff': cutoff, 'rsvd_oversampling': over})
            log = []
            nl = hook_lowrank(I, log)
            conf = I.getattr(I.getattr(ip, 'config'), 'ctmrg')
            calc = I.call(sym(I, 'acetn.renormalization.projectors', 'ProjectorCalculator'), [conf], {})
            f = I.getattr(calc, 'calculate')
            env = named_env(L)
            chi = dim('chi')
            for k in range(4):
                for s in [(0, 0), (1, 2)] if R.tier == 'quick' else sites_of(L):
                    label = f'{proj}/{st} direction {k} at {s}'
                    sites = expected_sites(k, s, L)
                    del log[:]
                    I.counts.clear()
                    ok, r = R.attempt('projector', label, lambda: I.call(f, [ip, PList(list(sites))], {'k': k}), I)
                    if not ok:
                        continue
                    P1, P2 = [I.resolve(x) for x in I.iterate(r)]
                    Q = [quarter(k + i, x, L, env) for i, x in enumerate(sites)]
                    M = [as_matrix(x, 3) for x in Q]
                    if proj == 'half-system':
                        R1, R2 = M[0], M[3]
                    else:
                        R1, R2 = tnet.matmul(M[1], M[0]), tnet.matmul(M[3], M[2])
                    U, S, Vh = tnet.svd(tnet.matmul(R1, R2), False)
                    V = tnet.conj(tnet.permute(Vh, (1, 0)))
                    z = P1.shape[-1]
                    is2 = tnet.pow_(S, Fraction(-1, 2))
                    sl = slice(0, z)
                    w1 = tnet.einsum([R1, tnet.conj(U), is2], 'xc,xz,z->cz')
                    w2 = tnet.einsum([R2, V, is2], 'cy,yz,z->cz')
                    w1 = tnet.index(w1, (slice(None), sl))
                    w2 = tnet.index(w2, (slice(None), sl))
                    sh = cut_dims(k, s, L) + (z,)
                    for nm, got, w in (('first', P1, w1), ('second', P2, w2)):
                        R.ob('projector', f'{nm} projector, {label}', *tnet.equal_all(got.v, tnet.reshape(w, sh), True))
                    check_rank(R, I, z, S, chi, cutoff, label)
                    R.ob('low-rank-size', label, all(poly.compare('>=', q, chi) is True for _, q, _, _ in log),
                         f'fewer singular triplets requested than chi: {[(n, q) for n, q, _, _ in log]}')
            R.covers(I)
    R.expect('projector', 64)
    R.expect('rank-cap', 32)
    R.expect('cutoff', 32)
