"""The full update of a bond: gate, norm tensor of the environment of the bond, gauge fixing, normal equations, recombination."""
from fractions import Fraction
from .moves import *
from .. import torchlib
from .c11 import bond_ring, frame, make_bond

OPT = {'gauge_fix_atol': dim('atol'), 'positive_approx_cutoff': dim('cut'), 'als_epsilon': dim('eps'), 'als_tol': dim('tol')}
GATE = '''
class G:
    wrap_one_site = wrap
    def __getitem__(self, key):
        return two if isinstance(key, Bond) else one(key)
gate = G()
'''


def mat(v, nrow):
    sh = v.shape
    return tnet.reshape(v, (tnet.prod(sh[:nrow]), tnet.prod(sh[nrow:])))


def reduce_pair(a1, a2, p):
    """site tensors in the frame of the bond -> isometric parts (r d u y), (d l u x) and reduced tensors (y l p), (x r p)"""
    D = a1.shape[0]
    out = []
    for a, eq in ((a1, 'lurdp->rdulp'), (a2, 'lurdp->dlurp')):
        q, r = tnet.qr(mat(tnet.einsum([a], eq), 3))
        n = q.shape[1]
        out += [tnet.reshape(q, (D, D, D, n)), tnet.reshape(r, (n, D, p))]
    return out


def norm_tensor(k, s1, s2, env, q1, q2):
    """yxYX: environment of the bond with the isometric parts; legs of q1 are r d u y, of q2 d l u x in the frame of k"""
    ops, eqs = bond_ring(k, s1, s2, env)
    ops += [q1, tnet.conj(q1), q2, tnet.conj(q2)]
    # in bond_ring: s1 has legs lurd / LURD, s2 has w x . z: its left w, up x, down z
    eqs += ['rdum', 'RDUM', 'zwxn', 'ZWXN']
    return tnet.einsum(ops, ','.join(eqs) + '->mnMN')


def truncated(g, D):
    n, p = g.shape[0], g.shape[2]
    U, S, Vh = tnet.svd(mat(tnet.einsum([g], 'yxpq->ypxq'), 2))
    sl = slice(0, D)
    s = tnet.pow_(tnet.index(S, (sl,)), Fraction(1, 2))
    a1 = tnet.einsum([tnet.reshape(tnet.index(U, (slice(None), sl)), (n, p, D)), s], 'ypu,u->yup')
    a2 = tnet.einsum([tnet.reshape(tnet.index(Vh, (sl, slice(None))), (D, n, p)), s], 'vxq,v->xvq')
    return a1, a2


def solve(Rm, S, method, eps):
    n, D, p = S.shape
    S, Rm = mat(S, 2), mat(Rm, 2)
    Rm = tnet.scale(tnet.add(Rm, tnet.conj(tnet.permute(Rm, (1, 0)))), Fraction(1, 2))
    if method == 'cholesky':
        m = tnet.scalar_fn(Rm, 'absmax')
        Rm = tnet.add(Rm, tnet.mul(tnet.scale(tnet.delta_tv(Rm.shape[0]), eps), m))
        X = tnet.inverse(Rm)
    else:
        X = tnet.inverse(Rm, 'pinv')
    return tnet.reshape(tnet.matmul(X, S), (n, D, p))


def als(n12, g, D, niter, method, eps):
    a1, a2 = truncated(g, D)
    ng = tnet.einsum([n12, g], 'yxYX,yxpq->YXpq')
    for _ in range(niter):
        c = tnet.conj(a2)
        a1 = solve(tnet.einsum([n12, a2, c], 'yxYX,xuq,XUq->YUyu'), tnet.einsum([ng, c], 'YXpQ,XUQ->YUp'), method, eps)
        c = tnet.conj(a1)
        a2 = solve(tnet.einsum([n12, a1, c], 'yxYX,yvp,YVp->XVxv'), tnet.einsum([ng, c], 'YXPq,YVP->XVq'), method, eps)
    return a1, a2


def gauge(nz, g):
    """reduced tensors are expressed in the triangular factors of the root of the norm tensor"""
    n = g.shape[0]
    _, ry = tnet.qr(mat(tnet.einsum([nz], 'yxz->zxy'), 2))
    _, rx = tnet.qr(mat(tnet.einsum([nz], 'yxz->zyx'), 2))
    iy, ix = tnet.inverse(ry, 'pinv'), tnet.inverse(rx, 'pinv')
    m = tnet.einsum([nz, iy, ix], 'yxz,yv,xw->zvw')
    return (tnet.einsum([m, tnet.conj(m)], 'zvw,zVW->vwVW'), tnet.einsum([ry, rx, g], 'vy,wx,yxpq->vwpq'), iy, ix)


def oracle(k, s1, s2, env, p, gf, niter, method, one=None, fault=None, I=None):
    """the product of the two new tensors, contracted over the bond, legs (r d u p)(d l u q) in the frame of k"""
    a1, a2 = frame(env['A', s1], k), frame(env['A', s2], k)
    D = a1.shape[0]
    q1, r1, q2, r2 = reduce_pair(a1, a2, p)
    n12 = norm_tensor(k, s1, s2, env, q1, q2)
    gate = tnet.atom_tv(('gate',), (p,) * 4)
    g = tnet.einsum([r1, r2, gate], 'yap,xaq,rspq->yxrs')
    n = g.shape[0]
    N = mat(n12, 2)
    if fault == 'eigh':
        Z, W, _ = tnet.svd(N)
    else:
        W, Z = tnet.eigh(N)
    if fault == 'shift':
        # twice the deficiency, or twice the cutoff, on the diagonal
        w = tnet.index(W, (0,))
        w = pylib._minmax(I, [OPT['positive_approx_cutoff'], tobj(I, torchlib.absv(w), True)], {}, 'max')
        N = tnet.add(N, tnet.scale(tnet.delta_tv(N.shape[0]), poly.mul(2, w)))
        W, Z = tnet.eigh(N)
    nz = tnet.reshape(tnet.einsum([Z, tnet.pow_(W, Fraction(1, 2))], 'az,z->az'), (n, n, poly.mul(n, n)))
    if gf:
        n12, g, iy, ix = gauge(nz, g)
    else:
        n12 = tnet.einsum([nz, tnet.conj(nz)], 'yxz,YXz->yxYX')
    b1, b2 = als(n12, g, D, niter, method, OPT['als_epsilon'])
    if gf:
        b1, b2 = tnet.einsum([iy, b1], 'yz,zup->yup'), tnet.einsum([ix, b2], 'xz,zup->xup')
    if one:
        b1, b2 = tnet.einsum([one[0], b1], 'qp,yup->yuq'), tnet.einsum([one[1], b2], 'qp,yup->yuq')
    return tnet.einsum([q1, b1, q2, b2], 'rduy,yap,eltx,xaq->rdupeltq')


def updater(I, ip, p, real, wrap=True):
    one = pylib.fn('one', lambda I, a, k: tobj(I, one_atom(tuple(I.resolve(x) for x in I.iterate(a[0])), p), real))
    g = script(I, GATE, two=tobj(I, tnet.atom_tv(('gate',), (p,) * 4), real), wrap=wrap, one=one, Bond=sym(I, 'acetn.ipeps.bond', 'Bond'))['gate']
    conf = I.getattr(I.getattr(ip, 'config'), 'evolution')
    return I.call(sym(I, 'acetn.evolution.fast_full_update', 'FastFullUpdater'), [ip, g, conf], {})


def one_atom(s, p):
    return tnet.atom_tv(('one', s), (p, p))


def faulty(fault, cut):
    """path of the update on which one step fails: the smallest eigenvalue of the norm tensor lies below the cutoff once ('shift'),
    or a decomposition does not converge"""
    first = []

    def decide(g):
        k = g.key
        if k[0] == 'tlt' and cut in k[1:]:
            first.append(k)
            low = k[2] == cut
            return low == (fault == 'shift' and k == first[0])
        if k[0] == 'raises':
            return k[1][0] == fault
        return None
    return decide


def faults(R):
    L, s1, p = (3, 3), (1, 0), 2
    for fault, gf, method in [('shift', True, 'pinv'), ('eigh', False, 'pinv'), ('cholesky', False, 'cholesky')]:
        for k in (0, 3):
            I, ip = lattice(L, False, p, evolution={'use_gauge_fix': gf, 'als_niter': int(fault != 'shift'), 'als_method': method, **OPT})
            I.rules['decide'] = faulty(fault, tnet.vn(tnet.scalar_tv(OPT['positive_approx_cutoff'])))
            env = named_env(L, p)
            s2 = shift(s1, k, L)
            label = f'bond {s1}-{s2} direction {k}, ' + {'shift': 'smallest eigenvalue below the cutoff', 'eigh': 'no eigendecomposition', 'cholesky': 'no Cholesky factor'}[fault] + (', gauge fixed' if gf else '')

            def go():
                r = I.call_method(updater(I, ip, p, False), 'update', [make_bond(I, s1, s2, k)])
                return [I.resolve(x) for x in I.iterate(I.resolve(r))][:2]
            ok, r = R.attempt('fault', label, go, I)
            if ok:
                R.ob('fault', label, *tnet.equal_all(pair(r[0].v, r[1].v, k), oracle(k, s1, s2, env, p, gf, int(fault != 'shift'), method, fault=fault, I=I), True))
            R.covers(I)
    R.expect('fault', 6)


def pair(a1, a2, k):
    return tnet.einsum([frame(a1, k), frame(a2, k)], 'aurdp,ltaeq->rdupeltq')


def update(R):
    """a whole update of a bond on the branch without numerical faults"""
    P = dim('p')
    for L, s1, real, gf, niter, method, p, wrap in [
            ((3, 3), (0, 0), False, True, 1, 'cholesky', P, True), ((3, 3), (1, 2), True, False, 1, 'cholesky', P, True),
            ((2, 2), (1, 0), False, True, 0, 'pinv', 2, False), ((2, 1), (0, 0), True, False, 2, 'pinv', 3, True),
            ((2, 2), (0, 1), False, False, 1, 'cholesky', 2, False), ((3, 3), (2, 2), True, True, 2, 'pinv', P, True)]:
        for k in range(4):
            s2 = shift(s1, k, L)
            if s2 == s1:
                continue
            I, ip = lattice(L, real, p, evolution={'use_gauge_fix': gf, 'als_niter': niter, 'als_method': method, **OPT})
            I.rules['no_faults'] = I.rules['no_while'] = True
            env = named_env(L, p)
            label = f'bond {s1}-{s2} direction {k} of {L[0]}x{L[1]}, ' + ('gauge fixed, ' if gf else '') + f'{method}, {niter} iterations, p={p}' + ('' if wrap else ', one-site gates apart')

            def go():
                up = updater(I, ip, p, real, wrap)
                r = I.call_method(up, 'update', [make_bond(I, s1, s2, k)])
                return [I.resolve(x) for x in I.iterate(I.resolve(r))][:2]
            ok, r = R.attempt('update', label, go, I)
            if not ok:
                continue
            one = None if wrap else (one_atom(s1, p), one_atom(s2, p))
            w = oracle(k, s1, s2, env, p, gf, niter, method, one)
            R.ob('update', label, *tnet.equal_all(pair(r[0].v, r[1].v, k), w, True))
            for i, x in enumerate(r):
                R.ob('update-shape', f'{label}: tensor {i + 1}', all(tnet.dim_eq(a, b) for a, b in zip(x.shape, A_dims(s1, p))), f'shape {x.shape}')
            compare_env(R, 'update-others', label, get_env(I, ip, L), {}, env)
            R.covers(I)
    R.expect('update', 20)


def run(R):
    update(R)
    faults(R)
