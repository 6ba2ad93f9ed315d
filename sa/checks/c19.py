"""Randomized low-rank SVD helpers: U S V^H is the SVD of the product projected on the range found by power iteration."""
from ..world import *
from .. import tnet
from ..tnet import Net, TV


def one_net(v):
    v = tnet.simplify_tv(tnet.tv(tnet.resolve(v)))
    if len(v.terms) != 1:
        return None
    return v.terms[0][1]


def strip(v, chain, adj):
    """v = F X (adj: F^H X) with F the product of the named matrices: X, else None"""
    n = one_net(v)
    if n is None or len(n.outs) != 2 or len(n.outs[0]) != 1:
        return None
    atoms = list(n.atoms)
    w = n.outs[0][0]
    for lab in (reversed(chain) if adj else chain):
        a, b = (1, 0) if adj else (0, 1)
        hit = [x for x in atoms if x.label == lab and x.conj == (adj and not tnet.ALL_REAL[0]) and x.legs[a] == w and x.pow == 1]
        if len(hit) != 1:
            return None
        atoms = [x for x in atoms if x is not hit[0]]
        w = hit[0].legs[b]
    dims = {u: n.dims[u] for u in n.dims if u == w or any(u in x.legs for x in atoms) or u in n.outs[1]}
    return TV((n.dims[w], v.shape[1] if hasattr(v, 'shape') else n.dims[n.outs[1][0]]), [(1, Net(atoms, [(w,), n.outs[1]], dims))])


def is_q(v):
    """v = Q factor of the QR of some value (not conjugated): that value"""
    n = one_net(v)
    if n is None or len(n.atoms) != 1:
        return None
    a = n.atoms[0]
    if tnet.kind(a.label) == 'qrQ' and not a.conj and a.pow == 1 and tuple(a.legs) == tuple(tnet.flat_outs(n)):
        return tnet.VN[a.label[1]]
    return None


def range_steps(v, chain):
    """number of power iterations by which v spans the dominant range of F: None when it does not"""
    x = strip(v, chain, False)
    if x is None:
        return None
    n = one_net(x)
    if n is not None and len(n.atoms) == 1 and tnet.kind(n.atoms[0].label) == 'rand':
        return 0
    y = is_q(x)                       # orthonormalised half step
    x2 = strip(y if y is not None else x, chain, True)
    if x2 is None:
        return None
    q = is_q(x2)
    r = range_steps(q if q is not None else x2, chain)
    return None if r is None else r + 1


def run(R):
    for name, cnt in (('svd_lowrank', 1), ('fused_matmul_svd_lowrank', 2), ('fused_3matmul_svd_lowrank', 4)):
        for niter in range(0, 4 if R.tier == 'quick' else 7):
            for real in (False, True):
                I = fresh(real)
                f = sym(I, 'acetn.linalg', name)
                ds = [dim(f'm{i}') for i in range(cnt + 1)]
                chain = [('M', i) for i in range(cnt)]
                q = dim('q')
                mats = [tobj(I, tnet.atom_tv(chain[i], (ds[i], ds[i + 1])), real) for i in range(cnt)]
                label = f'{name} niter={niter} {"real" if real else "complex"}'
                ok, r = R.attempt('factors', label, lambda: I.call(f, mats, {'q': q, 'niter': niter}), I)
                if not ok:
                    continue
                U, S, V = [I.resolve(x) for x in I.iterate(r)]
                want = poly.min_(q, ds[0], ds[-1])
                R.ob('rank', label, U.shape[1] == want and V.shape[1] == want and S.shape[0] == want,
                     f'U, S, V have {U.shape[1]}, {S.shape[0]}, {V.shape[1]} columns instead of {want}')
                check_factors(R, label, U, S, V, chain, niter, real)
                dts = [U.dtype, V.dtype]
                d = torchlib.DTYPES['float64' if real else 'complex128']
                R.ob('dtype', label, all(x == d for x in dts) and not [n for n in I.notes if n[0] == 'dtype'],
                     f'result dtypes {dts}, input {d}; {[n for n in I.notes if n[0] == "dtype"]}')
                R.covers(I)
    R.expect('factors', 20)
    R.expect('range', 20)


def check_factors(R, label, U, S, V, chain, niter, real):
    n = one_net(S.v)
    a = n.atoms[0] if n is not None and len(n.atoms) == 1 else None
    if a is None or tnet.kind(a.label) != 'svdS' or a.pow != 1:
        R.fail('factors', label, f'the returned singular values are not those of one decomposition: {S.v}')
        return
    j = a.label[1]
    B = tnet.VN[j]
    # U = Q U_B
    nu = one_net(U.v)
    qa = [x for x in nu.atoms if tnet.kind(x.label) == 'qrQ'] if nu else []
    if len(qa) != 1:
        R.fail('factors', label, f'the left vectors are not an orthonormal basis times singular vectors: {U.v}')
        return
    qi = qa[0].label[1]
    Q = TV((U.shape[0], B.shape[0]), [(1, Net([tnet.Atom(qa[0].label, (w0 := tnet.new_wire(), w1 := tnet.new_wire()))],
                                             [(w0,), (w1,)], {w0: U.shape[0], w1: B.shape[0]}))])
    Us, Ss, Vhs = tnet.svd(B, False)
    ok1, m1 = tnet.equal_all(U.v, tnet.matmul(Q, Us))
    ok2, m2 = tnet.equal_all(V.v, tnet.conj(tnet.permute(Vhs, (1, 0))))
    F = tnet.atom_tv(chain[0], (U.shape[0], None)) if False else None
    R.ob('factors', label, ok1 and ok2, m1 or m2)
    # B = Q^H F
    n = one_net(B)
    want = None
    if n is not None:
        q2 = [x for x in n.atoms if tnet.kind(x.label) == 'qrQ']
        ok = len(q2) == 1 and q2[0].label[1] == qi and q2[0].conj == (not real) and len(n.atoms) == len(chain) + 1 and \
            q2[0].legs[1] == n.outs[0][0]
        if ok:
            w = q2[0].legs[0]
            for lab in chain:
                h = [x for x in n.atoms if x.label == lab and not x.conj and x.legs[0] == w]
                if len(h) != 1:
                    ok = False
                    break
                w = h[0].legs[1]
            ok = ok and w == n.outs[1][0]
        R.ob('projected', label, ok, f'the decomposed matrix is not Q^H times the product: {B}')
    else:
        R.fail('projected', label, f'the decomposed matrix is not Q^H times the product: {B}')
    st = range_steps(tnet.VN[qi], chain)
    R.ob('range', label, st is not None and st >= niter, f'the basis is {"not in the dominant range of the product" if st is None else f"refined by {st} power iterations"}, {niter} requested: {tnet.VN[qi]}')
