"""The simple update: weights of the outer bonds, gate, truncation, new weights on the bond alone."""
from fractions import Fraction
from .moves import *
from .c12 import key
from .c15 import mat, reduce_pair, frame

GATE = '''
class G:
    wrap_one_site = wrap
    def __getitem__(self, key):
        return two(key) if isinstance(key, Bond) else one(key)
gate = G()
'''


def weigh(a, lam, s, skip, p):
    """every leg of the site tensor but one multiplied by the weight of its bond, to the power p"""
    for d in range(4):
        w = lam.get((s, d))
        if d != skip and w is not None:
            idx = 'lurdp'
            a = tnet.einsum([a, tnet.pow_(w, p)], f'lurdp,{idx[d]}->lurdp')
    return a


def oracle(env, lam, b, gate, D, p, one):
    s1, s2, k = b
    a1 = frame(weigh(env['A', s1], lam, s1, k, 1), k)
    a2 = frame(weigh(env['A', s2], lam, s2, (k + 2) % 4, 1), k)
    q1, r1, q2, r2 = reduce_pair(a1, a2, p)
    n = r1.shape[0]
    g = tnet.einsum([r1, r2, gate], 'yap,xaq,rspq->yrxs')
    U, S, Vh = tnet.svd(mat(g, 2))
    sl = slice(0, D)
    S = tnet.index(S, (sl,))
    w = tnet.pow_(tnet.mul(S, tnet.pow_(tnet.scalar_fn(S, 'norm'), -1)), Fraction(1, 2))
    b1 = tnet.einsum([q1, tnet.reshape(tnet.index(U, (slice(None), sl)), (n, p, D)), w], 'rduy,ypl,l->lurdp')
    b2 = tnet.einsum([q2, tnet.reshape(tnet.index(Vh, (sl, slice(None))), (D, n, p)), w], 'dlux,rxp,r->lurdp')
    b1, b2 = frame(b1, 4 - k), frame(b2, 4 - k)
    b1, b2 = weigh(b1, lam, s1, k, -1), weigh(b2, lam, s2, (k + 2) % 4, -1)
    if one:
        b1, b2 = tnet.einsum([one[0], b1], 'qp,lurdp->lurdq'), tnet.einsum([one[1], b2], 'qp,lurdp->lurdq')
    lam[s1, k] = lam[s2, (k + 2) % 4] = w
    return b1, b2


def run(R):
    D, P = dim('D'), dim('p')
    for L, real, p, wrap, order in [((2, 2), False, P, True, 1), ((2, 2), True, 2, False, -1), ((3, 2), False, 2, True, 1), ((2, 3), True, 3, True, -1),
                                    ((1, 2), False, 2, False, 1), ((3, 1), True, P, True, 1)]:
        I, ip = lattice(L, real, p, evolution={'update_type': 'simple'})
        I.rules['tiny_clamp'] = True
        env = named_env(L, p)
        two = lambda b: tnet.atom_tv(('gate', b), (p,) * 4)
        one = lambda s: tnet.atom_tv(('one', s), (p, p))
        head = f'{L[0]}x{L[1]}, {"real" if real else "complex"}, p={p}' + ('' if wrap else ', one-site gates apart')
        fn = pylib.fn
        g = script(I, GATE, wrap=wrap, Bond=sym(I, 'acetn.ipeps.bond', 'Bond'), two=fn('two', lambda I, a, k: tobj(I, two(key(I, a[0])), real)),
                   one=fn('one', lambda I, a, k: tobj(I, one(key(I, a[0])), real)))['gate']
        ok, up = R.attempt('start', head, lambda: I.call(sym(I, 'acetn.evolution.simple_update', 'SimpleUpdater'), [ip, g, I.getattr(I.getattr(ip, 'config'), 'evolution')], {}), I)
        if not ok:
            continue
        bonds = [I.resolve(x) for x in I.iterate(I.getattr(ip, 'bond_list'))][::order]
        lam = {}
        # every bond, then the first ones again: their outer weights are no longer those of the start
        for n, b in enumerate(bonds + bonds[:3 if R.tier == 'quick' else len(bonds)]):
            kb = key(I, b)
            s1, s2, k = kb
            if s1 == s2:
                continue
            label = f'{head}: update {n + 1}, bond {s1}-{s2} direction {k}'
            before = {x: I.resolve(v).v for x, v in get_env(I, ip, L).items()}
            want = oracle(before, lam, kb, two(kb), D, p, None if wrap else (one(s1), one(s2)))
            ok, _ = R.attempt('update', label, lambda: I.call_method(up, 'bond_update', [b]), I)
            if not ok:
                break
            now = get_env(I, ip, L)
            for s, w in dict(zip((s1, s2), want)).items():
                v = I.resolve(now['A', s]).v
                R.ob('update', f'{label}: tensor of {s}', *tnet.equal_all(v, w, True))
                R.ob('shape', f'{label}: tensor of {s}', all(tnet.dim_eq(x, y) for x, y in zip(v.shape, A_dims(s, p))), f'shape {v.shape}')
            compare_env(R, 'others', label, {x: v for x, v in now.items() if x not in (('A', s1), ('A', s2))}, {}, before)
        R.covers(I)
    R.expect('update', 60)
