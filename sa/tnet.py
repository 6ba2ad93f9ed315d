"""Abstract tensor values: canonical tensor networks.

A tensor value is a sum of products ("nets") of labelled atoms whose legs are
connected by wires.  Permutation, reshape, contraction order, temporaries,
helper functions and loop structure disappear in this representation; what is
left is which leg of which tensor is joined to which leg of which other one.
Equality is isomorphism of the canonical form (with the algebraic identities of
QR / SVD / eigh / inverse that hold for every input)."""
import math
from fractions import Fraction
from itertools import count, permutations, product as iproduct
from . import poly
from .poly import Poly, compare


class Incomplete(Exception):
    """The analysis cannot represent something it needs (never a violation)."""


class DimError(Exception):
    """A definite dimension mismatch in a tensor operation."""
    def __init__(self, msg):
        super().__init__(msg)
        self.msg = msg


_wid = count(1)
_uid = count(1)


def new_wire():
    return next(_wid)


def uid():
    return next(_uid)


REAL_KINDS = {'norm', 'absmax', 'svdS', 'eighW', 'sel', 'idx', 'delta', 'rand', 'ones', 'fuse', 'maxval', 'count', 'svdSat'}
POS_KINDS = {'norm', 'absmax', 'svdSat'}
NONNEG = POS_KINDS | {'svdS'}
ALL_REAL = [False]      # context: real dtype (conjugation is the identity)


def kind(label):
    return label[0] if isinstance(label, tuple) else label


class Atom:
    __slots__ = ('label', 'legs', 'conj', 'pow')

    def __init__(self, label, legs, conj=False, pow=Fraction(1)):
        self.label = label
        self.legs = tuple(legs)
        self.conj = conj and not ALL_REAL[0] and not (kind(label) in REAL_KINDS)
        self.pow = pow

    def ren(self, m):
        return Atom(self.label, tuple(m.get(w, w) for w in self.legs), self.conj, self.pow)

    def __repr__(self):
        s = fmt_label(self.label) + ('*' if self.conj else '') + (f'^{self.pow}' if self.pow != 1 else '')
        return f"{s}[{','.join(map(str, self.legs))}]"


def fmt_label(l):
    if isinstance(l, tuple):
        return f"{l[0]}({','.join(fmt_label(x) for x in l[1:])})"
    return str(l)


class Net:
    __slots__ = ('atoms', 'outs', 'dims')

    def __init__(self, atoms, outs, dims):
        self.atoms = tuple(atoms)
        self.outs = tuple(tuple(a) for a in outs)
        self.dims = dims

    def fresh(self):
        ws = set(w for a in self.atoms for w in a.legs) | set(w for ax in self.outs for w in ax) | set(self.dims)
        m = {w: new_wire() for w in ws}
        return self.ren(m)

    def ren(self, m):
        d = {}
        for w, v in self.dims.items():
            d.setdefault(m.get(w, w), v)
        return Net([a.ren(m) for a in self.atoms], [[m.get(w, w) for w in ax] for ax in self.outs], d)

    def __repr__(self):
        return ' '.join(map(repr, self.atoms)) + ' -> ' + '|'.join(','.join(map(str, ax)) for ax in self.outs)


class TV:
    """sum of (coef, Net); shape: tuple of dims"""
    __slots__ = ('shape', 'terms', '_vn')

    def __init__(self, shape, terms):
        self.shape = tuple(shape)
        self.terms = terms
        self._vn = None

    def __repr__(self):
        return ' + '.join(f'({c})*<{n}>' for c, n in self.terms) or '0'


class Dense:
    __slots__ = ('shape', 'data')

    def __init__(self, shape, data):
        self.shape = tuple(shape)
        self.data = tuple(data)

    def __repr__(self):
        return f'Dense{self.shape}{list(self.data)}'


class Guard:
    __slots__ = ('key', 'note')

    def __init__(self, key, note=''):
        self.key = key
        self.note = note

    def __hash__(self):
        return hash(self.key)

    def __eq__(self, o):
        return isinstance(o, Guard) and self.key == o.key

    def __repr__(self):
        return f'?{fmt_label(self.key) if isinstance(self.key, tuple) else self.key}'


class PhiV:
    """gated value: a if guard else b"""
    __slots__ = ('guard', 'a', 'b')

    def __init__(self, guard, a, b):
        self.guard, self.a, self.b = guard, a, b

    @property
    def shape(self):
        x = self.a
        return x.shape

    def __repr__(self):
        return f'Phi({self.guard}: {self.a} / {self.b})'


class Tiled:
    """base with regions overwritten (pending generalisation over a loop)"""
    __slots__ = ('base', 'stores', 'shape')

    def __init__(self, base, stores):
        self.base, self.stores = base, stores
        self.shape = base.shape


ASSUME = [{}]           # current path assumptions: Guard -> bool (shared with the interpreter)


def resolve(v):
    while isinstance(v, PhiV) and v.guard in ASSUME[0]:
        v = v.a if ASSUME[0][v.guard] else v.b
    return v


def mkphi(g, a, b):
    if a is b:
        return a
    if isinstance(a, (TV, Dense)) and isinstance(b, (TV, Dense)) and same(a, b):
        return a
    return PhiV(g, a, b)


def lifted(fn):
    """distribute a value-level operation over gated operands"""
    def go(*args, **kw):
        for i, a in enumerate(args):
            a = resolve(a)
            if isinstance(a, PhiV):
                g = a.guard
                old = ASSUME[0]
                ASSUME[0] = {**old, g: True}
                try:
                    ra = go(*args[:i], a.a, *args[i + 1:], **kw)
                finally:
                    ASSUME[0] = old
                ASSUME[0] = {**old, g: False}
                try:
                    rb = go(*args[:i], a.b, *args[i + 1:], **kw)
                finally:
                    ASSUME[0] = old
                if isinstance(ra, tuple) and isinstance(rb, tuple):
                    return tuple(mkphi(g, x, y) for x, y in zip(ra, rb))
                return mkphi(g, ra, rb)
            if isinstance(a, (list,)) and any(isinstance(resolve(x), PhiV) for x in a):
                j = next(j for j, x in enumerate(a) if isinstance(resolve(x), PhiV))
                p = resolve(a[j])
                g = p.guard
                old = ASSUME[0]
                ASSUME[0] = {**old, g: True}
                try:
                    ra = go(*args[:i], a[:j] + [p.a] + a[j + 1:], *args[i + 1:], **kw)
                finally:
                    ASSUME[0] = old
                ASSUME[0] = {**old, g: False}
                try:
                    rb = go(*args[:i], a[:j] + [p.b] + a[j + 1:], *args[i + 1:], **kw)
                finally:
                    ASSUME[0] = old
                return mkphi(g, ra, rb)
        return fn(*[resolve(a) if isinstance(a, PhiV) else [resolve(x) for x in a] if isinstance(a, list) else a
                    for a in args], **kw)
    go.__name__ = fn.__name__
    return go


# ---------------------------------------------------------------- constructors

def atom_tv(label, dims, conj=False):
    ws = [new_wire() for _ in dims]
    return TV(dims, [(1, Net([Atom(label, ws, conj)], [(w,) for w in ws], dict(zip(ws, dims))))])


def scalar_tv(c):
    return TV((), [(c, Net([], [], {}))] if c != 0 else [])


def ones_tv(shape):
    ws = [new_wire() for _ in shape]
    return TV(shape, [(1, Net([], [(w,) for w in ws], dict(zip(ws, shape))))])


def zeros_tv(shape):
    return TV(shape, [])


def delta_tv(n, m=None):
    a, b = new_wire(), new_wire()
    m = n if m is None else m
    return TV((n, m), [(1, Net([Atom('delta', (a, b))], [(a,), (b,)], {a: n, b: m}))])


def prod(ds):
    r = 1
    for d in ds:
        r = poly.mul(r, d)
    return r


def dim_eq(a, b):
    """True / False(definite) / None"""
    r = compare('==', a, b)
    if r is not None:
        return r
    a, b = Poly.of(a), Poly.of(b)
    return None


def dense_to_tv(d):
    if len(d.shape) == 0:
        return scalar_tv(d.data[0])
    if len(d.shape) == 2 and d.shape[0] == d.shape[1]:
        n = d.shape[0]
        c = d.data[0]
        if c != 0 and all((d.data[i * n + j] == (c if i == j else 0)) for i in range(n) for j in range(n)):
            t = delta_tv(n)
            return TV(t.shape, [(c, t.terms[0][1])])
    if all(x == 0 for x in d.data):
        return zeros_tv(d.shape)
    if all(x == d.data[0] for x in d.data):
        o = ones_tv(d.shape)
        return TV(o.shape, [(d.data[0], o.terms[0][1])])
    return atom_tv(('dense', d.shape, tuple(Poly.of(x) for x in d.data)), d.shape)


def tv(v):
    if isinstance(v, Dense):
        return dense_to_tv(v)
    if isinstance(v, TV):
        return v
    if isinstance(v, poly.NUMERIC_TYPES) or isinstance(v, Poly):
        return scalar_tv(v)
    if isinstance(v, Tiled):
        r = assemble(v)
        if r is not None:
            return r
        raise Incomplete('read of a partially written tensor')
    raise Incomplete(f'not a tensor value: {v!r}')


# ---------------------------------------------------------------- canonical form

_colors = {}


def _col(x):
    c = _colors.get(x)
    if c is None:
        c = _colors[x] = len(_colors) + 1
    return c


def _mirror(a):
    """position of the mirrored leg for each leg of a symmetric atom (identity, inverse of a real symmetric matrix)"""
    if a.label == 'delta' and len(a.legs) == 2:
        return (1, 0)
    if not ALL_REAL[0] or not isinstance(a.label, tuple) or a.label[0] not in ('inv', 'pinv'):
        return None
    nrow = a.label[2]
    m = hermitian(a.label[1], nrow)
    if m is None:
        return None
    nc = len(a.legs) - nrow
    r = [None] * len(a.legs)
    for i in range(nrow):
        r[nc + i] = m[i]
        r[m[i]] = nc + i
    return r


def canon(net, groups=None):
    """groups: for every out axis a tag (None = ordered).  Wires in axes with the
    same non-None tag are interchangeable.  Returns (key, wire order dict)."""
    atoms = net.atoms
    wires = {}
    for a in atoms:
        for w in a.legs:
            wires.setdefault(w, None)
    outw = {}
    for i, ax in enumerate(net.outs):
        for j, w in enumerate(ax):
            tag = ('o', i, j) if groups is None or groups[i] is None else ('g', groups[i])
            outw.setdefault(w, []).append(tag)
            wires.setdefault(w, None)
    attached = set(w for a in atoms for w in a.legs)
    for w in net.dims:
        if w not in wires:
            wires[w] = None
    col = {}
    for w in wires:
        t = tuple(sorted(outw.get(w, []), key=repr))
        col[w] = _col(('w', t, None if w in attached else str(net.dims.get(w))))
    base = [_col(('a', a.label, a.conj, a.pow)) for a in atoms]
    mirror = [_mirror(a) for a in atoms]

    def turned(i, col):
        """the legs of an atom that equals its own transpose, in the orientation that comes first"""
        a, m = atoms[i], mirror[i]
        t = tuple(col[w] for w in a.legs)
        if m is None:
            return t, None
        u = tuple(t[x] for x in m)
        return (t, None) if t < u else (u, m) if u < t else (t, True)

    def refine(col):
        n = len(set(col.values()))
        acol = base
        while True:
            turns = [turned(i, col) for i in range(len(atoms))]
            acol = [_col((base[i],) + t[0]) for i, t in enumerate(turns)]
            inc = {w: [] for w in wires}
            for i, a in enumerate(atoms):
                m = turns[i][1]
                for p, w in enumerate(a.legs):
                    inc[w].append((acol[i], p if m is None else min(p, mirror[i][p]) if m is True else m[p]))
            ncol = {w: _col((col[w], tuple(sorted(inc[w])))) for w in wires}
            m = len(set(ncol.values()))
            col = ncol
            if m == n:
                return col, acol
            n = m

    def finish(col):
        col, acol = refine(col)
        cls = {}
        for w in wires:
            cls.setdefault(col[w], []).append(w)
        tied = [c for c, ws in cls.items() if len(ws) > 1 and any(True for _ in ws)]
        tied = [c for c in tied if not all(w not in attached for w in cls[c])]
        if not tied:
            order = sorted(wires, key=lambda w: (col[w], w if w not in attached else 0))
            num = {w: i for i, w in enumerate(order)}
            ak = tuple(sorted((base[i], turned(i, num)[0]) for i, a in enumerate(atoms)))
            if groups is None:
                ok = tuple(tuple(num[w] for w in ax) for ax in net.outs)
            else:
                ok = tuple((g, tuple(num[w] for w in ax)) if g is None else
                           (g, tuple(sorted(num[w] for w in ax))) for g, ax in zip(groups, net.outs))
                tagged = {}
                for g, ax in zip(groups, net.outs):
                    if g is not None:
                        tagged.setdefault(g, []).extend(num[w] for w in ax)
                ok = tuple(tuple(num[w] for w in ax) for g, ax in zip(groups, net.outs) if g is None) + \
                    tuple((g, tuple(sorted(ws))) for g, ws in sorted(tagged.items()))
            free = tuple(str(net.dims.get(w)) for w in order if w not in attached)
            return (ak, ok, free), num
        c = min(tied)
        best = None
        for w in cls[c][:6]:
            col2 = dict(col)
            col2[w] = _col(('ind', col[w]))
            r = finish(col2)
            if best is None or r[0] < best[0]:
                best = r
        return best

    return finish(col)


# ---------------------------------------------------------------- interning

class MatInfo:
    __slots__ = ('id', 'tv', 'legs', 'groups')


VN = {}           # id -> TV (canonical representative, legs flattened in canonical order)
_vnkeys = {}


def _coef_key(c):
    c = Poly.of(c)
    if any(isinstance(x, float) for x in c.terms.values()):
        c = Poly({m: _exact(x) for m, x in c.terms.items()})
    return c


def _exact(x):
    """a decimal constant as the fraction it was written as"""
    if isinstance(x, float) and math.isfinite(x):
        f = Fraction(x).limit_denominator(10 ** 6)
        if abs(float(f) - x) <= 1e-13 * abs(x):
            return f
    return x


def flat_outs(net):
    return [w for ax in net.outs for w in ax]


def intern(v, groups=None):
    """Intern a value up to isomorphism (and, for axes with a group tag, up to a
    permutation of the wires of that group).  Returns (id, [wires order per axis])
    where order is a list of the flattened out wires of *each term* in canonical leg order."""
    v = tv(v)
    v = simplify_tv(v)
    if len(v.terms) == 1:
        c, n = v.terms[0]
        k, num = canon(n, groups)
        key = ('1', _coef_key(c), k, None if groups is None else tuple(groups))
        ws = flat_outs(n)
        if groups is None:
            order = [list(ws)]
        else:
            order = [sorted_wires(n, groups, num)]
    else:
        perms = [None]
        if groups is not None and len(v.terms) > 1:
            perms = list(_group_perms(v, groups))
        best = None
        for p in perms:
            ts = []
            for c, n in v.terms:
                nn = _apply_flat_perm(n, p)
                k, _ = canon(nn)
                ts.append((str(_coef_key(c)), k))
            ts.sort(key=lambda x: (x[1], x[0]))
            if best is None or ts < best[0]:
                best = (ts, p)
        ts, p = best if best else ([], None)
        key = ('+', tuple(ts), None if groups is None else tuple(groups), tuple(map(str, v.shape)) if not v.terms else None)
        order = []
        for c, n in v.terms:
            nn = _apply_flat_perm(n, p)
            order.append(flat_outs(nn))
    i = _vnkeys.get(key)
    if i is None:
        i = _vnkeys[key] = len(_vnkeys) + 1
        # canonical representative: one axis per flattened wire in canonical order
        terms = [(c, Net(n.atoms, [(w,) for w in o], n.dims)) for (c, n), o in zip(v.terms, order)]
        dims = [terms[0][1].dims.get(w) for w in order[0]] if terms else v.shape
        VN[i] = TV(dims, terms)
    return i, order


def sorted_wires(n, groups, num):
    """flattened out wires: groups None keep their order; grouped axes ordered canonically
    (per tag, in order of first appearance)."""
    res = []
    done = set()
    for g, ax in zip(groups, n.outs):
        if g is None:
            res.extend(ax)
        elif g not in done:
            done.add(g)
            ws = [w for gg, a in zip(groups, n.outs) if gg == g for w in a]
            res.extend(sorted(ws, key=lambda w: num[w]))
    return res


def _group_perms(v, groups):
    """permutations of flattened wires within groups (bounded)"""
    n0 = v.terms[0][1]
    lens = [len(ax) for ax in n0.outs]
    if any([len(ax) for ax in n.outs] != lens for _, n in v.terms):
        return [None]
    pos = {}
    flat = 0
    order_tags = []
    for g, l in zip(groups, lens):
        for _ in range(l):
            pos.setdefault(g, []).append(flat)
            flat += 1
        if g not in order_tags:
            order_tags.append(g)
    tot = 1
    for g, ps in pos.items():
        if g is not None:
            for i in range(2, len(ps) + 1):
                tot *= i
    if tot > 200:
        return [tuple(range(flat))]
    lists = []
    for g in order_tags:
        lists.append([tuple(pos[g])] if g is None else list(permutations(pos[g])))
    return [sum(c, ()) for c in iproduct(*lists)]


def _apply_flat_perm(n, p):
    if p is None:
        return n
    ws = flat_outs(n)
    return Net(n.atoms, [(ws[i],) for i in p], n.dims)


def vn(v):
    """value number with ordered axes; fused structure ignored"""
    v = resolve(v)
    if isinstance(v, PhiV):
        return ('phi', v.guard.key, vn(v.a), vn(v.b))
    v = tv(v)
    if v._vn is None:
        v._vn = intern(v)[0]
    return v._vn


# ---------------------------------------------------------------- simplification

RULES = {'pinv': False}


def _subst_wire(atoms, outs, dims, a, b):
    """replace wire a by b"""
    m = {a: b}
    atoms = [x.ren(m) if a in x.legs else x for x in atoms]
    outs = [tuple(m.get(w, w) for w in ax) for ax in outs]
    if a in dims:
        d = dims.pop(a)
        dims.setdefault(b, d)
    return atoms, outs


def simplify_net(net):
    """returns list of (coef, Net)"""
    atoms = list(net.atoms)
    outs = list(net.outs)
    dims = dict(net.dims)
    changed = True
    while changed:
        changed = False
        outset = {}
        for ax in outs:
            for w in ax:
                outset[w] = outset.get(w, 0) + 1
        # delta merges
        for i, a in enumerate(atoms):
            if a.label == 'delta':
                p, q = a.legs
                if p == q:
                    # delta(p,p) = ones on p
                    atoms.pop(i)
                    changed = True
                    break
                if not (p in outset and q in outset):
                    if p in outset:
                        p, q = q, p
                    atoms.pop(i)
                    atoms, outs = _subst_wire(atoms, outs, dims, p, q)
                    changed = True
                    break
        if changed:
            continue
        occ = {}
        for i, a in enumerate(atoms):
            for p, w in enumerate(a.legs):
                occ.setdefault(w, []).append((i, p))
        # one index cannot have two values
        at = {}
        for a in atoms:
            if kind(a.label) == 'idx' and type(a.label[1]) is int and a.label[1] >= 0 and \
                    at.setdefault(a.legs[0], a.label[1]) != a.label[1]:
                return []
        # equal atoms on equal legs: combine powers
        seen = {}
        for i, a in enumerate(atoms):
            k = (a.label, a.legs, a.conj)
            if kind(a.label) in ('sel', 'idx', 'fuse', 'delta') and k in seen:
                atoms.pop(i)
                changed = True
                break
            if k in seen:
                j = seen[k]
                p = atoms[j].pow + a.pow
                atoms[j] = Atom(a.label, a.legs, a.conj, p)
                atoms.pop(i)
                if p == 0:
                    atoms.pop(j)
                changed = True
                break
            seen[k] = i
        if changed:
            continue
        # sel rules
        sels = {}
        for i, a in enumerate(atoms):
            if kind(a.label) == 'sel':
                inner, outer = a.legs
                k = (a.label, outer)
                if k in sels:
                    j = sels[k]
                    w2 = atoms[j].legs[0]
                    atoms.pop(i)
                    atoms, outs = _subst_wire(atoms, outs, dims, inner, w2)
                    changed = True
                    break
                sels[k] = i
                k2 = (a.label, 'in', inner)
                if k2 in sels:          # same selection of the same inner wire: same outer index
                    w2 = atoms[sels[k2]].legs[1]
                    if not (outer in outset and w2 in outset):
                        if outer in outset:
                            outer, w2 = w2, outer
                        atoms.pop(i)
                        atoms, outs = _subst_wire(atoms, outs, dims, outer, w2)
                        changed = True
                        break
                else:
                    sels[k2] = i
        if changed:
            continue
        # one singular value: a positive scalar;  entry of a leading slice: entry of the whole
        for i, a in enumerate(atoms):
            if kind(a.label) == 'idx' and isinstance(a.label[1], int) and a.legs[0] not in outset:
                w = a.legs[0]
                os_ = [j for j, _ in occ[w] if j != i]
                if os_ and all(kind(atoms[j].label) == 'svdS' for j in os_):
                    for j in os_:
                        b = atoms[j]
                        atoms[j] = Atom(('svdSat',) + tuple(b.label[1:]) + (a.label[1],), (), False, b.pow)
                    atoms.pop(i)
                    dims.pop(w, None)
                    changed = True
                    break
                for j, q in occ[w]:
                    b = atoms[j]
                    if kind(b.label) == 'sel' and q == 1 and b.label[1] == 0 and len(occ[w]) == 2 and \
                            poly.compare('<', a.label[1], b.label[2]) is True:
                        atoms[i] = Atom(a.label, (b.legs[0],))
                        atoms.pop(j)
                        changed = True
                        break
                if changed:
                    break
        if changed:
            continue
        # two nested selections from 0:  sel(0,c) of sel(0,d)
        for i, a in enumerate(atoms):
            if kind(a.label) == 'sel' and a.label[1] == 0:
                for j, p in occ.get(a.legs[0], []):
                    b = atoms[j]
                    if j != i and kind(b.label) == 'sel' and b.label[1] == 0 and p == 1 and \
                            a.legs[0] not in outset and len(occ[a.legs[0]]) == 2:
                        hi = poly.min_(a.label[2], b.label[2])
                        atoms[i] = Atom(('sel', 0, hi), (b.legs[0], a.legs[1]))
                        atoms.pop(j)
                        changed = True
                        break
            if changed:
                break
        if changed:
            continue
        # fuse: fuse(w;a,b) with fuse(w;c,d) -> a=c,b=d ; fuse(w1;a,b), fuse(w2;a,b) -> w1=w2
        fz = {}
        for i, a in enumerate(atoms):
            if kind(a.label) == 'fuse':
                k = (a.label, a.legs[0])
                if k in fz:
                    b = atoms[fz[k]]
                    prs = [(x, y) for x, y in zip(a.legs[1:], b.legs[1:]) if x != y]
                    if all(not (x in outset and y in outset) for x, y in prs):
                        atoms.pop(i)
                        for x, y in prs:
                            if x in outset:
                                x, y = y, x
                            atoms, outs = _subst_wire(atoms, outs, dims, x, y)
                        changed = True
                        break
                fz[k] = i
                k = (a.label, 'parts', a.legs[1:])
                if k in fz:
                    b = atoms[fz[k]]
                    x, y = a.legs[0], b.legs[0]
                    if x != y and not (x in outset and y in outset):
                        if x in outset:
                            x, y = y, x
                        atoms.pop(i)
                        atoms, outs = _subst_wire(atoms, outs, dims, x, y)
                        changed = True
                        break
                fz[k] = i
        if changed:
            continue
        # fuse whose whole wire only occurs there and is summed: parts free (sum over all parts)
        for i, a in enumerate(atoms):
            if kind(a.label) == 'fuse' and a.legs[0] not in outset and len(occ[a.legs[0]]) == 1:
                atoms.pop(i)
                dims.pop(a.legs[0], None)
                changed = True
                break
        if changed:
            continue
        # matrix function identities
        r = _matrix_rules(atoms, outs, dims, occ, outset)
        if r is not None:
            if len(r) == 1 and r[0][0] == 1:
                _, n = r[0]
                atoms, outs, dims = list(n.atoms), list(n.outs), dict(n.dims)
                changed = True
                continue
            res = []
            for c, n in r:
                for c2, n2 in simplify_net(n):
                    res.append((poly.mul(c, c2), n2))
            return res
    used = set(w for a in atoms for w in a.legs) | set(w for ax in outs for w in ax)
    # dims of internal, atom-less wires are summed free indices: factor dim
    coef = 1
    for w in list(dims):
        if w not in used:
            d = dims.pop(w)
            if d is not None:
                coef = poly.mul(coef, d)
    return [(coef, Net(atoms, outs, dims))]


def _summed(w, outset):
    return w not in outset


def _only(occ, w, idx, outset):
    """wire w occurs in exactly the atoms idx and is summed"""
    return w not in outset and len(occ[w]) == len(idx) and all(i in idx for i, _ in occ[w])


def _splice(atoms, outs, dims, drop, mid, rows, cols, conj, coef=1):
    """replace atoms `drop` by registered value VN[mid] with its legs attached to rows+cols"""
    rep = VN[mid]
    res = []
    keep = [a for i, a in enumerate(atoms) if i not in drop]
    for c, n in rep.terms:
        n = n.fresh()
        ws = [ax[0] for ax in n.outs]
        tgt = list(rows) + list(cols)
        m = {}
        extra = []
        for w, t in zip(ws, tgt):
            if w in m:
                extra.append(Atom('delta', (m[w], t)))
            else:
                m[w] = t
        na = [a.ren(m) for a in n.atoms]
        if conj:
            na = [Atom(a.label, a.legs, not a.conj, a.pow) for a in na]
            c = poly.simp(Poly.of(c).conj())
        d = dict(dims)
        for w, v in n.dims.items():
            d.setdefault(m.get(w, w), v)
        live = set(w for a in keep + na + extra for w in a.legs) | set(w for ax in outs for w in ax)
        dropped = set(w for i in drop for w in atoms[i].legs)
        d = {w: v for w, v in d.items() if w in live or w not in dropped}
        res.append((poly.mul(c, coef), Net(keep + na + extra, outs, d)))
    return res


_HERM = {}


def hermitian(mid, nrow):
    """for an interned matrix equal to its adjoint: the column wire that mirrors each row wire; None otherwise"""
    if mid not in _HERM:
        _HERM[mid] = None
        v = VN[mid]
        n = len(v.shape)
        if n == 2 * nrow and nrow <= 3:
            k = key_of(v)
            for p in permutations(range(nrow)):
                # new rows: the columns in the order that mirrors the rows; new columns: the rows
                perm = [nrow + p[i] for i in range(nrow)] + [0] * nrow
                for i in range(nrow):
                    perm[nrow + p[i]] = i
                if all(dim_eq(v.shape[i], v.shape[nrow + p[i]]) for i in range(nrow)) and key_of(conj(permute(v, perm))) == k:
                    _HERM[mid] = p
                    break
    return _HERM[mid]


def _matrix_rules(atoms, outs, dims, occ, outset):
    for w in {w for a in atoms if a.label == 'flip' for w in a.legs}:
        # a sum in which every occurrence of the index is reversed
        fs = [i for i, _ in occ[w]]
        if w not in outset and len(set(fs)) == len(fs) and all(atoms[i].label == 'flip' for i in fs):
            others = [x for i in fs for x in atoms[i].legs if x != w]
            if any(x in outset for x in others):
                continue
            m = {x: others[0] for x in others}
            keep = [Atom(a.label, tuple(m.get(x, x) for x in a.legs), a.conj, a.pow) for i, a in enumerate(atoms) if i not in fs]
            return [(1, Net(keep, outs, {x: v for x, v in dims.items() if x != w and (x not in m or x == others[0])}))]
    for i, a in enumerate(atoms):
        if a.conj and kind(a.label) in ('inv', 'pinv'):
            nrow = a.label[2]
            m = hermitian(a.label[1], nrow)
            if m is not None:
                nc = len(a.legs) - nrow
                cols, rows = a.legs[:nc], a.legs[nc:]
                new = [None] * len(a.legs)
                for r in range(nrow):
                    new[m[r]] = rows[r]
                    new[nc + r] = cols[m[r]]
                return [(1, Net(atoms[:i] + [Atom(a.label, tuple(new), False, a.pow)] + atoms[i + 1:], outs, dims))]
    byk = {}
    for i, a in enumerate(atoms):
        k = kind(a.label)
        if k in ('qrQ', 'qrR', 'svdU', 'svdS', 'svdVh', 'eighW', 'eighZ', 'pinv', 'inv', 'chol'):
            byk.setdefault((k, a.label[1]), []).append(i)
    for (k, mid), idx in byk.items():
        if k == 'qrQ':
            for i in idx:
                q = atoms[i]
                n = q.legs[-1]
                if q.pow != 1:
                    continue
                for j in byk.get(('qrR', mid), []):
                    r = atoms[j]
                    if r.legs[0] == n and r.pow == 1 and r.conj == q.conj and _only(occ, n, (i, j), outset):
                        return _splice(atoms, outs, dims, {i, j}, mid, q.legs[:-1], r.legs[1:], q.conj)
                for j in idx:
                    b = atoms[j]
                    if j > i and b.pow == 1 and (ALL_REAL[0] or b.conj != q.conj) and b.legs[:-1] == q.legs[:-1] and \
                            all(_only(occ, w, (i, j), outset) for w in q.legs[:-1]):
                        keep = [a for t, a in enumerate(atoms) if t not in (i, j)]
                        d = {w: v for w, v in dims.items() if w not in q.legs[:-1]}
                        return [(1, Net(keep + [Atom('delta', (n, b.legs[-1]))], outs, d))]
        if k == 'svdU':
            for i in idx:
                u = atoms[i]
                n = u.legs[-1]
                if u.pow != 1:
                    continue
                for j in byk.get(('svdS', mid), []):
                    s = atoms[j]
                    if s.legs[0] != n or s.pow != 1:
                        continue
                    for l in byk.get(('svdVh', mid), []):
                        vh = atoms[l]
                        if vh.legs[0] == n and vh.pow == 1 and vh.conj == u.conj and _only(occ, n, (i, j, l), outset):
                            return _splice(atoms, outs, dims, {i, j, l}, mid, u.legs[:-1], vh.legs[1:], u.conj)
                for j in idx:
                    b = atoms[j]
                    if j > i and b.pow == 1 and (ALL_REAL[0] or b.conj != u.conj) and b.legs[:-1] == u.legs[:-1] and \
                            all(_only(occ, w, (i, j), outset) for w in u.legs[:-1]):
                        keep = [a for t, a in enumerate(atoms) if t not in (i, j)]
                        d = {w: v for w, v in dims.items() if w not in u.legs[:-1]}
                        return [(1, Net(keep + [Atom('delta', (n, b.legs[-1]))], outs, d))]
        if k == 'svdVh':
            for i in idx:
                u = atoms[i]
                n = u.legs[0]
                for j in idx:
                    b = atoms[j]
                    if j > i and b.pow == 1 and u.pow == 1 and (ALL_REAL[0] or b.conj != u.conj) and \
                            b.legs[1:] == u.legs[1:] and all(_only(occ, w, (i, j), outset) for w in u.legs[1:]):
                        keep = [a for t, a in enumerate(atoms) if t not in (i, j)]
                        d = {w: v for w, v in dims.items() if w not in u.legs[1:]}
                        return [(1, Net(keep + [Atom('delta', (n, b.legs[0]))], outs, d))]
        if k == 'eighZ':
            for i in idx:
                z = atoms[i]
                n = z.legs[-1]
                for j in byk.get(('eighW', mid), []):
                    w = atoms[j]
                    if w.legs[0] != n or w.pow != 1:
                        continue
                    for l in idx:
                        z2 = atoms[l]
                        if l != i and z2.legs[-1] == n and not z.conj and (z2.conj or ALL_REAL[0]) and \
                                z.pow == 1 and z2.pow == 1 and _only(occ, n, (i, j, l), outset):
                            return _splice(atoms, outs, dims, {i, j, l}, mid, z.legs[:-1], z2.legs[:-1], False)
        if k in ('inv', 'pinv') and (k == 'inv' or RULES['pinv']):
            rep = VN[mid]
            if len(rep.terms) == 1 and len(rep.terms[0][1].atoms) == 1 and rep.terms[0][0] == 1:
                n0 = rep.terms[0][1]
                a0 = n0.atoms[0]
                outw = [ax[0] for ax in n0.outs]
                for i in idx:
                    pi = atoms[i]
                    if pi.pow != 1:
                        continue
                    # pi legs: cols then rows (flattened canonical order): see matfn
                    nl = len(outw)
                    nrow = pi.label[2]
                    legs_by_out = dict(zip(outw, list(pi.legs[nl - nrow:]) + list(pi.legs[:nl - nrow])))
                    for j, b in enumerate(atoms):
                        if j == i or b.label != a0.label or b.pow != 1 or b.conj != (a0.conj != pi.conj) :
                            continue
                        bl = dict(zip(a0.legs, b.legs))
                        rows, cols = outw[:nrow], outw[nrow:]
                        # inv * M contracted over M's rows -> delta on cols ; over cols -> delta on rows
                        for side, other in ((rows, cols), (cols, rows)):
                            if all(bl[w] == legs_by_out[w] and _only(occ, bl[w], (i, j), outset) for w in side):
                                keep = [a for t, a in enumerate(atoms) if t not in (i, j)]
                                d = {w: v for w, v in dims.items() if w not in [bl[x] for x in side]}
                                ds = [Atom('delta', (bl[w], legs_by_out[w])) for w in other]
                                return [(1, Net(keep + ds, outs, d))]
    # inv(chol)^H inv(chol) = inv(M):  label ('inv', id(chol))
    for (k, mid), idx in byk.items():
        if k == 'inv':
            rep = VN[mid]
            if len(rep.terms) == 1 and len(rep.terms[0][1].atoms) == 1 and kind(rep.terms[0][1].atoms[0].label) == 'chol':
                a0 = rep.terms[0][1].atoms[0]
                outw = [ax[0] for ax in rep.terms[0][1].outs]
                base = a0.label[1]
                bn = len(a0.legs) // 2
                for i in idx:
                    for j in idx:
                        if i == j:
                            continue
                        x, y = atoms[i], atoms[j]
                        nrow = x.label[2]
                        nl = len(outw)

                        def legs_of(p):
                            d = dict(zip(outw, list(p.legs[nl - nrow:]) + list(p.legs[:nl - nrow])))
                            return [d[w] for w in a0.legs]
                        lx, ly = legs_of(x), legs_of(y)
                        # inverse of L (legs r, n): Linv[n, r].  M^-1[r',r] = conj(Linv[n,r']) Linv[n,r]
                        if lx[bn:] == ly[bn:] and (ALL_REAL[0] or (x.conj and not y.conj)) and x.pow == y.pow == 1 and \
                                all(_only(occ, w, (i, j), outset) for w in lx[bn:]):
                            keep = [a for t, a in enumerate(atoms) if t not in (i, j)]
                            d = {w: v for w, v in dims.items() if w not in lx[bn:]}
                            m = hermitian(base, bn) or range(bn)
                            cl = [None] * bn
                            for r in range(bn):          # the canonical order of M's columns need not mirror that of its rows
                                cl[m[r]] = lx[r]
                            new = Atom(('inv', base, bn), tuple(cl) + tuple(ly[:bn]))
                            return [(1, Net(keep + [new], outs, d))]
    return None


def simplify_tv(v):
    if getattr(v, 'terms', None) is None:
        return v
    acc = {}
    order = []
    lenient = []
    for c, n in v.terms:
        for c2, n2 in simplify_net(n):
            cc = poly.mul(c, c2)
            k, _ = canon(n2)
            k = (k, tuple(len(ax) for ax in n2.outs))
            if k in acc:
                acc[k] = (poly.add(acc[k][0], cc), acc[k][1])
            else:
                acc[k] = (cc, n2)
                order.append(k)
    terms = [acc[k] for k in order if acc[k][0] != 0]
    return TV(v.shape, terms)


MAX_TERMS = 64


def limit(v):
    if len(v.terms) > MAX_TERMS:
        raise Incomplete(f'value has {len(v.terms)} terms')
    return v


# ---------------------------------------------------------------- operations

def _flatdims(net):
    return [net.dims.get(w) for w in flat_outs(net)]


def axis_dim(net, ax):
    return prod(net.dims[w] for w in ax)


@lifted
def permute(v, perm):
    if isinstance(v, Dense):
        n = len(v.shape)
        shape = [v.shape[p] for p in perm]
        data = []
        for idx in iproduct(*[range(s) for s in shape]):
            src = [0] * n
            for k, p in enumerate(perm):
                src[p] = idx[k]
            data.append(v.data[_lin(src, v.shape)])
        return Dense(shape, data)
    v = tv(v)
    if sorted(perm) != list(range(len(v.shape))):
        raise DimError(f'permute{tuple(perm)} of a rank-{len(v.shape)} tensor')
    return TV([v.shape[p] for p in perm],
              [(c, Net(n.atoms, [n.outs[p] for p in perm], n.dims)) for c, n in v.terms])


def _lin(idx, shape):
    r = 0
    for i, s in zip(idx, shape):
        r = r * s + i
    return r


@lifted
def conj(v):
    if isinstance(v, Dense):
        if ALL_REAL[0]:
            return v
        return Dense(v.shape, [poly.simp(Poly.of(x).conj()) for x in v.data])
    v = tv(v)
    return TV(v.shape, [(poly.simp(Poly.of(c).conj()),
                         Net([Atom(a.label, a.legs, not a.conj, a.pow) for a in n.atoms], n.outs, n.dims))
                        for c, n in v.terms])


def fuse_axis(net, i):
    """make axis i a single wire"""
    ax = net.outs[i]
    if len(ax) == 1:
        return net, ax[0]
    if not ax:
        w = new_wire()
        return Net(net.atoms, net.outs[:i] + ((w,),) + net.outs[i + 1:], {**net.dims, w: 1}), w
    w = new_wire()
    d = prod(net.dims[x] for x in ax)
    a = Atom(('fuse',) + tuple(str(net.dims[x]) for x in ax), (w,) + tuple(ax))
    return Net(net.atoms + (a,), net.outs[:i] + ((w,),) + net.outs[i + 1:], {**net.dims, w: d}), w


def split_wire(net, w, dims):
    """split out wire w in parts (via a fuse atom); returns net, part wires"""
    for a in net.atoms:
        if kind(a.label) == 'fuse' and a.legs[0] == w and len(a.legs) == len(dims) + 1 and \
                all(dim_eq(net.dims[x], d) for x, d in zip(a.legs[1:], dims)):
            outs = [tuple(x for y in ax for x in (a.legs[1:] if y == w else (y,))) for ax in net.outs]
            return Net(net.atoms, outs, net.dims), a.legs[1:]
    parts = tuple(new_wire() for _ in dims)
    a = Atom(('fuse',) + tuple(str(d) for d in dims), (w,) + parts)
    outs = [tuple(x for y in ax for x in (parts if y == w else (y,))) for ax in net.outs]
    return Net(net.atoms + (a,), outs, {**net.dims, **dict(zip(parts, dims))}), parts


@lifted
def reshape(v, shape):
    shape = list(shape)
    total = prod(v.shape)
    if any(isinstance(s, int) and s == -1 for s in shape):
        k = next(i for i, s in enumerate(shape) if isinstance(s, int) and s == -1)
        rest = prod(s for i, s in enumerate(shape) if i != k)
        shape[k] = poly.floordiv(total, rest)
    if isinstance(v, Dense) and all(isinstance(s, int) for s in shape):
        if prod(shape) != len(v.data):
            raise DimError(f'reshape of {v.shape} to {tuple(shape)}')
        return Dense(shape, v.data)
    eq = dim_eq(total, prod(shape))
    if eq is False:
        raise DimError(f'reshape of {v.shape} (size {total}) to {tuple(shape)} (size {prod(shape)})')
    if len(shape) == len(v.shape) and all(dim_eq(a, b) for a, b in zip(shape, v.shape)):
        return v
    v = tv(v)
    terms = []
    for c, n in v.terms:
        terms.append((c, _reshape_net(n, shape)))
    return TV(shape, terms)


def _reshape_net(n, shape):
    flat = flat_outs(n)
    outs = []
    pos = 0
    cur_dims = n.dims
    for si, s in enumerate(shape):
        acc = 1
        ax = []
        if dim_eq(s, 1):
            # consume a size one wire if there
            if pos < len(flat) and dim_eq(n.dims[flat[pos]], 1) and \
                    sum(1 for w in flat[pos:] if dim_eq(n.dims[w], 1)) >= sum(1 for t in shape[si:] if dim_eq(t, 1)):
                ax.append(flat[pos])
                pos += 1
            outs.append(tuple(ax))
            continue
        while not dim_eq(acc, s):
            if pos >= len(flat):
                raise Incomplete(f'reshape {[n.dims[w] for w in flat]} -> {shape}')
            w = flat[pos]
            na = poly.mul(acc, n.dims[w])
            if dim_eq(na, s) or _divides(na, s):
                ax.append(w)
                acc = na
                pos += 1
                continue
            # w may need a split: w.dim = part * rest with acc*part == s
            part = poly.floordiv(s, acc)
            rest = poly.floordiv(n.dims[w], part)
            if dim_eq(poly.mul(part, rest), n.dims[w]) and dim_eq(poly.mul(part, acc), s) and not dim_eq(rest, 1):
                # split according to remaining shape: find full factorisation
                dims = _factor(n.dims[w], part, shape[si + 1:])
                n, parts = split_wire(Net(n.atoms, [(x,) for x in flat], n.dims), w, dims)
                flat = flat_outs(n)
                continue
            raise Incomplete(f'reshape {[n.dims[w] for w in flat]} -> {shape}')
        outs.append(tuple(ax))
    # trailing size-one wires
    while pos < len(flat):
        if not dim_eq(n.dims[flat[pos]], 1):
            raise Incomplete(f'reshape {[n.dims[w] for w in flat]} -> {shape}')
        if outs:
            outs[-1] = outs[-1] + (flat[pos],)
        pos += 1
    return Net(n.atoms, outs, n.dims)


def _divides(a, s):
    q = poly.floordiv(s, a)
    return dim_eq(poly.mul(q, a), s) is True and not (isinstance(q, int) and q == 0)


def _factor(total, first, rest):
    dims = [first]
    acc = first
    for s in rest:
        if dim_eq(acc, total):
            break
        na = poly.mul(acc, s)
        if dim_eq(na, total) or _divides(na, total):
            dims.append(s)
            acc = na
        else:
            break
    if not dim_eq(acc, total):
        dims.append(poly.floordiv(total, acc))
    return dims


class _UF:
    def __init__(self):
        self.p = {}

    def find(self, x):
        while self.p.get(x, x) != x:
            x = self.p[x]
        return x

    def union(self, a, b):
        a, b = self.find(a), self.find(b)
        if a != b:
            self.p[a] = b


STRICT_DIMS = [True]
DIM_NOTES = []


def match_axes(na, ax, nb, bx, uf, what):
    """unify axis ax of net na with bx of nb; returns possibly modified nets"""
    da = [na.dims[w] for w in ax]
    db = [nb.dims[w] for w in bx]
    if len(ax) == len(bx):
        for wa, wb, x, y in zip(ax, bx, da, db):
            e = dim_eq(x, y)
            if e is False:
                raise DimError(f'{what}: dimension {x} joined to dimension {y}')
            if e is None and STRICT_DIMS[0]:
                raise DimError(f'{what}: dimension {x} joined to dimension {y}')
            uf.union(wa, wb)
        return na, nb
    if len(ax) == 0 or len(bx) == 0:
        if dim_eq(prod(da), prod(db)):
            return na, nb
        raise DimError(f'{what}: dimension {prod(da)} joined to dimension {prod(db)}')
    e = dim_eq(prod(da), prod(db))
    if e is not True:
        raise DimError(f'{what}: dimension {prod(da)} joined to dimension {prod(db)}')
    if len(ax) == 1:
        a = Atom(('fuse',) + tuple(str(x) for x in db), (ax[0],) + tuple(bx))
        nb = Net(nb.atoms + (a,), nb.outs, {**nb.dims, ax[0]: na.dims[ax[0]]})
        return na, nb
    if len(bx) == 1:
        a = Atom(('fuse',) + tuple(str(x) for x in da), (bx[0],) + tuple(ax))
        na = Net(na.atoms + (a,), na.outs, {**na.dims, bx[0]: nb.dims[bx[0]]})
        return na, nb
    # both fused differently: go through one fused wire
    w = new_wire()
    d = prod(da)
    na = Net(na.atoms + (Atom(('fuse',) + tuple(str(x) for x in da), (w,) + tuple(ax)),), na.outs, {**na.dims, w: d})
    nb = Net(nb.atoms + (Atom(('fuse',) + tuple(str(x) for x in db), (w,) + tuple(bx)),), nb.outs, {**nb.dims, w: d})
    return na, nb


EINSUM_LOG = None


@lifted
def einsum(ops, eq):
    eq = eq.replace(' ', '')
    if '->' in eq:
        lhs, rhs = eq.split('->')
        ins = lhs.split(',')
    else:
        ins = eq.split(',')
        cnt = {}
        for s in ins:
            for ch in s:
                cnt[ch] = cnt.get(ch, 0) + 1
        rhs = ''.join(sorted(ch for ch in cnt if cnt[ch] == 1))
    if '...' in eq:
        # expand the ellipsis with private letters
        nell = None
        for s, o in zip(ins, ops):
            if '...' in s:
                nell = len(o.shape) - (len(s) - 3)
        letters = ''.join(chr(0x3b1 + i) for i in range(nell or 0))
        ins = [s.replace('...', letters) for s in ins]
        rhs = rhs.replace('...', letters)
    if len(ins) != len(ops):
        raise DimError(f'einsum {eq}: {len(ops)} operands')
    if all(isinstance(o, Dense) for o in ops) and all(isinstance(s, int) for o in ops for s in o.shape):
        return _dense_einsum(ins, rhs, ops, eq)
    ops = [tv(o) for o in ops]
    for s, o in zip(ins, ops):
        if len(s) != len(o.shape):
            raise DimError(f'einsum {eq}: rank {len(o.shape)} operand for subscript {s!r}')
    return contract(list(zip(ins, ops)), rhs, f'einsum {eq}')


def contract(pairs, rhs, what):
    """pairs: (sequence of hashable index names, TV); rhs: sequence of index names"""
    shape = {}
    for s, o in pairs:
        for ch, d in zip(s, o.shape):
            shape.setdefault(ch, d)
    terms = []
    for combo in iproduct(*[o.terms for _, o in pairs]):
        coef = 1
        nets = []
        for c, n in combo:
            coef = poly.mul(coef, c)
            nets.append(n.fresh())
        uf = _UF()
        first = {}
        # unify axes
        for k, (s, _) in enumerate(pairs):
            for pos, ch in enumerate(s):
                if ch in first:
                    k0, p0 = first[ch]
                    if k0 == k:
                        a, b = nets[k].outs[p0], nets[k].outs[pos]
                        if len(a) != len(b):
                            raise Incomplete('diagonal of fused axes')
                        for x, y in zip(a, b):
                            uf.union(x, y)
                    else:
                        na, nb = match_axes(nets[k0], nets[k0].outs[p0], nets[k], nets[k].outs[pos], uf, f'{what} index {ch!r}')
                        nets[k0], nets[k] = na, nb
                else:
                    first[ch] = (k, pos)
        atoms = [a for n in nets for a in n.atoms]
        dims = {}
        for n in nets:
            dims.update(n.dims)
        outs = []
        for ch in rhs:
            k, p = first[ch]
            outs.append(nets[k].outs[p])
        ws = set(dims)
        m = {w: uf.find(w) for w in ws}
        net = Net(atoms, outs, dims).ren(m)
        for c2, n2 in simplify_net(net):
            terms.append((poly.mul(coef, c2), n2))
    res = TV([shape[ch] for ch in rhs], terms)
    if len(terms) > 1:
        res = simplify_tv(res)
    return limit(res)


def _dense_einsum(ins, rhs, ops, eq):
    dim = {}
    for s, o in zip(ins, ops):
        if len(s) != len(o.shape):
            raise DimError(f'einsum {eq}: rank {len(o.shape)} operand for subscript {s!r}')
        for ch, d in zip(s, o.shape):
            if dim.setdefault(ch, d) != d:
                raise DimError(f'einsum {eq}: dimension {dim[ch]} joined to {d}')
    summed = [ch for ch in dim if ch not in rhs]
    data = []
    for out in iproduct(*[range(dim[ch]) for ch in rhs]):
        env = dict(zip(rhs, out))
        acc = 0
        for su in iproduct(*[range(dim[ch]) for ch in summed]):
            env.update(zip(summed, su))
            p = 1
            for s, o in zip(ins, ops):
                p = poly.mul(p, o.data[_lin([env[ch] for ch in s], o.shape)])
                if p == 0:
                    break
            acc = poly.add(acc, p)
        data.append(acc)
    return Dense([dim[ch] for ch in rhs], data)


@lifted
def scale(v, c):
    if isinstance(v, Dense):
        return Dense(v.shape, [poly.mul(x, c) for x in v.data])
    v = tv(v)
    return TV(v.shape, [(poly.mul(k, c), n) for k, n in v.terms] if c != 0 else [])


def _bshape(sa, sb):
    n = max(len(sa), len(sb))
    sa = (1,) * (n - len(sa)) + tuple(sa)
    sb = (1,) * (n - len(sb)) + tuple(sb)
    out = []
    for a, b in zip(sa, sb):
        if dim_eq(a, 1):
            out.append(b)
        elif dim_eq(b, 1):
            out.append(a)
        elif dim_eq(a, b):
            out.append(a)
        else:
            raise DimError(f'broadcast of {sa} with {sb}')
    return sa, sb, out


@lifted
def mul(a, b):
    if isinstance(a, poly.NUMERIC_TYPES) or isinstance(a, Poly):
        return scale(b, a)
    if isinstance(b, poly.NUMERIC_TYPES) or isinstance(b, Poly):
        return scale(a, b)
    if isinstance(a, Dense) and isinstance(b, Dense):
        return _dense_zip(a, b, poly.mul)
    a, b = tv(a), tv(b)
    sa, sb, out = _bshape(a.shape, b.shape)
    A = expand(a, sa)
    B = expand(b, sb)
    names_a, names_b, rhs = [], [], []
    for i, (x, y) in enumerate(zip(sa, sb)):
        if dim_eq(x, 1) and not dim_eq(y, 1):
            names_a.append(('a', i))
            names_b.append(i)
        elif dim_eq(y, 1) and not dim_eq(x, 1):
            names_a.append(i)
            names_b.append(('b', i))
        else:
            names_a.append(i)
            names_b.append(i)
        rhs.append(i)
    return contract([(names_a, A), (names_b, B)], rhs, 'elementwise product')


def expand(v, shape):
    """prepend size-one axes"""
    k = len(shape) - len(v.shape)
    if k == 0:
        return v
    return TV(shape, [(c, Net(n.atoms, [()] * k + list(n.outs), n.dims)) for c, n in v.terms])


def _dense_zip(a, b, f):
    sa, sb, out = _bshape(a.shape, b.shape)
    data = []
    for idx in iproduct(*[range(s) for s in out]):
        ia = [0 if s == 1 else i for i, s in zip(idx, sa)]
        ib = [0 if s == 1 else i for i, s in zip(idx, sb)]
        data.append(f(a.data[_lin(ia, sa)], b.data[_lin(ib, sb)]))
    return Dense(out, data)


@lifted
def add(a, b, sign=1):
    num = lambda x: isinstance(x, poly.NUMERIC_TYPES) or isinstance(x, Poly)
    if num(a):
        a = Dense((), [a])
    if num(b):
        b = Dense((), [b])
    if isinstance(a, Dense) and isinstance(b, Dense):
        return _dense_zip(a, b, lambda x, y: poly.add(x, poly.mul(y, sign)))
    a, b = tv(a), tv(b)
    sa, sb, out = _bshape(a.shape, b.shape)
    A = _broadcast(expand(a, sa), sa, out)
    B = _broadcast(expand(b, sb), sb, out)
    terms = list(A.terms)
    for c, n in B.terms:
        terms.append((poly.mul(c, sign), n))
    # align fused structure
    lens = {tuple(len(ax) for ax in n.outs) for _, n in terms}
    if len(lens) > 1:
        terms = _align(terms)
    return limit(simplify_tv(TV(out, terms)))


def _align(terms):
    """give all terms the same fused structure"""
    n0 = terms[0][1]
    for i in range(len(n0.outs)):
        ls = {len(n.outs[i]) for _, n in terms}
        if len(ls) == 1:
            continue
        # reference: the finest structure
        ref = max((n for _, n in terms), key=lambda n: len(n.outs[i]))
        dims = [ref.dims[w] for w in ref.outs[i]]
        new = []
        for c, n in terms:
            if len(n.outs[i]) == len(dims):
                new.append((c, n))
            elif len(n.outs[i]) == 1:
                w = n.outs[i][0]
                # a free (atom-less) wire or a delta between fused wires is split structurally
                n2 = _structural_split(n, w, dims)
                if n2 is None:
                    n2, _ = split_wire(n, w, dims)
                new.append((c, n2))
            else:
                raise Incomplete('sum of tensors with different fused axes')
        terms = new
    return terms


def _structural_split(n, w, dims):
    inc = [a for a in n.atoms if w in a.legs]
    if not inc:
        parts = tuple(new_wire() for _ in dims)
        outs = [tuple(x for y in ax for x in (parts if y == w else (y,))) for ax in n.outs]
        d = dict(n.dims)
        d.pop(w)
        d.update(zip(parts, dims))
        return Net(n.atoms, outs, d)
    if len(inc) == 1 and inc[0].label == 'delta':
        o = inc[0].legs[1] if inc[0].legs[0] == w else inc[0].legs[0]
        if any(o in a.legs for a in n.atoms if a is not inc[0]):
            return None
        p1 = tuple(new_wire() for _ in dims)
        p2 = tuple(new_wire() for _ in dims)
        m = {w: p1, o: p2}
        outs = [tuple(x for y in ax for x in m.get(y, (y,))) for ax in n.outs]
        d = {k: v for k, v in n.dims.items() if k not in (w, o)}
        d.update(zip(p1, dims))
        d.update(zip(p2, dims))
        return Net([a for a in n.atoms if a is not inc[0]] + [Atom('delta', (x, y)) for x, y in zip(p1, p2)], outs, d)
    return None


def _broadcast(v, shape, out):
    if all(dim_eq(a, b) for a, b in zip(shape, out)):
        return v
    terms = []
    for c, n in v.terms:
        outs = list(n.outs)
        dims = dict(n.dims)
        for i, (a, b) in enumerate(zip(shape, out)):
            if dim_eq(a, 1) and not dim_eq(b, 1):
                if outs[i] and any(w in at.legs for at in n.atoms for w in outs[i]):
                    # size-one wire: contract it away
                    pass
                w = new_wire()
                dims[w] = b
                outs[i] = (w,)
        terms.append((c, Net(n.atoms, outs, dims)))
    return TV(out, terms)


def sub(a, b):
    return add(a, b, sign=-1)


@lifted
def pow_(v, p):
    """elementwise power with a numeric exponent"""
    p = Fraction(poly.frac(p))
    if isinstance(v, Dense):
        return Dense(v.shape, [poly.power(x, int(p) if p.denominator == 1 else float(p)) for x in v.data])
    v = tv(v)
    if p == 1:
        return v
    v = simplify_tv(v)
    if len(v.terms) == 1:
        c, n = v.terms[0]
        outset = set(flat_outs(n))
        sel_inner = {}
        ok = True
        for a in n.atoms:
            if kind(a.label) in ('sel', 'flip') and a.legs[1] in outset:
                sel_inner[a.legs[0]] = True
        for a in n.atoms:
            for w in a.legs:
                if w not in outset and w not in sel_inner and not _idxed(n, w):
                    ok = False
        if any(kind(a.label) == 'delta' for a in n.atoms):
            ok = False
        if ok:
            atoms = [a if kind(a.label) in ('sel', 'idx', 'flip') else Atom(a.label, a.legs, a.conj, a.pow * p) for a in n.atoms]
            cc = poly.power(c, int(p) if p.denominator == 1 else float(p)) if c != 1 else 1
            return TV(v.shape, [(cc, Net(atoms, n.outs, n.dims))])
        if not v.shape:
            # scalar with internal sums: name it
            s = name_scalar(v)
            return pow_(s, p)
    elif not v.shape:
        return pow_(name_scalar(v), p)
    if not v.terms and p > 0:
        return v
    return elementwise(('pow', p), v)


def _idxed(n, w):
    return any(kind(a.label) == 'idx' and a.legs[0] == w for a in n.atoms)


_ROOTS = {}


def name_scalar(v):
    i, _ = intern(v)
    if i not in _ROOTS:
        _ROOTS[i] = None
        w = simplify_tv(tv(v))
        if len(w.terms) == 1:
            c = Poly.of(w.terms[0][0])
            if c.const() is not None and not isinstance(c.const(), complex) and c.const() > 0 or poly.sign_of(c) == '+':
                net = w.terms[0][1]
                free = [a for a in net.atoms if not a.legs and (kind(a.label) in POS_KINDS or kind(a.label) in REAL_KINDS and Fraction(a.pow) % 2 == 0)]
                x = mirror_half(Net([a for a in net.atoms if not any(a is b for b in free)], net.outs, net.dims))
                if x is not None:
                    _ROOTS[i] = mul(scale(TV((), [(1, Net(free, [], {}))]), w.terms[0][0]), pow_(scalar_fn(x, 'norm'), 2))
    if _ROOTS[i] is not None:
        return _ROOTS[i]
    return TV((), [(1, Net([Atom(('val', i), ())], [], {}))])


def mirror_half(net):
    """x with <x, x> = the closed network, or None"""
    if net.outs or not net.atoms or len(net.atoms) > 60:
        return None
    atoms = [a for a in net.atoms]
    if any(not a.legs for a in atoms):
        return None
    at = {}
    for i, a in enumerate(atoms):
        for p, w in enumerate(a.legs):
            at.setdefault(w, []).append((i, p))
    real = lambda a: kind(a.label) in REAL_KINDS or ALL_REAL[0] or kind(a.label) == 'fn' and a.label[1] == 'abs'
    unit = lambda a: kind(a.label) in ('sel', 'idx', 'ones', 'flip')        # entries 0 and 1

    def fits(i, j):
        a, b = atoms[i], atoms[j]
        return i != j and a.label == b.label and a.pow == b.pow and (real(a) and a.conj == b.conj or a.conj != b.conj) and len(a.legs) == len(b.legs)

    def solve(pairs, sides, mirror, budget):
        # pairs: atom -> twin; sides: atom -> 0/1; mirror: wire -> mirrored wire (itself when shared)
        budget[0] -= 1
        if budget[0] < 0:
            return None
        # follow mirrored wires first
        for w, u in mirror.items():
            if w == u:
                continue
            for i, p in at[w]:
                if i in pairs:
                    continue
                for j, q in at[u]:
                    if q == p and j not in pairs and fits(i, j):
                        got = join(i, j, pairs, sides, mirror, budget, sides_of(w, sides))
                        if got:
                            return got
                return None
        free = next((i for i in range(len(atoms)) if i not in pairs), None)
        if free is None:
            return pairs, sides, mirror
        a = atoms[free]
        if (unit(a) or real(a) and a.pow % 2 == 0 or kind(a.label) in NONNEG) and not a.conj and all(mirror.get(w, w) == w for w in a.legs):
            got = solve({**pairs, free: free}, {**sides, free: 2}, {**mirror, **{w: w for w in a.legs}}, budget)
            if got:
                return got
        for j in range(len(atoms)):
            if j not in pairs and fits(free, j):
                got = join(free, j, pairs, sides, mirror, budget, 0)
                if got:
                    return got
        return None

    def sides_of(w, sides):
        for i, _ in at[w]:
            if i in sides and sides[i] != 2:
                return sides[i]
        return 0

    def join(i, j, pairs, sides, mirror, budget, side):
        m = dict(mirror)
        for w, u in zip(atoms[i].legs, atoms[j].legs):
            if m.get(w, u) != u or m.get(u, w) != w:
                return None
            if w != u and len(at[w]) != len(at[u]):
                return None
            m[w], m[u] = u, w
        return solve({**pairs, i: j, j: i}, {**sides, i: side, j: 1 - side}, m, budget)

    got = solve({}, {}, {}, [400])
    if got is None:
        return None
    pairs, sides, mirror = got
    half = [Atom(a.label, a.legs, a.conj, a.pow / 2 if sides[i] == 2 and not unit(a) else a.pow) for i, a in enumerate(atoms) if sides[i] in (0, 2)]
    inner = {w for i, a in enumerate(atoms) if sides[i] == 0 for w in a.legs if mirror[w] != w}
    other = {w for i, a in enumerate(atoms) if sides[i] == 1 for w in a.legs if mirror[w] != w}
    if inner & other:
        return None
    fixed = {a.legs[0] for a in half if unit(a) and kind(a.label) != 'ones'}      # determined by the other leg, or constant
    outs = [w for w in at if mirror.get(w) == w and w not in fixed]
    if len(half) == 1 and kind(half[0].label) == 'fn' and half[0].label[1] == 'abs' and half[0].pow == 1:
        return VN[half[0].label[2]]
    dims = {w: net.dims[w] for a in half for w in a.legs if w in net.dims}
    try:
        return TV([net.dims.get(w) for w in outs], [(1, Net(half, [(w,) for w in outs], dims))])
    except Exception:
        return None


def elementwise(fname, v):
    """opaque elementwise function of one value: order-insensitive legs"""
    return _elementwise(v, fname)


@lifted
def _elementwise(v, fname):
    if isinstance(v, Dense):
        v = dense_to_tv(v)
    v = tv(v)
    # selections commute with elementwise functions: pull them out
    v = simplify_tv(v)
    groups = ['e'] * len(v.shape)
    i, order = intern(v, groups)
    ws = [new_wire() for _ in order[0]] if order else []
    label = ('fn', fname, i)
    if not order:
        return TV(v.shape, [(1, Net([Atom(label, ())], [(w,) for w in _nw(v.shape)], {}))]) if not v.shape else \
            atom_tv(label, v.shape)
    c, n = v.terms[0]
    m = dict(zip(order[0], ws))
    outs = [tuple(m[w] for w in ax) for ax in n.outs]
    dims = {m[w]: n.dims[w] for w in order[0]}
    return TV(v.shape, [(1, Net([Atom(label, ws)], outs, dims))])


def _nw(shape):
    return [new_wire() for _ in shape]


def opaque(label, args, shape):
    """an unmodelled pure function of tensor values: identified by its arguments"""
    key = (label,) + tuple(_arg_key(a) for a in args)
    return atom_tv(('op',) + key, shape)


def _arg_key(a):
    a = resolve(a) if isinstance(a, PhiV) else a
    if isinstance(a, (TV, PhiV, Dense)):
        return ('v', vn(a))
    if isinstance(a, (list, tuple)):
        return tuple(_arg_key(x) for x in a)
    if isinstance(a, Poly):
        return a
    return a if isinstance(a, (int, str, bool, float, type(None), Fraction)) else repr(a)


def split_scale(v):
    """(scale TV of rank 0, rest) pulling positive scalar factors common to all terms"""
    v = tv(v)
    if not v.terms:
        return scalar_tv(1), v
    common = None
    for c, n in v.terms:
        s = {(a.label, a.pow): a for a in n.atoms if not a.legs and kind(a.label) in POS_KINDS}
        common = s if common is None else {k: a for k, a in common.items() if k in s}
    coef = 1
    if len(v.terms) == 1:
        cc = Poly.of(v.terms[0][0]).const()
        if cc is not None and cc > 0:
            coef = v.terms[0][0]
    if not common and coef == 1:
        return scalar_tv(1), v
    terms = []
    for c, n in v.terms:
        atoms = []
        left = dict(common)
        for a in n.atoms:
            if not a.legs and (a.label, a.pow) in left:
                left.pop((a.label, a.pow))
                continue
            atoms.append(a)
        terms.append((1 if coef != 1 else c, Net(atoms, n.outs, n.dims)))
    sc = TV((), [(coef, Net(list(common.values()), [], {}))])
    return sc, TV(v.shape, terms)


@lifted
def scalar_fn(v, name):
    """norm / absmax: invariant under permutation of entries and conjugation, homogeneous"""
    v = tv(v)
    v = simplify_tv(v)
    sc, rest = split_scale(v)
    if len(rest.terms) == 1 and not rest.terms[0][1].atoms and not rest.shape:
        return TV((), [(1, Net([Atom((name, 0), ())], [], {}))]) if False else v
    i, _ = intern(rest, ['n'] * len(rest.shape))
    j, _ = intern(conj(rest), ['n'] * len(rest.shape))
    s = TV((), [(1, Net([Atom((name, min(i, j)), ())], [], {}))])
    return mul(sc, s)


@lifted
def matmul(a, b):
    if isinstance(a, Dense) and isinstance(b, Dense):
        if len(a.shape) == 2 and len(b.shape) == 2:
            return _dense_einsum(['ij', 'jk'], 'ik', [a, b], 'matmul')
        if len(a.shape) == 2 and len(b.shape) == 1:
            return _dense_einsum(['ij', 'j'], 'i', [a, b], 'matmul')
    ra, rb = len(a.shape), len(b.shape)
    a, b = tv(a), tv(b)
    if ra == 2 and rb == 2:
        return contract([('ij', a), ('jk', b)], 'ik', 'matmul')
    if ra == 2 and rb == 1:
        return contract([('ij', a), ('j', b)], 'i', 'matmul')
    if ra == 1 and rb == 2:
        return contract([('j', a), ('jk', b)], 'k', 'matmul')
    if ra == 1 and rb == 1:
        return contract([('j', a), ('j', b)], '', 'matmul')
    if ra >= 2 and rb >= 2:
        n = max(ra, rb)
        A = [('x', i) for i in range(n - ra, n - 2)] + ['i', 'j']
        B = [('x', i) for i in range(n - rb, n - 2)] + ['j', 'k']
        return contract([(A, a), (B, b)], [('x', i) for i in range(n - 2)] + ['i', 'k'], 'matmul')
    raise Incomplete('matmul ranks')


@lifted
def kron(a, b):
    if isinstance(a, Dense) and isinstance(b, Dense) and len(a.shape) == 2 == len(b.shape):
        (m, n), (p, q) = a.shape, b.shape
        data = [poly.mul(a.data[(i // p) * n + j // q], b.data[(i % p) * q + j % q])
                for i in range(m * p) for j in range(n * q)]
        return Dense((m * p, n * q), data)
    a, b = tv(a), tv(b)
    if len(a.shape) != len(b.shape):
        raise Incomplete('kron ranks')
    k = len(a.shape)
    r = contract([([('a', i) for i in range(k)], a), ([('b', i) for i in range(k)], b)],
                 [x for i in range(k) for x in (('a', i), ('b', i))], 'kron')
    return merge_axes(r, [[2 * i, 2 * i + 1] for i in range(k)])


@lifted
def merge_axes(v, groups):
    v = tv(v)
    return TV([prod(v.shape[i] for i in g) for g in groups],
              [(c, Net(n.atoms, [tuple(w for i in g for w in n.outs[i]) for g in groups], n.dims)) for c, n in v.terms])


@lifted
def sum_axes(v, axes):
    if isinstance(v, Dense):
        names = list(range(len(v.shape)))
        letters = 'abcdefghij'
        return _dense_einsum([letters[:len(v.shape)]], ''.join(letters[i] for i in names if i not in axes), [v], 'sum')
    v = tv(v)
    k = len(v.shape)
    return contract([(list(range(k)), v)], [i for i in range(k) if i not in axes], 'sum')


# -------------------------------------------------------------------- indexing

def norm_index(shape, idx):
    """normalise an index expression into a list with one entry per axis + newaxes"""
    idx = list(idx) if isinstance(idx, tuple) else [idx]
    n = sum(1 for i in idx if i is not None and i is not Ellipsis)
    if n > len(shape):
        raise DimError(f'too many indices for shape {shape}')
    if any(i is Ellipsis for i in idx):
        k = next(j for j, i in enumerate(idx) if i is Ellipsis)
        idx = idx[:k] + [slice(None)] * (len(shape) - n) + idx[k + 1:]
    else:
        idx = idx + [slice(None)] * (len(shape) - n)
    return idx


def slice_bounds(s, d):
    lo = 0 if s.start is None else s.start
    hi = d if s.stop is None else s.stop
    if s.step is not None and s.step != 1:
        raise Incomplete('strided slice')
    if isinstance(lo, int) and lo < 0:
        lo = poly.add(d, lo)
    if isinstance(hi, int) and hi < 0:
        hi = poly.add(d, hi)
    if compare('>=', hi, d):
        hi = d
    return lo, hi


@lifted
def index(v, idx):
    if isinstance(v, Tiled):
        raise Incomplete('read of a partially written tensor')
    idx = norm_index(v.shape, idx)
    if isinstance(v, Dense):
        if all(i is None or isinstance(i, int) or (isinstance(i, slice) and all(x is None or isinstance(x, int) for x in (i.start, i.stop, i.step))) for i in idx):
            return _dense_index(v, idx)
        v = dense_to_tv(v)
    v = tv(v)
    terms = []
    shape = None
    for c, n in v.terms or [(None, None)]:
        outs = []
        sh = []
        ax = 0
        for i in idx:
            d = None if i is None else v.shape[ax]
            if i is None:
                outs.append(())
                sh.append(1)
                continue
            if isinstance(i, slice):
                lo, hi = slice_bounds(i, d)
                if lo == 0 and dim_eq(hi, d):
                    sh.append(d)
                    if n is not None:
                        outs.append(n.outs[ax])
                else:
                    dd = poly.sub(hi, lo)
                    sh.append(dd)
                    if n is not None:
                        n, w = fuse_axis(n, ax)
                        o = new_wire()
                        n = Net(n.atoms + (Atom(('sel', lo, hi), (w, o)),), n.outs, {**n.dims, o: dd})
                        outs.append((o,))
            elif isinstance(i, (int, Poly)) and not isinstance(i, bool):
                if isinstance(i, int) and i < 0:
                    i = poly.add(d, i)
                if compare('<', i, d) is False:
                    raise DimError(f'index {i} out of range for dimension {d}')
                if n is not None:
                    n, w = fuse_axis(n, ax)
                    n = Net(n.atoms + (Atom(('idx', i), (w,)),), n.outs, n.dims)
            else:
                raise Incomplete(f'index with {i!r}')
            ax += 1
        shape = sh
        if n is not None:
            for c2, n2 in simplify_net(Net(n.atoms, outs, n.dims)):
                terms.append((poly.mul(c, c2), n2))
    return TV(shape, terms)


def _dense_index(v, idx):
    ranges = []
    shape = []
    ax = 0
    for i in idx:
        if i is None:
            shape.append(1)
            ranges.append(None)
            continue
        d = v.shape[ax]
        ax += 1
        if isinstance(i, slice):
            r = list(range(d))[i]
            ranges.append(r)
            shape.append(len(r))
        else:
            if not -d <= i < d:
                raise DimError(f'index {i} out of range for dimension {d}')
            ranges.append([i % d])
    data = []
    for combo in iproduct(*[r for r in ranges if r is not None]):
        data.append(v.data[_lin(combo, v.shape)])
    return Dense(shape, data)


@lifted
def setindex(v, val, idx):
    """value of v after v[idx] = val"""
    idx = norm_index(v.shape, idx)
    full = True
    region = []
    ax = 0
    for i in idx:
        if i is None:
            raise Incomplete('store with newaxis')
        d = v.shape[ax]
        if isinstance(i, slice):
            lo, hi = slice_bounds(i, d)
            region.append((lo, hi))
            if not (lo == 0 and dim_eq(hi, d)):
                full = False
        elif isinstance(i, (int, Poly)) and not isinstance(i, bool):
            if isinstance(i, int) and i < 0:
                i = poly.add(d, i)
            if compare('<', i, d) is False:
                raise DimError(f'index {i} out of range for dimension {d}')
            region.append(i)
            full = False
        else:
            raise Incomplete(f'store with index {i!r}')
        ax += 1
    rshape = [poly.sub(r[1], r[0]) if isinstance(r, tuple) else None for r in region]
    rs = [s for s in rshape if s is not None]
    if not isinstance(val, (Dense, TV)):
        val = Dense((), [val])
    if isinstance(v, Dense) and isinstance(val, Dense) and all(
            isinstance(r, int) or (isinstance(r[0], int) and isinstance(r[1], int)) for r in region):
        data = list(v.data)
        outs = [r[1] - r[0] for r in region if isinstance(r, tuple)]
        sv = (1,) * (len(outs) - len(val.shape)) + tuple(val.shape)
        for idxs in iproduct(*[range(s) for s in outs]):
            it = iter(idxs)
            pos = [(r if isinstance(r, int) else r[0] + next(it)) for r in region]
            vi = [0 if s == 1 else i for i, s in zip(idxs, sv)]
            data[_lin(pos, v.shape)] = val.data[_lin(vi, sv)] if sv else val.data[0]
        return Dense(v.shape, data)
    sa, sb, out = _bshape(val.shape, rs)
    bv = _broadcast(expand(tv(val), sa), sa, out)
    if full:
        return bv
    if all(isinstance(r, int) for r in region):
        old = index(v, tuple(region))
        diff = sub(bv, old)
        e = None
        terms = []
        for c, n in tv(diff).terms:
            ws = [new_wire() for _ in region]
            terms.append((c, Net(n.atoms + tuple(Atom(('idx', r), (w,)) for r, w in zip(region, ws)),
                                 [(w,) for w in ws], {**n.dims, **dict(zip(ws, v.shape))})))
        # axes of v may be fused; both are sums of terms with own structure
        base = tv(v)
        return simplify_tv(TV(v.shape, list(base.terms) + terms)) if all(
            len(ax) == 1 for _, n in base.terms for ax in n.outs) else _raise('store into fused tensor')
    if isinstance(v, Tiled):
        return Tiled(v.base, v.stores + [(tuple(region), bv)])
    return Tiled(v, [(tuple(region), bv)])


def _raise(m):
    raise Incomplete(m)


# ------------------------------------------------------------ matrix functions

def _reg_matrix(v):
    """register a 2-axis value; returns (id, rows order, cols order, scale TV, term net)"""
    v = simplify_tv(tv(v))
    sc, rest = split_scale(v)
    if not rest.terms:
        raise Incomplete('matrix function of zero')
    i, order = intern(rest, ['r', 'c'])
    n = rest.terms[0][1]
    nr = len(n.outs[0])
    o = order[0]
    return i, o[:nr], o[nr:], sc, n


def _mk(label, legs_new, outs, dims, shape):
    return TV(shape, [(1, Net([Atom(label, legs_new)], outs, dims))])


@lifted
def qr(v, mode='reduced'):
    i, rows, cols, sc, n = _reg_matrix(v)
    m, k = v.shape
    d = poly.min_(m, k)
    fr = {w: new_wire() for w in rows}
    fc = {w: new_wire() for w in cols}
    a, b = new_wire(), new_wire()
    Q = _mk(('qrQ', i), [fr[w] for w in rows] + [a], [tuple(fr[w] for w in n.outs[0]), (a,)],
            {**{fr[w]: n.dims[w] for w in rows}, a: d}, (m, d))
    R = _mk(('qrR', i), [b] + [fc[w] for w in cols], [(b,), tuple(fc[w] for w in n.outs[1])],
            {**{fc[w]: n.dims[w] for w in cols}, b: d}, (d, k))
    return Q, mul(R, sc) if not _is_one(sc) else R


def _is_one(sc):
    return len(sc.terms) == 1 and sc.terms[0][0] == 1 and not sc.terms[0][1].atoms


@lifted
def svd(v, full=True):
    i, rows, cols, sc, n = _reg_matrix(v)
    m, k = v.shape
    d = poly.min_(m, k)
    fr = {w: new_wire() for w in rows}
    fc = {w: new_wire() for w in cols}
    a, b, s = new_wire(), new_wire(), new_wire()
    du, dv = (m, k) if full else (d, d)
    U = _mk(('svdU', i), [fr[w] for w in rows] + [a], [tuple(fr[w] for w in n.outs[0]), (a,)],
            {**{fr[w]: n.dims[w] for w in rows}, a: du}, (m, du))
    S = _mk(('svdS', i), [s], [(s,)], {s: d}, (d,))
    Vh = _mk(('svdVh', i), [b] + [fc[w] for w in cols], [(b,), tuple(fc[w] for w in n.outs[1])],
             {**{fc[w]: n.dims[w] for w in cols}, b: dv}, (dv, k))
    return U, (S if _is_one(sc) else mul(S, sc)), Vh


@lifted
def eigh(v):
    i, rows, cols, sc, n = _reg_matrix(v)
    m, k = v.shape
    # eigenvectors: rows attach to the *row* wires.  keep registered order
    fr = {w: new_wire() for w in rows}
    a, s = new_wire(), new_wire()
    Z = _mk(('eighZ', i), [fr[w] for w in rows] + [a], [tuple(fr[w] for w in n.outs[0]), (a,)],
            {**{fr[w]: n.dims[w] for w in rows}, a: m}, (m, m))
    W = _mk(('eighW', i), [s], [(s,)], {s: m}, (m,))
    return (W if _is_one(sc) else mul(W, sc)), Z


@lifted
def inverse(v, label='inv'):
    """label 'inv' or 'pinv': legs = cols + rows"""
    if len(v.terms) == 1:
        n = v.terms[0][1]
        ch = [a for a in n.atoms if a.legs]
        if len(ch) == 1 and kind(ch[0].label) == 'chol':
            h = len(ch[0].legs) // 2
            if ch[0].conj:
                return conj(inverse(conj(v), label))
            if set(ch[0].legs[h:]) == set(n.outs[0]) and set(ch[0].legs[:h]) == set(n.outs[1]):
                return permute(inverse(permute(v, (1, 0)), label), (1, 0))
    i, rows, cols, sc, n = _reg_matrix(v)
    m, k = v.shape
    fr = {w: new_wire() for w in rows}
    fc = {w: new_wire() for w in cols}
    P = _mk((label, i, len(rows)), [fc[w] for w in cols] + [fr[w] for w in rows],
            [tuple(fc[w] for w in n.outs[1]), tuple(fr[w] for w in n.outs[0])],
            {**{fr[w]: n.dims[w] for w in rows}, **{fc[w]: n.dims[w] for w in cols}}, (k, m))
    return P if _is_one(sc) else mul(P, pow_(sc, -1))


@lifted
def cholesky(v):
    i, rows, cols, sc, n = _reg_matrix(v)
    m, k = v.shape
    if len(rows) != len(cols):
        raise Incomplete('cholesky of unequal fused axes')
    fr = {w: new_wire() for w in rows}
    fc = {w: new_wire() for w in rows}      # the column axis of L mirrors the row structure
    L = _mk(('chol', i), [fr[w] for w in rows] + [fc[w] for w in rows],
            [tuple(fr[w] for w in n.outs[0]), tuple(fc[w] for w in n.outs[0])],
            {**{fr[w]: n.dims[w] for w in rows}, **{fc[w]: n.dims[w] for w in rows}}, (m, k))
    return L if _is_one(sc) else mul(L, pow_(sc, Fraction(1, 2)))


# ------------------------------------------------------------ comparison

def _strip_scalars(v):
    """drop coefficient-like positive factors (used for equality up to scale)"""
    terms = []
    for c, n in v.terms:
        terms.append((c, Net([a for a in n.atoms if a.legs or kind(a.label) not in POS_KINDS], n.outs, n.dims)))
    return TV(v.shape, terms)


def key_of(v, up_to_scale=False):
    v = simplify_tv(tv(v))
    if up_to_scale:
        v = simplify_tv(_strip_scalars(v))
    ts = []
    for c, n in v.terms:
        n1 = Net(n.atoms, [(w,) for w in flat_outs(n)], n.dims)
        k, _ = canon(n1)
        ts.append((k, c))
    if up_to_scale and len(ts) == 1:
        c = Poly.of(ts[0][1])
        cc = c.const()
        sgn = 1 if cc is None or cc > 0 else -1
        if cc is not None or poly.sign_of(c) == '+':
            ts = [(ts[0][0], sgn)]
    return frozenset((k, Poly.of(c)) for k, c in ts)


def same(a, b, up_to_scale=False):
    """structural equality of two (un-gated) values"""
    if isinstance(a, Dense) and isinstance(b, Dense):
        return a.shape == b.shape and all(Poly.of(x) == Poly.of(y) for x, y in zip(a.data, b.data))
    if isinstance(a, Tiled):
        a = assemble(a) or a
    if isinstance(b, Tiled):
        b = assemble(b) or b
    if isinstance(a, (Dense, TV)) and isinstance(b, (Dense, TV)):
        return key_of(a, up_to_scale) == key_of(b, up_to_scale)
    if a is b:
        return True
    if isinstance(a, Tiled) or isinstance(b, Tiled):
        if up_to_scale:
            raise Incomplete('scale of a tensor written in parts')
        return _same_tiles(a, b) if isinstance(a, Tiled) else _same_tiles(b, a)
    return False


def _same_tiles(a, b):
    """entry by entry along the axes written in parts, when their offsets are constant"""
    if isinstance(a.base, (Tiled, PhiV)) or any(isinstance(v, (Tiled, PhiV)) for _, v in a.stores):
        raise Incomplete('read of a partially written tensor')
    axes = []
    for i, d in enumerate(a.shape):
        full = lambda r: isinstance(r, tuple) and r[0] == 0 and dim_eq(r[1], d)
        if all(full(reg[i]) for reg, _ in a.stores):
            continue
        if not isinstance(d, int) or not all(isinstance(x, int) for reg, _ in a.stores for x in (reg[i] if isinstance(reg[i], tuple) else (reg[i],))):
            raise Incomplete('read of a partially written tensor')
        axes.append(i)
    import itertools

    def entry(v, pos):
        if isinstance(v, Tiled):
            for reg, val in reversed(v.stores):
                loc, hit = [], True
                for i, r in enumerate(reg):
                    if i not in pos:
                        if isinstance(r, tuple):
                            loc.append(slice(None))
                        continue
                    if isinstance(r, tuple):
                        hit = hit and r[0] <= pos[i] < r[1]
                        loc.append(pos[i] - r[0])
                    else:
                        hit = hit and r == pos[i]
                if hit:
                    return index(val, tuple(loc)) if loc else val
            v = v.base
        return index(v, tuple(pos.get(i, slice(None)) for i in range(len(v.shape))))
    if isinstance(b, Tiled):
        for reg, _ in b.stores:
            for i, r in enumerate(reg):
                if i not in axes and not (isinstance(r, tuple) and r[0] == 0 and dim_eq(r[1], b.shape[i])):
                    raise Incomplete('tensors written in different parts')
                if not all(isinstance(x, int) for x in (r if isinstance(r, tuple) else (r,))) and i in axes:
                    raise Incomplete('tensors written in different parts')
    for cell in itertools.product(*(range(a.shape[i]) for i in axes)):
        pos = dict(zip(axes, cell))
        if not same(entry(a, pos), entry(b, pos)):
            return False
    return True


def leaves(v, assume=None):
    """all (assumptions, leaf) of a gated value, under the current assumptions"""
    assume = dict(ASSUME[0]) if assume is None else assume
    if isinstance(v, PhiV):
        if v.guard in assume:
            yield from leaves(v.a if assume[v.guard] else v.b, assume)
            return
        yield from leaves(v.a, {**assume, v.guard: True})
        yield from leaves(v.b, {**assume, v.guard: False})
        return
    yield assume, v


def equal_all(a, b, up_to_scale=False):
    """every leaf of a equals the corresponding leaf of b: (bool, message)"""
    for as1, x in leaves(a):
        for as2, y in leaves(b, as1):
            if not same(x, y, up_to_scale):
                return False, describe_diff(x, y, up_to_scale, {k: v for k, v in as2.items()})
    return True, ''


def net_edges(n):
    """human readable list of connections"""
    occ = {}
    for i, a in enumerate(n.atoms):
        for p, w in enumerate(a.legs):
            occ.setdefault(w, []).append(f"{fmt_label(a.label)}{'*' if a.conj else ''}.{p}")
    for i, ax in enumerate(n.outs):
        for j, w in enumerate(ax):
            occ.setdefault(w, []).append(f'out{i}' + (f'.{j}' if len(ax) > 1 else ''))
    return sorted('--'.join(sorted(x)) for x in occ.values())


def describe_diff(x, y, up_to_scale, assume):
    try:
        x, y = simplify_tv(tv(x)), simplify_tv(tv(y))
    except Incomplete as e:
        return str(e)
    if len(x.terms) == 1 and len(y.terms) == 1:
        from collections import Counter
        (cx, nx), (cy, ny) = x.terms[0], y.terms[0]
        if up_to_scale:
            nx = _strip_scalars(x).terms[0][1]
            ny = _strip_scalars(y).terms[0][1]
        ex, ey = Counter(net_edges(nx)), Counter(net_edges(ny))
        miss = list((ey - ex).elements())[:6]
        extra = list((ex - ey).elements())[:6]
        s = f'found connections {extra} where {miss} are required'
        if not miss and not extra:
            s = f'coefficients/powers differ: {cx} vs {cy}; {nx} vs {ny}'
    else:
        s = f'found {x!r:.400} required {y!r:.400}'
    if assume:
        s += f' [under {", ".join(str(k) + "=" + str(v) for k, v in assume.items())}]'
    return s


def generalise(v, var, lo, n, step):
    """Value of a tensor after the loop `for var in range(lo, n, step)` stored tiles that
    depend on var.  Only complete, exact tilings of an axis are resolved."""
    v0 = v
    if isinstance(v, PhiV):
        return PhiV(v.guard, generalise(v.a, var, lo, n, step), generalise(v.b, var, lo, n, step))
    if not isinstance(v, Tiled):
        return v
    stores = []
    base = v.base
    for region, val in v.stores:
        reg = list(region)
        for ax, r in enumerate(reg):
            d = base.shape[ax]
            varp = Poly.of(var)
            if isinstance(r, tuple) and isinstance(r[0], Poly) and r[0] == varp:
                hi_ok = r[1] == poly.min_(n, poly.add(var, step)) or r[1] == poly.add(var, step) \
                    or r[1] == poly.min_(d, poly.add(var, step))
                if not (hi_ok and lo == 0 and dim_eq(n, d)):
                    continue
                pos = sum(1 for q in reg[:ax] if isinstance(q, tuple))
                nv = _unslice(val, pos, r, d)
                if nv is not None:
                    reg[ax] = (0, d)
                    val = nv
            elif isinstance(r, Poly) and r == varp and lo == 0 and step == 1 and dim_eq(n, d):
                pos = sum(1 for q in reg[:ax] if isinstance(q, tuple))
                nv = _unindex(val, pos, var, d)
                if nv is not None:
                    reg[ax] = (0, d)
                    val = nv
        stores.append((tuple(reg), val))
    for region, val in stores:
        full = all(isinstance(r, tuple) and r[0] == 0 and dim_eq(r[1], d) for r, d in zip(region, base.shape))
        if full:
            base = val
        elif isinstance(base, Tiled):
            base = Tiled(base.base, base.stores + [(region, val)])
        else:
            base = Tiled(base, [(region, val)])
    return base


def assemble(t):
    """the value of a tensor written tile by tile at constant offsets, when the tiles cover it and are slices of one value"""
    if isinstance(t.base, (Tiled, PhiV)):
        return None
    stores = []
    for region, val in t.stores:
        val = simplify_tv(val) if isinstance(val, TV) else None
        if val is None:
            return None
        stores.append((tuple(region), val))
    shape = t.shape
    full = lambda reg: all(isinstance(r, tuple) and r[0] == 0 and dim_eq(r[1], d) for r, d in zip(reg, shape))
    # a later store over the same region wins
    last = {}
    for reg, val in stores:
        last.pop(reg, None)
        last[reg] = val
    stores = list(last.items())
    progress = True
    while progress and len(stores) >= 1:
        progress = False
        for reg, val in stores:
            if full(reg) and len(stores) == 1:
                return val
        for ax, d in enumerate(shape):
            groups = {}
            for reg, val in stores:
                if isinstance(reg[ax], tuple) and reg[ax][0] == 0 and dim_eq(reg[ax][1], d):
                    continue
                groups.setdefault(reg[:ax] + (None,) + reg[ax + 1:], []).append((reg, val))
            for key, items in groups.items():
                merged = _merge_axis(items, ax, d)
                if merged is not None:
                    stores = [x for x in stores if not any(x[0] == y[0] for y in items)]
                    stores.append((key[:ax] + ((0, d),) + key[ax + 1:], merged))
                    progress = True
                    break
            if progress:
                break
    return None


def _merge_axis(items, ax, d):
    """tiles that partition axis ax (constant offsets, or one symbolic end): the common un-sliced value"""
    def bounds(r):
        return r if isinstance(r, tuple) else (r, poly.add(r, 1))
    bs = sorted([bounds(reg[ax]) for reg, _ in items], key=lambda b: str(b[0]) if not isinstance(b[0], int) else f'{b[0]:09d}')
    pos = 0
    for lo, hi in bs:
        if not dim_eq(lo, pos):
            return None
        pos = hi
    if not dim_eq(pos, d):
        return None
    res = None
    for reg, val in items:
        p = sum(1 for q in reg[:ax] if isinstance(q, tuple))
        r = reg[ax]
        nv = _unslice(val, p, r, d) if isinstance(r, tuple) else _unindex(val, p, r, d)
        if nv is None:
            return None
        nv = simplify_tv(nv)
        if res is None:
            res = nv
        elif not same(res, nv):
            return None
    return res


def mentions(x, var):
    """does a label / number mention symbol var (a Poly symbol)?"""
    sym = next(iter(Poly.of(var).symbols()))
    def go(y):
        if isinstance(y, Poly):
            return any(go(s) for s in y.symbols())
        if isinstance(y, (tuple, frozenset, list)):
            return any(go(z) for z in y)
        return y == sym
    return go(x)


def tv_mentions(v, var):
    return any(mentions(a.label, var) for _, n in v.terms for a in n.atoms) or any(mentions(c, var) for c, _ in v.terms)


def _unslice(val, pos, r, d):
    """val's axis pos must be a selection r of an inner wire; return the unselected value"""
    terms = []
    for c, n in val.terms:
        ax = n.outs[pos]
        if len(ax) != 1:
            return None
        w = ax[0]
        sels = [a for a in n.atoms if kind(a.label) == 'sel' and a.legs[1] == w]
        if len(sels) != 1 or sels[0].label[1] != r[0] or sels[0].label[2] != r[1]:
            return None
        if any(w in a.legs for a in n.atoms if a is not sels[0]):
            return None
        if sum(x.count(w) for x in n.outs) != 1:
            return None
        inner = sels[0].legs[0]
        atoms = [a for a in n.atoms if a is not sels[0]]
        outs = list(n.outs)
        outs[pos] = (inner,)
        dims = dict(n.dims)
        dims.pop(w, None)
        terms.append((c, Net(atoms, outs, dims)))
    shape = list(val.shape)
    shape[pos] = d
    return TV(shape, terms)


def _unindex(val, pos, var, d):
    """val was computed for one index value `var` of a wire: restore the wire as axis pos"""
    terms = []
    for c, n in val.terms:
        hits = [a for a in n.atoms if kind(a.label) == 'idx' and (a.label[1] == var if isinstance(var, int) else
                isinstance(a.label[1], Poly) and a.label[1] == Poly.of(var))]
        if not hits:
            return None
        atoms = [a for a in n.atoms if a not in hits]
        ws = [a.legs[0] for a in hits]
        m = {w: ws[0] for w in ws}
        outs = list(n.outs)
        outs.insert(pos, (ws[0],))
        terms.append((c, Net(atoms, outs, n.dims).ren(m)))
    shape = list(val.shape)
    shape.insert(pos, d)
    return TV(shape, terms)
