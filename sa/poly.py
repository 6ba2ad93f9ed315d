"""Symbolic numbers: polynomials with exact rational coefficients over named
symbols and opaque terms (min, max, ceil, floor division, tensor-derived
scalars).  Used for tensor dimensions, integer indices and scalar parameters."""
from fractions import Fraction

IMAG = 'i\u0302'          # the imaginary unit, as a symbol with IMAG**2 = -1

# symbols known to be integers >= 1 (dimensions); everything else: unknown sign
POSITIVE = set()
# opaque terms/symbols that are positive reals (norms ...)
NUMERIC_TYPES = (int, float, complex, Fraction)


def frac(x):
    if isinstance(x, bool):
        return Fraction(int(x))
    if isinstance(x, (int, Fraction)):
        return Fraction(x)
    if isinstance(x, float):
        if x != x or x in (float('inf'), float('-inf')):
            raise OverflowError('non finite')
        return Fraction(repr(x))
    raise TypeError(type(x))


def _skey(sym):
    return (str(type(sym).__name__), _srepr(sym))


def _srepr(sym):
    if isinstance(sym, frozenset):
        return '{' + ','.join(sorted(_srepr(x) for x in sym)) + '}'
    if isinstance(sym, tuple):
        return '(' + ','.join(_srepr(x) for x in sym) + ')'
    return str(sym)


_cache_key = {}


def skey(sym):
    k = _cache_key.get(sym)
    if k is None:
        k = _cache_key[sym] = _skey(sym)
    return k


class Poly:
    __slots__ = ('terms', '_h', 'isint')

    def __init__(self, terms, isint=False):
        # terms: dict monomial -> Fraction; monomial: tuple of (sym, exp) sorted
        self.terms = terms
        self._h = None
        self.isint = isint

    # -- construction -----------------------------------------------------
    @staticmethod
    def sym(name, positive=False, isint=False):
        if positive:
            POSITIVE.add(name)
        return Poly({((name, 1),): Fraction(1)}, isint)

    @staticmethod
    def of(x):
        if isinstance(x, Poly):
            return x
        if isinstance(x, complex):
            t = {}
            if x.real:
                t[()] = frac(x.real)
            if x.imag:
                t[((IMAG, 1),)] = frac(x.imag)
            return Poly(t)
        f = frac(x)
        return Poly({(): f} if f else {}, isinstance(x, int))

    # -- queries -----------------------------------------------------------
    def key(self):
        return frozenset(self.terms.items())

    def __hash__(self):
        if self._h is None:
            self._h = hash(self.key())
        return self._h

    def __eq__(self, o):
        if isinstance(o, NUMERIC_TYPES):
            try:
                o = Poly.of(o)
            except OverflowError:
                return False
        return isinstance(o, Poly) and self.terms == o.terms

    def const(self):
        """Fraction if constant else None"""
        if not self.terms:
            return Fraction(0)
        if len(self.terms) == 1 and () in self.terms:
            return self.terms[()]
        return None

    def symbols(self):
        return {s for m in self.terms for s, _ in m}

    def __repr__(self):
        if not self.terms:
            return '0'
        out = []
        for m, c in sorted(self.terms.items(), key=lambda kv: tuple((skey(s), e) for s, e in kv[0])):
            f = '*'.join((f'{_srepr(s)}' if e == 1 else f'{_srepr(s)}**{e}') for s, e in m)
            if not m:
                out.append(str(c))
            elif c == 1:
                out.append(f)
            else:
                out.append(f'{c}*{f}')
        return ' + '.join(out)

    # -- arithmetic ----------------------------------------------------------
    def __add__(self, o):
        o = Poly.of(o)
        t = dict(self.terms)
        for m, c in o.terms.items():
            v = t.get(m, 0) + c
            if v:
                t[m] = v
            else:
                t.pop(m, None)
        return Poly(t, self.isint and o.isint)

    def __neg__(self):
        return Poly({m: -c for m, c in self.terms.items()}, self.isint)

    def __sub__(self, o):
        return self + (-Poly.of(o))

    def __mul__(self, o):
        o = Poly.of(o)
        t = {}
        for m1, c1 in self.terms.items():
            for m2, c2 in o.terms.items():
                m, s = mono_mul(m1, m2)
                v = t.get(m, 0) + c1 * c2 * s
                if v:
                    t[m] = v
                else:
                    t.pop(m, None)
        return Poly(t, self.isint and o.isint)

    def pow(self, n):
        n = Fraction(n)
        if n.denominator == 1 and n >= 0:
            r = Poly.of(1)
            for _ in range(int(n)):
                r = r * self
            return r
        if len(self.terms) == 1:
            (m, c), = self.terms.items()
            if c > 0 and all(s != IMAG for s, _ in m):
                if c == 1:
                    cc = Fraction(1)
                elif n.denominator == 1:
                    cc = c ** int(n)
                else:
                    r = float(c) ** float(n)
                    cc = frac(r)
                return Poly({tuple((s, e * n) for s, e in m): cc})
            if c < 0 and n.denominator == 1 and all(s != IMAG for s, _ in m):
                return Poly({tuple((s, e * n) for s, e in m): c ** int(n)})
        return Poly({((('poly', self.key()), n),): Fraction(1)})

    def conj(self):
        return Poly({m: (-c if any(s == IMAG for s, _ in m) else c) for m, c in self.terms.items()})


def mono_mul(m1, m2):
    if not m1:
        return m2, 1
    if not m2:
        return m1, 1
    d = dict(m1)
    for s, e in m2:
        d[s] = d.get(s, 0) + e
    sign = 1
    if IMAG in d:
        e = int(d[IMAG]) % 4
        if e >= 2:
            sign = -1
        if e % 2:
            d[IMAG] = 1
        else:
            d.pop(IMAG)
    return tuple(sorted(((s, e) for s, e in d.items() if e != 0), key=lambda x: skey(x[0]))), sign


def simp(x):
    """Collapse a Poly that is constant to a python number."""
    if isinstance(x, Poly):
        c = x.const()
        if c is not None:
            if c.denominator == 1 and x.isint:
                return int(c)
            return int(c) if c.denominator == 1 else float(c)
    return x


def is_sym(x):
    return isinstance(x, Poly)


def _num(x):
    return isinstance(x, NUMERIC_TYPES)


def add(a, b):
    if _num(a) and _num(b):
        return a + b
    return simp(Poly.of(a) + b)


def sub(a, b):
    if _num(a) and _num(b):
        return a - b
    return simp(Poly.of(a) - b)


def mul(a, b):
    if _num(a) and _num(b):
        return a * b
    return simp(Poly.of(a) * b)


def neg(a):
    return -a if _num(a) else simp(-a)


def truediv(a, b):
    if _num(a) and _num(b):
        return a / b
    return simp(Poly.of(a) * Poly.of(b).pow(-1))


def power(a, b):
    if _num(a) and _num(b):
        return a ** b
    if _num(b):
        return simp(Poly.of(a).pow(frac(b)))
    return Poly({((('pow', Poly.of(a).key(), Poly.of(b).key()), 1),): Fraction(1)})


def term(kind, *args, positive=False, isint=True):
    s = (kind,) + args
    if positive:
        POSITIVE.add(s)
    return Poly({((s, 1),): Fraction(1)}, isint)


def floordiv(a, b):
    if _num(a) and _num(b):
        return a // b
    a, b = Poly.of(a), Poly.of(b)
    q = a * b.pow(-1)
    if all(all(e > 0 and e == int(e) for _, e in m) and c.denominator == 1 for m, c in q.terms.items()):
        return simp(Poly(q.terms, True))
    return term('fdiv', a, b)


def mod(a, b):
    if _num(a) and _num(b):
        return a % b
    a, b = Poly.of(a), Poly.of(b)
    # drop multiples of b when b is a single monomial with coefficient 1
    if len(b.terms) == 1:
        (bm, bc), = b.terms.items()
        if bc == 1 and bm:
            t = {m: c for m, c in a.terms.items() if m != bm or c.denominator != 1}
            a = Poly(t, a.isint)
    if not a.terms:
        return 0
    return term('mod', a, b)


def ceil_(a):
    if _num(a):
        import math
        return math.ceil(a)
    if all(c.denominator == 1 for c in a.terms.values()) and a.isint:
        return a
    return term('ceil', a, positive=sign_of(a) in ('+', '>=0'))


def _minmax(kind, args):
    flat = set()
    for a in args:
        p = Poly.of(a)
        if len(p.terms) == 1:
            (m, c), = p.terms.items()
            if c == 1 and len(m) == 1 and m[0][1] == 1 and isinstance(m[0][0], tuple) and m[0][0][0] == kind:
                flat |= m[0][0][1]
                continue
        flat.add(p)
    # drop dominated
    changed = True
    flat = set(flat)
    while changed:
        changed = False
        for x in list(flat):
            for y in list(flat):
                if x is y or x == y:
                    continue
                s = sign_of(y - x)
                if kind == 'min' and s in ('+', '>=0'):      # y >= x: drop y
                    flat.discard(y)
                    changed = True
                    break
                if kind == 'max' and s in ('+', '>=0'):      # y >= x: drop x
                    flat.discard(x)
                    changed = True
                    break
            if changed:
                break
    if len(flat) == 1:
        return simp(next(iter(flat)))
    pos = all(sign_of(x) == '+' for x in flat)
    return term(kind, frozenset(flat), positive=pos)


def min_(*args):
    if all(_num(a) for a in args):
        return min(args)
    return _minmax('min', args)


def max_(*args):
    if all(_num(a) for a in args):
        return max(args)
    return _minmax('max', args)


def _subst(p, sym, val):
    r = Poly({}, p.isint)
    for m, c in p.terms.items():
        e = dict(m).get(sym, 0)
        if e:
            rest = tuple((s, x) for s, x in m if s != sym)
            r = r + Poly({rest: c}, p.isint) * Poly.of(val).pow(e)
        else:
            r = r + Poly({m: c}, p.isint)
    return r




def _mentions(x, sym):
    if type(x) is type(sym) and x == sym:
        return True
    if isinstance(x, Poly):
        return any(_mentions(s, sym) for s in x.symbols())
    if isinstance(x, (tuple, frozenset, list)):
        return any(_mentions(y, sym) for y in x)
    return False


def subst(p, sym, val):
    """replace a symbol everywhere, also inside min and max; None when it sits inside another term"""
    r = 0
    for m, c in p.terms.items():
        t = Poly({(): c}, p.isint)
        for s, e in m:
            if s == sym:
                f = Poly.of(val)
            elif _mentions(s, sym):
                if not (isinstance(s, tuple) and s[0] in ('min', 'max')):
                    return None
                args = [subst(Poly.of(x), sym, val) for x in s[1]]
                if any(x is None for x in args):
                    return None
                f = Poly.of((min_ if s[0] == 'min' else max_)(*args))
            else:
                f = Poly({((s, 1),): 1}, p.isint)
            t = t * f.pow(e)
        r = t if isinstance(r, int) else r + t
    return simp(r) if isinstance(r, Poly) else r


_sign_memo = {}


def sign_of(p, depth=0):
    """'+', '-', '0', '>=0', '<=0' or None (unknown)."""
    p = Poly.of(p)
    c = p.const()
    if c is not None:
        return '+' if c > 0 else '-' if c < 0 else '0'
    k = p.key()
    if k in _sign_memo:
        return _sign_memo[k]
    _sign_memo[k] = None
    r = _sign(p, depth)
    _sign_memo[k] = r
    return r


def _sign(p, depth):
    syms = p.symbols()
    if any(e != int(e) or e < 0 for m in p.terms for _, e in m):
        return None
    if all(s in POSITIVE for s in syms):
        # substitute s = 1 + t (t >= 0) and look at coefficients
        t = p
        for s in syms:
            ts = ('t', s)
            t = _subst(t, s, Poly.sym(ts) + 1)
        cs = list(t.terms.values())
        c0 = t.terms.get((), Fraction(0))
        if all(c >= 0 for c in cs):
            return '+' if c0 > 0 else '>=0'
        if all(c <= 0 for c in cs):
            return '-' if c0 < 0 else '<=0'
    if depth > 4:
        return None
    # bound opaque min/max terms
    for s in syms:
        if isinstance(s, tuple) and s[0] in ('min', 'max') and all(dict(m).get(s, 0) in (0, 1) for m in p.terms):
            coefs = [c for m, c in p.terms.items() if dict(m).get(s, 0)]
            others_pos = all(all(x == s or x in POSITIVE for x, _ in m) for m in p.terms if dict(m).get(s, 0))
            if not others_pos:
                continue
            up = s[0] == 'min'
            # min <= arg, max >= arg
            if all(c < 0 for c in coefs):
                sub_ok = '+' if up else '-'
            elif all(c > 0 for c in coefs):
                sub_ok = '-' if up else '+'
            else:
                continue
            for a in s[1]:
                r = sign_of(_subst(p, s, a), depth + 1)
                if sub_ok == '+' and r in ('+', '>=0'):
                    return r
                if sub_ok == '+' and r == '0':
                    return '>=0'
                if sub_ok == '-' and r in ('-', '<=0'):
                    return r
                if sub_ok == '-' and r == '0':
                    return '<=0'
    # a min/max is one of its arguments: what holds for each of them holds
    for s in syms:
        if isinstance(s, tuple) and s[0] in ('min', 'max'):
            rs = {sign_of(_subst(p, s, a), depth + 1) for a in s[1]}
            for good, r in (({'+'}, '+'), ({'-'}, '-'), ({'+', '>=0', '0'}, '>=0'), ({'-', '<=0', '0'}, '<=0')):
                if rs <= good:
                    return r
    return None


def compare(op, a, b):
    """True / False / None (unknown) for a op b on numbers or Polys."""
    if _num(a) and _num(b):
        return {'<': a < b, '<=': a <= b, '>': a > b, '>=': a >= b, '==': a == b, '!=': a != b}[op] \
            if not isinstance(a, complex) and not isinstance(b, complex) else {'==': a == b, '!=': a != b}[op]
    try:
        d = Poly.of(a) - Poly.of(b)
    except OverflowError:
        return None
    s = sign_of(d)
    if op == '==':
        return True if s == '0' else False if s in ('+', '-') else None
    if op == '!=':
        r = compare('==', a, b)
        return None if r is None else not r
    if op == '<':
        return True if s == '-' else False if s in ('+', '0', '>=0') else None
    if op == '<=':
        return True if s in ('-', '0', '<=0') else False if s == '+' else None
    if op == '>':
        return True if s == '+' else False if s in ('-', '0', '<=0') else None
    if op == '>=':
        return True if s in ('+', '0', '>=0') else False if s == '-' else None
