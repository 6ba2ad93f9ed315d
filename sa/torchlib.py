"""Semantics of the torch operations (as tensor networks), of torch.distributed and of the
small amount of torch infrastructure the analysed code uses."""
import ast
import os
from fractions import Fraction
from . import poly, tnet
from .poly import Poly
from .tnet import Guard, Incomplete, DimError
from .objects import *

NUM = (int, float, complex, Poly, Fraction)
RANK = {'bool': 0, 'uint8': 1, 'int8': 1, 'int16': 1, 'int32': 1, 'int64': 1, 'float16': 2, 'bfloat16': 2, 'float32': 3,
        'float64': 4, 'complex64': 5, 'complex128': 6}


def dt(name):
    return Tok('torch.' + name, kind='dtype')


DTYPES = {n: dt(n) for n in RANK}
ALIASES = {'double': 'float64', 'float': 'float32', 'half': 'float16', 'long': 'int64', 'int': 'int32', 'cdouble': 'complex128',
           'cfloat': 'complex64', 'short': 'int16'}


def device(name, index=None):
    if isinstance(name, str) and ':' in name:
        name, i = name.split(':')
        index = int(i) if i.isdigit() else i
    full = name if index is None else f'{name}:{index}'
    return Tok('device:' + str(full), kind='device', type=name, index=index)


CPU = device('cpu')


def _raise(I, cls, *args):
    from .interp import PyRaise
    raise PyRaise(ExcVal(cls, args))


class NTuple(tuple):
    """named result tuple"""
    def __new__(cls, items, names):
        t = super().__new__(cls, items)
        t.names = names
        return t


# ------------------------------------------------------------------- dtypes

def base(d):
    return d.name.split('.')[-1] if isinstance(d, Tok) else None


def is_complex(d):
    return d is not None and 'complex' in d.name


def promote(a, b):
    if a is None or b is None:
        return a or b
    if a == b:
        return a
    ra, rb = RANK.get(base(a)), RANK.get(base(b))
    if ra is None or rb is None:
        return Tok('torch.mixed', kind='dtype')
    if {base(a), base(b)} == {'float64', 'complex64'}:
        return DTYPES['complex128']
    return a if ra >= rb else b


def real_dtype(d):
    if d is None:
        return None
    return {'complex64': DTYPES['float32'], 'complex128': DTYPES['float64']}.get(base(d), d)


def as_dtype(I, d):
    d = I.resolve(d)
    if d is None:
        return None
    if isinstance(d, Builtin):
        return {'int': DTYPES['int64'], 'float': DTYPES['float64'], 'bool': DTYPES['bool'], 'complex': DTYPES['complex128']}.get(d.name)
    if isinstance(d, Tok) and d.attrs.get('kind') == 'dtype':
        return d
    if isinstance(d, Phi):
        raise Incomplete('gated dtype')
    if isinstance(d, (str, int, float, PList, tuple)):
        _raise(I, 'TypeError', 'invalid dtype', repr(d))
    raise Incomplete(f'dtype {d!r}')


def as_device(I, d):
    d = I.resolve(d)
    if d is None:
        return CPU
    if isinstance(d, Tok) and d.attrs.get('kind') == 'device':
        return d
    if isinstance(d, str):
        return device(d)
    if isinstance(d, int) and not isinstance(d, bool):
        return device('cuda', d)
    if isinstance(d, Phi):
        raise Incomplete('gated device')
    raise Incomplete(f'device {d!r}')


def note(I, what, *args):
    I.notes.append((what, args, tuple(I.where[-3:])))


def combine(I, op, ts, strict=False):
    """dtype/device of an operation on several tensors; notes inconsistent operands"""
    d, dev = None, None
    for t in ts:
        if dev is None or (len(t.shape) > 0 and t.device is not None and dev != t.device):
            if dev is not None and not (prev0):
                note(I, 'device', op, dev, t.device)
            dev = t.device
            prev0 = len(t.shape) == 0
        nd = promote(d, t.dtype)
        if d is not None and t.dtype != d:
            if strict:
                note(I, 'dtype', op, d, t.dtype)
        d = nd
    return d, dev


def tnum_dtype(d, x):
    """dtype of tensor (dtype d) combined with python number x"""
    if isinstance(x, complex) or (isinstance(x, Poly) and poly.is_complex(x) if hasattr(poly, 'is_complex') else False):
        if not is_complex(d):
            return DTYPES['complex128'] if base(d) == 'float64' else DTYPES['complex64']
        return d
    if isinstance(x, (float, Fraction)) and base(d) in ('bool', 'int64', 'int32', 'uint8', 'int16', 'int8'):
        return DTYPES['float32']
    return d


# ------------------------------------------------------------------ wrapping

def mk(I, v, dtype=None, dev=None, meta=None):
    return TObj(v, dtype, dev, meta=meta)


def like(t, v, dtype=None, meta=None):
    return TObj(v, dtype or t.dtype, t.device, meta=meta)


def view(t, get, put, may=None, dtype=None):
    return TObj(base=t, get=get, put=put, may=may, dtype=dtype or t.dtype, device=t.device)


def _noput(what):
    def put(old, new):
        raise Incomplete(f'store through {what}')
    return put


def val(I, x):
    """tensor value of x (TObj or number)"""
    x = I.resolve(x)
    if isinstance(x, TObj):
        return x.v
    if isinstance(x, bool):
        return tnet.Dense((), [int(x)])
    if isinstance(x, NUM):
        return tnet.Dense((), [x])
    raise Incomplete(f'tensor operand {x!r}')


def dims_of(I, a):
    """flatten shape arguments"""
    out = []
    for x in a:
        x = I.resolve(x)
        if isinstance(x, (tuple, PList)):
            for y in I.iterate(x):
                out.append(one_dim(I, y))
        else:
            out.append(one_dim(I, x))
    return out


def one_dim(I, y):
    y = I.resolve(y)
    if isinstance(y, TObj):
        return as_index(I, y)
    if isinstance(y, bool):
        return int(y)
    if isinstance(y, (int, Poly)):
        return y
    if isinstance(y, Phi):
        raise Incomplete('gated dimension')
    if isinstance(y, Gen):
        raise Incomplete('symbolic number of dimensions')
    if isinstance(y, (float, str)) or y is None:
        _raise(I, 'TypeError', 'invalid dimension', repr(y))
    raise Incomplete(f'dimension {y!r}')


def axis(I, i, n):
    i = I.resolve(i)
    if isinstance(i, TObj):
        i = as_index(I, i)
    if not isinstance(i, int):
        raise Incomplete(f'axis {i!r}')
    if not -n <= i < max(n, 1):
        _raise(I, 'IndexError', 'dimension out of range', i)
    return i % n if n else 0


def isint_dtype(d):
    return base(d) in ('bool', 'int64', 'int32', 'uint8', 'int16', 'int8')


def as_index(I, t):
    """integer value of a scalar tensor"""
    t = I.resolve(t)
    if isinstance(t, Phi):
        return I.lift(lambda x: as_index(I, x) if isinstance(x, TObj) else x, t)
    if not isinstance(t, TObj):
        return t
    return _num(I, t, isint_dtype(t.dtype))


def _num(I, t, isint):
    v = tnet.resolve(t.v)
    if isinstance(v, tnet.PhiV):
        def side(x):
            return _num(I, TObj(x, t.dtype, t.device), isint)
        return I.fork(v.guard, lambda: side(v.a), lambda: side(v.b))
    if len(v.shape) and not all(tnet.dim_eq(s, 1) for s in v.shape):
        _raise(I, 'RuntimeError', 'not a scalar tensor')
    if isinstance(v, tnet.Dense):
        return poly.simp(Poly.of(v.data[0])) if not isinstance(v.data[0], (int, float, complex)) else v.data[0]
    v = tnet.simplify_tv(v)
    if not v.terms:
        return 0
    if len(v.terms) == 1 and not v.terms[0][1].atoms:
        return v.terms[0][0]
    if isinstance(t.meta, tuple) and t.meta and t.meta[0] == 'int':
        return t.meta[1]
    s = Poly.sym(('val', tnet.vn(v)), False, isint)
    return s


def as_number(I, t):
    return _num(I, t, isint_dtype(t.dtype))


def scalar_of(I, p, t, dtype=None):
    """0-dim tensor with value p"""
    return TObj(tnet.scalar_tv(p), dtype or t.dtype, t.device)


# ---------------------------------------------------------------- arithmetic

def _inv(x):
    if isinstance(x, (int, Fraction)) and not isinstance(x, bool):
        if x == 0:
            return None
        return Fraction(1, 1) / x
    return poly.truediv(1, x)


def binary(I, n, a, b):
    if isinstance(a, Unk) or isinstance(b, Unk):
        return a if isinstance(a, Unk) else b
    for x in (a, b):
        if not isinstance(x, (TObj, bool) + NUM):
            if x is None or isinstance(x, (str, tuple, PDict, Tok)):
                _raise(I, 'TypeError', 'unsupported operand for tensor', n, repr(x))
            if isinstance(x, PList):
                _raise(I, 'TypeError', 'unsupported operand for tensor', n)
            raise Incomplete(f'tensor {n} with {x!r}')
    if isinstance(a, TObj) and isinstance(b, TObj):
        d, dev = combine(I, n, [a, b], strict=(n == 'MatMult'))
    else:
        t, x = (a, b) if isinstance(a, TObj) else (b, a)
        d, dev = tnum_dtype(t.dtype, x), t.device
    va = a.v if isinstance(a, TObj) else a
    vb = b.v if isinstance(b, TObj) else b
    if isinstance(va, bool):
        va = int(va)
    if isinstance(vb, bool):
        vb = int(vb)
    if n == 'Add':
        return TObj(tnet.add(va, vb), d, dev)
    if n == 'Sub':
        return TObj(tnet.sub(va, vb), d, dev)
    if n == 'Mult':
        return TObj(tnet.mul(va, vb), d, dev)
    if n == 'Div':
        if isint_dtype(d):
            d = DTYPES['float32']
        if isinstance(vb, NUM):
            iv = _inv(vb)
            if iv is None:
                return TObj(tnet.opaque('div0', [va], va.shape), d, dev)
            return TObj(tnet.scale(va, iv), d, dev)
        return TObj(tnet.mul(va, tnet.pow_(vb, -1)), d, dev)
    if n == 'MatMult':
        if isinstance(va, NUM) or isinstance(vb, NUM):
            _raise(I, 'TypeError', 'matmul with a number')
        return TObj(tnet.matmul(va, vb), d, dev)
    if n == 'Pow':
        return power(I, a, b, d, dev)
    if n in ('FloorDiv', 'Mod', 'BitAnd', 'BitOr', 'BitXor'):
        if isinstance(a, TObj) and isinstance(b, TObj) or n.startswith('Bit'):
            sh = tnet._bshape(getattr(va, 'shape', ()), getattr(vb, 'shape', ()))[2]
            return TObj(tnet.opaque(n, [va, vb], sh), d, dev)
        x, y = (as_number(I, q) if isinstance(q, TObj) else q for q in (a, b))
        return TObj(tnet.scalar_tv((poly.floordiv if n == 'FloorDiv' else poly.mod)(x, y)), d, dev)
    raise Incomplete(f'tensor operation {n}')


def power(I, a, b, d, dev):
    if isinstance(b, TObj):
        vb = b.v
        if not isinstance(a, TObj):
            return TObj(tnet.elementwise(('rpow', str(a)), vb), d, dev)
        sh = tnet._bshape(a.shape, b.shape)[2]
        return TObj(tnet.opaque('pow', [a.v, vb], sh), d, dev)
    if isinstance(b, Poly):
        b = b.const() if b.const() is not None else b
    if isinstance(b, (int, float, Fraction)):
        return TObj(pw(a.v, b), d, dev)
    return TObj(tnet.elementwise(('pow', str(b)), a.v), d, dev)


def pw(v, p):
    """power; a real square root etc. distributes over products"""
    if p == 0:
        return tnet.ones_tv(v.shape)
    return tnet.pow_(v, p)


def inplace_op(I, op, cur, v):
    n = type(op).__name__
    if isinstance(v, Unk):
        raise Incomplete(f'in-place {n} with {v!r}')
    r = binary(I, n, cur, v)
    if is_complex(r.dtype) and not is_complex(cur.dtype) or (isint_dtype(cur.dtype) and not isint_dtype(r.dtype)):
        _raise(I, 'RuntimeError', 'result type cannot be cast to the in-place destination')
    sh = r.shape
    if len(sh) != len(cur.shape) or any(tnet.dim_eq(x, y) is False for x, y in zip(sh, cur.shape)):
        _raise(I, 'RuntimeError', 'in-place result shape mismatch')
    I.inplace_log.append((cur, n, tuple(I.where[-1:])))
    cur.write(r.v)
    return cur


NONNEG = ('norm', 'absmax', 'svdS', 'sel', 'idx', 'ones', 'lam', 'delta', 'fuse')


def nonneg(v):
    if isinstance(v, tnet.Dense):
        return all((Poly.of(x).const() is not None and not isinstance(Poly.of(x).const(), complex) and Poly.of(x).const() >= 0) for x in v.data)
    if not isinstance(v, tnet.TV):
        return False
    for c, n in v.terms:
        cc = Poly.of(c).const()
        if cc is None or isinstance(cc, complex) or cc < 0:
            if not (cc is None and poly.sign_of(Poly.of(c)) in ('+', '>=0', '0')):
                return False
        for a in n.atoms:
            k = tnet.kind(a.label)
            if k in NONNEG:
                continue
            if k == 'fn' and a.label[1] in ('abs', 'exp', 'sqrt'):
                continue
            return False
    return True


def absv(v):
    return tnet.lifted(lambda x: x if nonneg(x) else _abs(x))(v)


def _abs(x):
    if isinstance(x, tnet.Dense):
        if all(Poly.of(y).const() is not None for y in x.data):
            return tnet.Dense(x.shape, [abs(Poly.of(y).const()) for y in x.data])
    if isinstance(x, tnet.TV) and x.terms:
        got = _abs_factors(x)
        if got is not None:
            return got
    if isinstance(x, tnet.TV) and len(x.terms) == 1:
        # |c * t| = |c| |t|
        sc, rest = tnet.split_scale(x)
        if not tnet._is_one(sc):
            return tnet.mul(tnet.elementwise('abs', rest), sc)
    return tnet.elementwise('abs', x)


def _abs_factors(x):
    """|s^p t| = |s|^p |t| for the scalars s common to every term (and |-t| = |t|)"""
    x = tnet.simplify_tv(x)
    pows = []
    for c, n in x.terms:
        d = {}
        for a in n.atoms:
            if not a.legs:
                k = (a.label, a.conj)
                d[k] = d.get(k, 0) + a.pow
        pows.append(d)
    keys = set().union(*pows)
    low = {k: min(d.get(k, 0) for d in pows) for k in keys}
    low = {k: p for k, p in low.items() if p != 0}
    alone = not x.shape and len(x.terms) == 1 and len(x.terms[0][1].atoms) == len(low) == 1 and list(low.values()) == [1]
    if low and not alone:
        rest, out = x, None
        for (label, cj), p in sorted(low.items(), key=repr):
            a = tnet.TV((), [(1, tnet.Net([tnet.Atom(label, (), cj, 1)], [], {}))])
            rest = tnet.mul(rest, tnet.TV((), [(1, tnet.Net([tnet.Atom(label, (), cj, -p)], [], {}))]))
            if tnet.kind(label) == 'val':
                f = absv(tnet.VN[label[1]])
            else:
                f = absv(a)
            f = tnet.pow_(f, p)
            out = f if out is None else tnet.mul(out, f)
        return tnet.mul(absv(rest), out)
    c = Poly.of(x.terms[0][0]).const() if len(x.terms) == 1 else None
    if c is not None and not isinstance(c, complex) and c not in (0, 1):
        return tnet.mul(absv(tnet.scale(x, 1 / poly.frac(c))), tnet.scalar_tv(abs(c)))
    if len(x.terms) > 1:
        y = tnet.scale(x, -1)
        kx, ky = repr(tnet.vn(x)), repr(tnet.vn(y))
        return tnet.elementwise('abs', x if kx <= ky else y)
    return None


def unary(I, name, x):
    if name == 'neg':
        return like(x, tnet.scale(x.v, -1))
    if name == 'abs':
        return like(x, absv(x.v), real_dtype(x.dtype), meta=('abs', x.v))
    raise Incomplete(f'unary {name}')


# ---------------------------------------------------------------- comparison

def _cmp_key(v):
    return tnet.vn(v)


_NAMES = set()


def unmodelled(I, n):
    if not _NAMES:
        with open(os.path.join(os.path.dirname(__file__), 'torch_attrs.txt')) as f:
            _NAMES.update(f.read().split())
    if n not in _NAMES:
        _raise(I, 'AttributeError', f"module 'torch' has no attribute '{n}'")
    return Builtin('torch.' + n, lambda I, a, k: I._inc(f'torch.{n}'))


def compare(I, sym, a, b):
    if isinstance(a, Unk) or isinstance(b, Unk):
        return I.mkguard(('cmp', sym, getattr(a, 'why', 'tensor'), getattr(b, 'why', 'tensor')))
    for x in (a, b):
        if not isinstance(x, (TObj, bool) + NUM):
            if sym in ('==', '!='):
                return sym == '!='
            _raise(I, 'TypeError', 'tensor comparison')
    t = a if isinstance(a, TObj) else b
    va, vb = val(I, a), val(I, b)
    sh = tnet._bshape(va.shape, vb.shape)[2]
    if not sh:
        va, vb = tnet.resolve(va), tnet.resolve(vb)
        if isinstance(va, tnet.Dense) and isinstance(vb, tnet.Dense):
            r = I.cmp(sym, poly.simp(Poly.of(va.data[0])), poly.simp(Poly.of(vb.data[0])))
            if isinstance(r, bool):
                return TObj(tnet.Dense((), [int(r)]), DTYPES['bool'], t.device, meta=('guard', r))
            return TObj(tnet.opaque(('cmp', sym), [va, vb], ()), DTYPES['bool'], t.device, meta=('guard', r))
        from .interp import NotG
        ka, kb = _cmp_key(va), _cmp_key(vb)
        if sym in ('<', '>='):
            g = Guard(('tlt', ka, kb))
            r = g if sym == '<' else NotG(g)
        elif sym in ('>', '<='):
            g = Guard(('tlt', kb, ka))
            r = g if sym == '>' else NotG(g)
        else:
            g = Guard(('teq',) + tuple(sorted((ka, kb), key=str)))
            r = g if sym == '==' else NotG(g)
        return TObj(tnet.opaque(('cmp', sym), [va, vb], ()), DTYPES['bool'], t.device, meta=('guard', r))
    if sym in ('<', '<='):
        sym = {'<': '>', '<=': '>='}[sym]
        va, vb = vb, va
    return TObj(tnet.opaque(('cmp', sym), [va, vb], sh), DTYPES['bool'], t.device, meta=('cmp', sym, va, vb))


def tensor_truth(I, t):
    from .interp import NotG
    m = t.meta
    if isinstance(m, tuple) and m and m[0] == 'guard':
        r = m[1]
        if isinstance(r, bool):
            return r
        return I.truth(r)
    v = tnet.resolve(t.v)
    if isinstance(v, tnet.PhiV):
        return Phi(v.guard, TObj(v.a, t.dtype, t.device), TObj(v.b, t.dtype, t.device))
    if isinstance(v, tnet.Dense) and len(v.data) == 1:
        c = Poly.of(v.data[0]).const()
        if c is not None:
            return c != 0
    if len(v.shape) and not all(tnet.dim_eq(s, 1) for s in v.shape):
        _raise(I, 'RuntimeError', 'Boolean value of a tensor with more than one value is ambiguous')
    g = Guard(('ttruth', tnet.vn(v)))
    return I.known(g)


def iter_tensor(I, t):
    sh = t.shape
    if not sh:
        _raise(I, 'TypeError', 'iteration over a 0-d tensor')
    if isinstance(sh[0], int):
        return [t_getitem(I, t, i) for i in range(sh[0])]
    var = I.loop_symbol('it')
    return [Gen(t_getitem(I, t, var), ((var, 0, sh[0], 1),))]


# ------------------------------------------------------------------ indexing

def _norm_key(I, k):
    ks = k if isinstance(k, tuple) else (k,)
    out = []
    for x in ks:
        x = I.resolve(x)
        if isinstance(x, TObj):
            if base(x.dtype) == 'bool':
                return ('mask', x)
            if len(x.shape) == 0:
                x = as_index(I, x)
            else:
                return ('mask', x)
        if isinstance(x, slice):
            x = slice(*[as_index(I, I.resolve(y)) if isinstance(I.resolve(y), TObj) else I.resolve(y) for y in (x.start, x.stop, x.step)])
            for y in (x.start, x.stop, x.step):
                if isinstance(y, Phi):
                    raise Incomplete('gated slice bound')
                if isinstance(y, float):
                    _raise(I, 'TypeError', 'slice indices must be integers')
        elif isinstance(x, (PList,)):
            return ('mask', x)
        elif isinstance(x, Unk):
            raise Incomplete(f'index {x!r}')
        elif isinstance(x, bool):
            raise Incomplete('boolean index')
        out.append(x)
    return tuple(out)


def t_getitem(I, o, k):
    kk = _norm_key(I, k)
    if kk and kk[0] == 'mask' and len(kk) == 2 and isinstance(kk[1], (TObj, PList)):
        return masked(I, o, kk[1])
    for x in kk:
        if isinstance(x, Phi):
            raise Incomplete('gated index')
    # surface definite range errors now
    try:
        tnet.index(o.v, kk)
    except DimError as e:
        if 'out of range' in e.msg or 'too many' in e.msg:
            _raise(I, 'IndexError', e.msg)
        raise
    return view(o, lambda v: tnet.index(v, kk), lambda old, new: tnet.setindex(old, new, kk))


def masked(I, o, m):
    if isinstance(m, PList):
        idx = I.iterate(m)
        if all(isinstance(i, int) for i in idx):
            return TObj(tnet.opaque(('gather', tuple(idx)), [o.v], (len(idx),) + tuple(o.shape[1:])), o.dtype, o.device)
        raise Incomplete('list index')
    if base(m.dtype) == 'bool':
        if len(o.shape) == 1 and len(m.shape) == 1:
            d = Poly.sym(('count', tnet.vn(m.v)), False, True)
            return TObj(tnet.opaque('mask', [o.v, m.v], (d,)), o.dtype, o.device)
        raise Incomplete('boolean mask index')
    sh = tuple(m.shape) + tuple(o.shape[1:])
    return TObj(tnet.opaque('gather', [o.v, m.v], sh), o.dtype, o.device)


def t_setitem(I, o, k, v):
    kk = _norm_key(I, k)
    v = I.resolve(v)
    if isinstance(v, Phi):
        return I.lift(lambda x: t_setitem(I, o, k, x), v)
    if isinstance(v, Unk):
        raise Incomplete(f'store of {v!r} into a tensor')
    if v is None or isinstance(v, (str, PList, tuple, PDict)):
        _raise(I, 'TypeError', "can't assign to a tensor", repr(v))
    I.inplace_log.append((o, 'setitem', tuple(I.where[-1:])))
    if kk and kk[0] == 'mask' and len(kk) == 2 and isinstance(kk[1], (TObj, PList)):
        if isinstance(kk[1], PList):
            raise Incomplete('store through a list index')
        o.write(tnet.opaque('maskstore', [o.v, kk[1].v, val(I, v)], o.shape))
        return None
    if isinstance(v, TObj):
        if is_complex(v.dtype) and not is_complex(o.dtype):
            note(I, 'dtype', 'store', o.dtype, v.dtype)
        if v.device is not None and o.device is not None and v.device != o.device and len(v.shape):
            pass        # copy_ moves across devices
    nv = val(I, v)
    try:
        o.write(tnet.setindex(o.v, nv, kk))
    except DimError as e:
        if 'out of range' in e.msg or 'too many' in e.msg:
            _raise(I, 'IndexError', e.msg)
        raise
    return None


# --------------------------------------------------------------- operations

OPS = {}


def op(*names):
    def dec(f):
        for n in names:
            OPS[n] = f
        return f
    return dec


def arg(a, k, i, name, default=None):
    if len(a) > i:
        return a[i]
    return k.get(name, default)


def need(I, t, what='tensor argument'):
    t = I.resolve(t)
    if isinstance(t, TObj):
        return t
    if isinstance(t, Unk):
        raise Incomplete(f'{what}: {t!r}')
    if isinstance(t, Phi):
        raise Incomplete(f'{what}: gated object')
    _raise(I, 'TypeError', what, repr(t))


@op('permute')
def permute(I, t, a, k):
    p = dims_of(I, a if a else [k['dims']])
    n = len(t.shape)
    p = [axis(I, i, n) for i in p]
    if sorted(p) != list(range(n)):
        _raise(I, 'RuntimeError', 'permute dimensions', tuple(p), n)
    inv = [0] * n
    for i, x in enumerate(p):
        inv[x] = i
    return view(t, lambda v: tnet.permute(v, p), lambda old, new: tnet.permute(new, inv))


@op('transpose', 'swapaxes', 'swapdims')
def transpose(I, t, a, k):
    n = len(t.shape)
    i, j = axis(I, arg(a, k, 0, 'dim0'), n), axis(I, arg(a, k, 1, 'dim1'), n)
    p = list(range(n))
    p[i], p[j] = p[j], p[i]
    return permute(I, t, [tuple(p)], {})


@op('movedim', 'moveaxis')
def movedim(I, t, a, k):
    n = len(t.shape)
    s = [axis(I, x, n) for x in dims_of(I, [arg(a, k, 0, 'source')])]
    d = [axis(I, x, n) for x in dims_of(I, [arg(a, k, 1, 'destination')])]
    order = [None] * n
    for x, y in zip(s, d):
        order[y] = x
    rest = iter([x for x in range(n) if x not in s])
    order = [next(rest) if x is None else x for x in order]
    return permute(I, t, [tuple(order)], {})


def _reshape(I, t, shape, may):
    shape = tuple(shape)
    try:
        tnet.reshape(t.v, shape)
    except DimError as e:
        raise
    return view(t, lambda v: tnet.reshape(v, list(shape)), lambda old, new: tnet.reshape(new, list(old.shape)),
                may=Guard(('alias', tnet.uid())) if may else None)


@op('reshape')
def reshape(I, t, a, k):
    return _reshape(I, t, dims_of(I, a if a else [k['shape']]), True)


@op('view')
def view_(I, t, a, k):
    if a and isinstance(I.resolve(a[0]), Tok):
        raise Incomplete('view as dtype')
    return _reshape(I, t, dims_of(I, a if a else [k.get('shape', k.get('size'))]), False)


@op('reshape_as', 'view_as')
def reshape_as(I, t, a, k):
    return _reshape(I, t, need(I, a[0]).shape, True)


@op('flatten', 'ravel')
def flatten(I, t, a, k):
    n = len(t.shape)
    s = axis(I, arg(a, k, 0, 'start_dim', 0), n)
    e = axis(I, arg(a, k, 1, 'end_dim', -1), n)
    sh = list(t.shape)
    return _reshape(I, t, sh[:s] + [tnet.prod(sh[s:e + 1])] + sh[e + 1:], True)


@op('unflatten')
def unflatten(I, t, a, k):
    n = len(t.shape)
    d = axis(I, a[0], n)
    sh = list(t.shape)
    return _reshape(I, t, sh[:d] + dims_of(I, [a[1]]) + sh[d + 1:], True)


@op('unsqueeze')
def unsqueeze(I, t, a, k):
    n = len(t.shape) + 1
    d = axis(I, arg(a, k, 0, 'dim'), n)
    sh = list(t.shape)
    return _reshape(I, t, sh[:d] + [1] + sh[d:], False)


@op('squeeze')
def squeeze(I, t, a, k):
    sh = list(t.shape)
    if a or 'dim' in k:
        ds = {axis(I, x, len(sh)) for x in dims_of(I, [arg(a, k, 0, 'dim')])}
        out = []
        for i, s in enumerate(sh):
            if i in ds:
                e = tnet.dim_eq(s, 1)
                if e is None:
                    raise Incomplete('squeeze of a symbolic dimension')
                if e:
                    continue
            out.append(s)
    else:
        out = []
        for s in sh:
            e = tnet.dim_eq(s, 1)
            if e is None:
                raise Incomplete('squeeze of a symbolic dimension')
            if not e:
                out.append(s)
    return _reshape(I, t, out, False)


@op('expand', 'broadcast_to')
def expand(I, t, a, k):
    sh = dims_of(I, a)
    n = len(sh) - len(t.shape)
    sh = [t.shape[i - n] if isinstance(s, int) and s == -1 else s for i, s in enumerate(sh)]
    return TObj(tnet.mul(t.v, tnet.ones_tv(sh)), t.dtype, t.device)


@op('conj', 'conj_physical', 'resolve_conj')
def conj(I, t, a=(), k=None):
    return view(t, tnet.conj, lambda old, new: tnet.conj(new))


@op('resolve_neg', 'contiguous')
def contiguous(I, t, a, k):
    return view(t, lambda v: v, lambda old, new: new, may=Guard(('alias', tnet.uid())))


@op('detach', 'view_as_self')
def detach(I, t, a, k):
    return view(t, lambda v: v, lambda old, new: new)


@op('clone')
def clone(I, t, a, k):
    return like(t, t.v, meta=t.meta)


@op('adjoint')
def adjoint(I, t, a=(), k=None):
    n = len(t.shape)
    if n < 2:
        _raise(I, 'RuntimeError', 'mH of a vector')
    p = list(range(n - 2)) + [n - 1, n - 2]
    return view(t, lambda v: tnet.conj(tnet.permute(v, p)), lambda old, new: tnet.permute(tnet.conj(new), p))


@op('t')
def t_(I, t, a=(), k=None):
    n = len(t.shape)
    return permute(I, t, [tuple(range(n))[::-1]], {})


def mT(I, t):
    n = len(t.shape)
    if n < 2:
        _raise(I, 'RuntimeError', 'mT of a vector')
    return permute(I, t, [tuple(range(n - 2)) + (n - 1, n - 2)], {})


@op('real')
def real(I, t, a=(), k=None):
    if t.dtype is not None and not is_complex(t.dtype):
        return t
    return view(t, realv, _noput('.real'), dtype=real_dtype(t.dtype))


def realv(v):
    def go(x):
        c = tnet.conj(x)
        if tnet.same(x, c):
            return x
        return tnet.scale(tnet.add(x, c), Fraction(1, 2))
    return tnet.lifted(go)(v)


@op('imag')
def imag(I, t, a=(), k=None):
    if t.dtype is not None and not is_complex(t.dtype):
        _raise(I, 'RuntimeError', 'imag of a real tensor')
    return like(t, tnet.scale(tnet.sub(t.v, tnet.conj(t.v)), -0.5j), real_dtype(t.dtype))


@op('to', 'type')
def to(I, t, a, k):
    d, dev = t.dtype, t.device
    copy = k.get('copy', False)
    for x in a:
        x = I.resolve(x)
        if isinstance(x, Phi):
            raise Incomplete('gated .to()')
        if isinstance(x, TObj):
            d, dev = x.dtype, x.device
        elif isinstance(x, Tok) and x.attrs.get('kind') == 'dtype' or isinstance(x, Builtin):
            d = as_dtype(I, x)
        elif isinstance(x, bool):
            pass
        elif isinstance(x, (str, int)) or (isinstance(x, Tok) and x.attrs.get('kind') == 'device'):
            dev = as_device(I, x)
        elif x is None:
            pass
        else:
            raise Incomplete(f'.to({x!r})')
    if k.get('dtype') is not None:
        d = as_dtype(I, k['dtype'])
    if k.get('device') is not None:
        dev = as_device(I, k['device'])
    I.casts.append((t.dtype, d, t.device, dev))
    if d == t.dtype and dev == t.device and not copy:
        return t
    v = t.v
    if is_complex(t.dtype) and d is not None and not is_complex(d):
        v = realv(v)
        note(I, 'cast', 'complex to real', t.dtype, d)
    return TObj(v, d, dev, meta=t.meta)


def _cast(name):
    def f(I, t, a, k):
        return to(I, t, [DTYPES[name]], {})
    return f


for _n, _d in (('double', 'float64'), ('float', 'float32'), ('long', 'int64'), ('int', 'int32'), ('bool', 'bool'), ('cdouble', 'complex128'),
               ('cfloat', 'complex64'), ('half', 'float16')):
    OPS[_n] = _cast(_d)


@op('cpu')
def cpu(I, t, a, k):
    return to(I, t, [], {'device': CPU})


@op('cuda')
def cuda(I, t, a, k):
    return to(I, t, [], {'device': device('cuda', a[0] if a else None)})


@op('abs', 'absolute')
def abs_(I, t, a, k):
    return unary(I, 'abs', t)


@op('neg', 'negative')
def neg_(I, t, a, k):
    return unary(I, 'neg', t)


@op('sqrt')
def sqrt_(I, t, a, k):
    return like(t, tnet.pow_(t.v, Fraction(1, 2)))


@op('rsqrt')
def rsqrt_(I, t, a, k):
    return like(t, tnet.pow_(t.v, Fraction(-1, 2)))


@op('reciprocal')
def recip(I, t, a, k):
    return like(t, tnet.pow_(t.v, -1))


@op('square')
def square(I, t, a, k):
    return like(t, tnet.pow_(t.v, 2))


@op('pow')
def pow_(I, t, a, k):
    return binary(I, 'Pow', t, arg(a, k, 0, 'exponent'))


for _n in ('exp', 'log', 'sin', 'cos', 'tanh', 'sign', 'sgn', 'round', 'floor', 'ceil', 'isnan', 'isinf', 'isfinite', 'angle', 'log10', 'log2',
           'relu', 'sigmoid', 'trunc', 'cosh', 'sinh', 'logical_not', 'nan_to_num'):
    def _mk(n):
        def f(I, t, a, k):
            d = DTYPES['bool'] if n.startswith('is') or n == 'logical_not' else t.dtype
            return like(t, tnet.elementwise(n, t.v), d)
        return f
    OPS[_n] = _mk(_n)


@op('clamp', 'clip', 'clamp_min', 'clamp_max')
def clamp(I, t, a, k, which='clamp'):
    lo, hi = arg(a, k, 0, 'min'), arg(a, k, 1, 'max')
    lo, hi = I.resolve(lo), I.resolve(hi)
    if is_complex(t.dtype):
        note(I, 'unsupported', 'clamp of a complex tensor', t.dtype)
    if I.rules.get('tiny_clamp') and hi is None and isinstance(lo, (int, float)) and 0 < lo <= 1e-8:
        I.clamps.append(lo)
        return like(t, t.v)
    key = ('clamp', _show(lo), _show(hi))
    return like(t, tnet.elementwise(key, t.v))


def _show(x):
    if isinstance(x, TObj):
        return ('v', tnet.vn(x.v))
    if isinstance(x, (int, float)):
        return float(x)
    return str(x)


@op('norm')
def norm(I, t, a, k):
    p = I.resolve(arg(a, k, 0, 'p', k.get('ord')))
    dim = arg(a, k, 1, 'dim')
    rd = real_dtype(t.dtype)
    if dim is not None:
        d = dims_of(I, [dim])
        n = len(t.shape)
        d = [axis(I, x, n) for x in d]
        if sorted(d) != list(range(n)):
            sh = [s for i, s in enumerate(t.shape) if i not in d]
            sq = tnet.sum_axes(tnet.mul(t.v, tnet.conj(t.v)), d)
            if p in (None, 2, 'fro') and not k.get('keepdim'):
                return like(t, tnet.pow_(sq, Fraction(1, 2)), rd)
            raise Incomplete('norm over some axes')
    if p is None or p == 'fro' or (isinstance(p, (int, float)) and p == 2):
        return like(t, tnet.scalar_fn(t.v, 'norm'), rd)
    if p == float('inf'):
        return like(t, tnet.scalar_fn(t.v, 'absmax'), rd)
    return like(t, tnet.opaque(('norm', str(p)), [t.v], ()), rd)


@op('max', 'amax')
def max_(I, t, a, k):
    return _ext(I, t, a, k, 'max')


@op('min', 'amin')
def min_(I, t, a, k):
    return _ext(I, t, a, k, 'min')


def _ext(I, t, a, k, which):
    if a and isinstance(I.resolve(a[0]), TObj):
        o = I.resolve(a[0])
        sh = tnet._bshape(t.shape, o.shape)[2]
        return like(t, tnet.opaque(which, sorted([t.v, o.v], key=lambda v: str(tnet.vn(v))), sh))
    if a or 'dim' in k:
        raise Incomplete(f'{which} over an axis')
    if isinstance(t.meta, tuple) and t.meta and t.meta[0] == 'abs' and which == 'max':
        return like(t, tnet.scalar_fn(t.meta[1], 'absmax'))
    if which == 'max' and not isinstance(t.v, tnet.PhiV) and nonneg(t.v) and isinstance(t.v, tnet.TV):
        return like(t, tnet.scalar_fn(t.v, 'absmax'))

    def go(v):
        if isinstance(v, tnet.Dense) and all(Poly.of(x).const() is not None for x in v.data):
            return tnet.Dense((), [(max if which == 'max' else min)(Poly.of(x).const() for x in v.data)])
        return tnet.opaque(which, [v], ())
    return like(t, tnet.lifted(go)(t.v))


@op('argmax', 'argmin', 'argsort', 'sort', 'topk', 'cumsum', 'cumprod', 'prod', 'std', 'var', 'median')
def opaque_red(I, t, a, k):
    raise Incomplete('reduction or ordering of a tensor')


@op('sum')
def sum_(I, t, a, k):
    n = len(t.shape)
    dim = arg(a, k, 0, 'dim', k.get('axis'))
    ds = list(range(n)) if dim is None else [axis(I, x, n) for x in dims_of(I, [dim])]
    if base(t.dtype) == 'bool':
        if len(ds) == n:
            p = Poly.sym(('count', tnet.vn(t.v)), False, True)
            r = TObj(tnet.scalar_tv(p), DTYPES['int64'], t.device)
            r.meta = ('int', p)
            I.counts[p] = t
            return r
        raise Incomplete('sum of booleans over an axis')
    v = tnet.sum_axes(t.v, ds)
    if k.get('keepdim'):
        v = tnet.reshape(v, [1 if i in ds else s for i, s in enumerate(t.shape)])
    return like(t, v)


@op('count_nonzero')
def count_nonzero(I, t, a, k):
    if base(t.dtype) == 'bool':
        return sum_(I, t, [], {})
    raise Incomplete('count_nonzero')


@op('trace')
def trace(I, t, a, k):
    return like(t, tnet.einsum([t.v], 'ii->'))


@op('any', 'all')
def any_(I, t, a, k):
    return like(t, tnet.opaque('any', [t.v], ()), DTYPES['bool'])


@op('item', 'tolist')
def item(I, t, a, k):
    if isinstance(t.meta, tuple) and t.meta and t.meta[0] == 'guard':
        return t.meta[1]
    v = tnet.resolve(t.v)
    if isint_dtype(t.dtype) and base(t.dtype) != 'bool':
        if len(v.shape) == 0:
            return as_index(I, t)
        if isinstance(v, tnet.Dense) and len(v.shape) == 1:
            return PList([poly.simp(Poly.of(x)) for x in v.data])
        if len(v.shape) == 1 and isinstance(v.shape[0], int):
            return PList([as_index(I, t_getitem(I, t, i)) for i in range(v.shape[0])])
    if len(v.shape):
        if all(tnet.dim_eq(s, 1) for s in v.shape):
            return like(t, tnet.reshape(v, []))
        if all(isinstance(s, int) for s in v.shape):
            return PList([item(I, t_getitem(I, t, i), [], {}) for i in range(v.shape[0])])
        raise Incomplete('tolist of a symbolic tensor')
    if isinstance(v, tnet.Dense):
        c = Poly.of(v.data[0]).const()
        if c is not None:
            return c
    return like(t, t.v)


@op('size')
def size(I, t, a, k):
    if a or 'dim' in k:
        return t.shape[axis(I, arg(a, k, 0, 'dim'), len(t.shape))]
    return tuple(t.shape)


@op('dim', 'ndimension')
def dim(I, t, a, k):
    return len(t.shape)


@op('numel', 'nelement')
def numel(I, t, a, k):
    return tnet.prod(t.shape)


@op('is_complex')
def is_complex_(I, t, a, k):
    return is_complex(t.dtype)


@op('is_floating_point')
def is_fp(I, t, a, k):
    return base(t.dtype).startswith('float')


@op('is_contiguous')
def is_contig(I, t, a, k):
    return I.mkguard(('contig', tnet.uid()))


@op('data_ptr', 'element_size', 'storage_offset', 'untyped_storage', 'stride', 'get_device')
def ptr(I, t, a, k):
    return Unk('tensor address')


@op('requires_grad_', 'pin_memory', 'share_memory_', 'retain_grad')
def self_(I, t, a, k):
    return t


@op('numpy')
def numpy(I, t, a, k):
    return t


@op('diagonal', 'diag')
def diag(I, t, a, k):
    if any(I.resolve(x) != 0 for x in a):
        raise Incomplete('diag with an offset')
    if len(t.shape) == 1:
        return like(t, tnet.mul(tnet.delta_tv(t.shape[0]), t.v))
    if len(t.shape) == 2:
        return like(t, tnet.einsum([t.v], 'ii->i'))
    raise Incomplete('diag')


OPS['diag_embed'] = diag


@op('flip')
def flip(I, t, a, k):
    ds = dims_of(I, a if a else [k['dims']])
    n = len(t.shape)
    v = t.v
    for d in ds:
        d = axis(I, d, n)
        v = flipv(v, d)
    return like(t, v)


def flipv(v, d):
    def go(x):
        if isinstance(x, tnet.Dense):
            sl = [slice(None)] * len(x.shape)
            sl[d] = slice(None, None, -1)
            return tnet._dense_index(x, sl)
        x = tnet.tv(x)
        m = x.shape[d]
        f = tnet.atom_tv('flip', (m, m))
        idx = list(range(len(x.shape)))
        out = list(idx)
        out[d] = 'new'
        return tnet.contract([(idx, x), ((d, 'new'), f)], out, 'flip')
    return tnet.lifted(go)(v)


@op('mul', 'multiply')
def mul(I, t, a, k):
    return I.lift(lambda x: I.binop(ast.Mult(), t, x), arg(a, k, 0, 'other'))


@op('div', 'true_divide', 'divide')
def div(I, t, a, k):
    return I.lift(lambda x: I.binop(ast.Div(), t, x), arg(a, k, 0, 'other'))


@op('add')
def add(I, t, a, k):
    x = arg(a, k, 0, 'other')
    if k.get('alpha') is not None:
        x = I.binop(ast.Mult(), x, k['alpha'])
    return I.lift(lambda x: I.binop(ast.Add(), t, x), x)


@op('sub', 'subtract')
def sub(I, t, a, k):
    x = arg(a, k, 0, 'other')
    if k.get('alpha') is not None:
        x = I.binop(ast.Mult(), x, k['alpha'])
    return I.lift(lambda x: I.binop(ast.Sub(), t, x), x)


@op('matmul', 'mm', 'bmm', 'mv', '__matmul__')
def matmul(I, t, a, k):
    return I.lift(lambda x: I.binop(ast.MatMult(), t, x), arg(a, k, 0, 'other', k.get('mat2')))


@op('dot', 'inner')
def dot(I, t, a, k):
    return matmul(I, t, a, k)


@op('vdot')
def vdot(I, t, a, k):
    o = need(I, a[0])
    d, dev = combine(I, 'vdot', [t, o], True)
    return TObj(tnet.matmul(tnet.conj(t.v), o.v), d, dev)


@op('outer', 'ger')
def outer(I, t, a, k):
    o = need(I, a[0])
    d, dev = combine(I, 'outer', [t, o])
    return TObj(tnet.einsum([t.v, o.v], 'i,j->ij'), d, dev)


for _n, _o in (('mul_', 'Mult'), ('div_', 'Div'), ('add_', 'Add'), ('sub_', 'Sub')):
    def _mki(o):
        def f(I, t, a, k):
            x = arg(a, k, 0, 'other')
            if k.get('alpha') is not None:
                x = I.binop(ast.Mult(), x, k['alpha'])
            return I.lift(lambda x: inplace_op(I, getattr(ast, o)(), t, x), x)
        return f
    OPS[_n] = _mki(_o)


@op('copy_')
def copy_(I, t, a, k):
    t_setitem(I, t, Ellipsis, a[0])
    return t


@op('fill_')
def fill_(I, t, a, k):
    t_setitem(I, t, Ellipsis, a[0])
    return t


@op('zero_')
def zero_(I, t, a, k):
    t_setitem(I, t, Ellipsis, 0)
    return t


@op('fill_diagonal_', 'normal_', 'uniform_', 'random_', 'clamp_', 'sqrt_', 'abs_', 'conj_physical_', 'neg_', 'reciprocal_', 'index_put_',
    'masked_fill_', 'scatter_')
def inplace_unknown(I, t, a, k):
    raise Incomplete('unsupported in-place tensor method')


@op('lt', 'less')
def lt(I, t, a, k):
    return compare(I, '<', t, I.resolve(a[0]))


@op('gt', 'greater')
def gt(I, t, a, k):
    return compare(I, '>', t, I.resolve(a[0]))


@op('le')
def le(I, t, a, k):
    return compare(I, '<=', t, I.resolve(a[0]))


@op('ge')
def ge(I, t, a, k):
    return compare(I, '>=', t, I.resolve(a[0]))


@op('eq')
def eq(I, t, a, k):
    return compare(I, '==', t, I.resolve(a[0]))


@op('narrow')
def narrow(I, t, a, k):
    d = axis(I, arg(a, k, 0, 'dim'), len(t.shape))
    s, l = one_dim(I, arg(a, k, 1, 'start')), one_dim(I, arg(a, k, 2, 'length'))
    return t_getitem(I, t, tuple([slice(None)] * d + [slice(s, poly.add(s, l), None)]))


@op('select')
def select(I, t, a, k):
    d = axis(I, arg(a, k, 0, 'dim'), len(t.shape))
    return t_getitem(I, t, tuple([slice(None)] * d + [one_dim(I, arg(a, k, 1, 'index'))]))


def _new(kind):
    def f(I, t, a, k):
        k = dict(k)
        k.setdefault('dtype', t.dtype)
        k.setdefault('device', t.device)
        if k['dtype'] is None:
            k['dtype'] = t.dtype
        if k['device'] is None:
            k['device'] = t.device
        fs = {'zeros': f_zeros, 'ones': f_ones, 'empty': _fresh('empty'), 'full': f_full, 'tensor': f_tensor}
        return fs[kind](I, a, k)
    return f


for _n in ('zeros', 'ones', 'empty', 'full', 'tensor'):
    OPS['new_' + _n] = _new(_n)


@op('mean')
def mean_(I, t, a, k):
    n = len(t.shape)
    dim = arg(a, k, 0, 'dim', k.get('axis'))
    ds = list(range(n)) if dim is None else [axis(I, x, n) for x in dims_of(I, [dim])]
    if base(t.dtype) not in ('float', 'complex'):
        _raise(I, 'RuntimeError', 'mean of integers')
    m = 1
    for d in ds:
        m = poly.mul(m, t.shape[d])
    return I.binop(ast.Div(), sum_(I, t, a, k), m)


@op('unbind')
def unbind(I, t, a, k):
    d = axis(I, arg(a, k, 0, 'dim', 0), len(t.shape))
    n = t.shape[d]
    if not isinstance(n, int):
        raise Incomplete('unbind of a symbolic dimension')
    return tuple(t_getitem(I, t, tuple([slice(None)] * d + [i])) for i in range(n))


@op('split', 'tensor_split', 'chunk')
def split(I, t, a, k):
    raise Incomplete('splitting of a tensor')


@op('type_as')
def type_as(I, t, a, k):
    return to(I, t, [need(I, a[0])], {})


@op('addmm', 'addmv', 'baddbmm')
def addmm(I, t, a, k):
    if k:
        raise Incomplete('scaled addmm')
    return I.binop(ast.Add(), t, I.binop(ast.MatMult(), a[0], a[1]))


@op('matrix_exp')
def matrix_exp(I, t, a, k):
    return like(t, tnet.lifted(lambda v: tnet.opaque('matrix_exp', [v], v.shape))(t.v))


@op('inverse')
def inverse(I, t, a, k):
    I.may_raise(('inv', tnet.vn(t.v)), 'LinAlgError')
    return like(t, tnet.inverse(t.v, 'inv'))


@op('cholesky')
def t_chol(I, t, a, k):
    return la_cholesky(I, [t], k)


_ATTRS = set()


def _attrs():
    if not _ATTRS:
        import os
        with open(os.path.join(os.path.dirname(os.path.abspath(__file__)), 'tensor_attrs.txt')) as f:
            _ATTRS.update(f.read().split())
    return _ATTRS


def t_getattr(I, o, name, default=None):
    if name == 'shape':
        return tuple(o.shape)
    if name == 'ndim':
        return len(o.shape)
    if name == 'dtype':
        return o.dtype
    if name == 'device':
        return o.device
    if name in ('T',):
        return t_(I, o)
    if name == 'mT':
        return mT(I, o)
    if name in ('mH', 'H'):
        return adjoint(I, o)
    if name == 'real':
        return real(I, o)
    if name == 'imag':
        return imag(I, o)
    if name in ('requires_grad', 'is_cuda', 'is_sparse'):
        return name == 'is_cuda' and o.device is not None and o.device.attrs.get('type') == 'cuda'
    if name in ('grad', 'grad_fn'):
        return None
    if name == 'data':
        return detach(I, o, [], {})
    if name == '__class__':
        return I.ext['torch'].box.content['Tensor']
    if name in ('itemsize', 'nbytes'):
        return Unk('itemsize')
    if name in OPS:
        f = OPS[name]
        return Bound(Builtin('Tensor.' + name, lambda I, a, k: _lift0(I, lambda x: f(I, x, a[1:], k), a[0])), o)
    if name in ('__mul__', '__add__', '__sub__', '__truediv__', '__rmul__', '__radd__'):
        m = {'mul': ast.Mult, 'add': ast.Add, 'sub': ast.Sub, 'truediv': ast.Div}[name.strip('_').lstrip('r')]
        return Bound(Builtin(name, lambda I, a, k: I.binop(m(), a[0], a[1])), o)
    if name in ('lapack', 'svd', 'qr', 'eig', 'symeig', 'pinverse'):
        raise Incomplete(f'Tensor.{name}')
    if default is not None:
        return default[0]
    if name.startswith('_'):
        raise Incomplete(f'Tensor.{name}')
    if name not in _attrs():
        _raise(I, 'AttributeError', 'Tensor', name)
    return Bound(Builtin('Tensor.' + name, lambda I, a, k: I._inc(f'tensor method {name}')), o)


def t_setattr(I, o, name, v):
    if name == 'data':
        v = I.resolve(v)
        o.write(v.v)
        return
    if name in ('requires_grad', 'grad'):
        return
    raise Incomplete(f'tensor attribute store {name}')


def _lift0(I, f, x):
    return I.lift(lambda y: f(need(I, y)), x)


# ------------------------------------------------------------------ linalg

def la_qr(I, a, k):
    t = need(I, arg(a, k, 0, 'A', k.get('input')))
    mode = arg(a, k, 1, 'mode', 'reduced')
    if mode != 'reduced':
        raise Incomplete('qr mode')
    q, r = tnet.qr(t.v)
    return NTuple((like(t, q), like(t, r)), ('Q', 'R'))


def la_svd(I, a, k):
    t = need(I, arg(a, k, 0, 'A', k.get('input')))
    full = arg(a, k, 1, 'full_matrices', True)
    I.may_raise(('svd', tnet.vn(t.v)), 'LinAlgError')
    u, s, vh = tnet.svd(t.v, full=bool(full))
    return NTuple((like(t, u), like(t, s, real_dtype(t.dtype)), like(t, vh)), ('U', 'S', 'Vh'))


def old_svd(I, a, k):
    t = need(I, arg(a, k, 0, 'input'))
    some = arg(a, k, 1, 'some', True)
    u, s, vh = la_svd(I, [t], {'full_matrices': not some})
    return NTuple((u, s, adjoint(I, vh)), ('U', 'S', 'V'))


def la_svdvals(I, a, k):
    return la_svd(I, [a[0]], {'full_matrices': False})[1]


def la_eigh(I, a, k):
    t = need(I, arg(a, k, 0, 'A', k.get('input')))
    I.may_raise(('eigh', tnet.vn(t.v)), 'LinAlgError')
    w, z = tnet.eigh(t.v)
    return NTuple((like(t, w, real_dtype(t.dtype)), like(t, z)), ('eigenvalues', 'eigenvectors'))


def la_pinv(I, a, k):
    t = need(I, arg(a, k, 0, 'A', k.get('input')))
    tols = {n: I.resolve(v) for n, v in k.items() if n in ('atol', 'rtol', 'rcond', 'hermitian')}
    if len(a) > 1:
        tols['rcond'] = I.resolve(a[1])
    I.pinvs.append((tnet.vn(t.v), tols))
    return like(t, tnet.inverse(t.v, 'pinv'))


def la_inv(I, a, k):
    return inverse(I, need(I, arg(a, k, 0, 'A', k.get('input'))), [], {})


def la_cholesky(I, a, k):
    t = need(I, arg(a, k, 0, 'A', k.get('input')))
    I.may_raise(('cholesky', tnet.vn(t.v)), 'LinAlgError')
    v = tnet.cholesky(t.v)
    I.chols[tnet.vn(v)] = tnet.vn(t.v)
    r = like(t, v)
    if k.get('upper'):
        return adjoint(I, r)
    return r


def tri_side(v):
    """'lower'/'upper'/None for a Cholesky factor (possibly transposed)"""
    def one(x):
        if not isinstance(x, tnet.TV) or len(x.terms) != 1:
            return None
        c, n = x.terms[0]
        ch = [a for a in n.atoms if tnet.kind(a.label) == 'chol']
        if len(ch) != 1 or any(a.legs for a in n.atoms if a is not ch[0]):
            return None
        rows = set(n.outs[0])
        h = len(ch[0].legs) // 2
        if set(ch[0].legs[:h]) == rows:
            return 'lower'
        if set(ch[0].legs[h:]) == rows:
            return 'upper'
        return None
    v = tnet.resolve(v)
    if isinstance(v, tnet.PhiV):
        a, b = tri_side(v.a), tri_side(v.b)
        return a if a == b else None
    return one(v)


def la_solve_triangular(I, a, k):
    A = need(I, arg(a, k, 0, 'A', k.get('input')))
    B = need(I, arg(a, k, 1, 'B'))
    upper = I.resolve(k.get('upper', UNDEF))
    if upper is UNDEF:
        _raise(I, 'TypeError', 'solve_triangular needs upper')
    left = I.resolve(k.get('left', True))
    side = tri_side(A.v)
    d, dev = combine(I, 'solve_triangular', [A, B], True)
    if k.get('unitriangular') or not isinstance(upper, bool):
        raise Incomplete('solve_triangular variant')
    if side is None:
        # general matrix: the named triangle is what is inverted
        iv = tnet.opaque(('triinv', upper), [A.v], A.shape)
    elif (side == 'upper') == upper:
        iv = tnet.inverse(A.v, 'inv')
    else:
        note(I, 'triangle', 'solve_triangular reads the zero triangle of a Cholesky factor', side, upper)
        iv = tnet.opaque(('triinv', upper), [A.v], A.shape)
    return TObj(tnet.matmul(iv, B.v) if left else tnet.matmul(B.v, iv), d, dev)


def la_solve(I, a, k):
    A = need(I, arg(a, k, 0, 'A', k.get('input')))
    B = need(I, arg(a, k, 1, 'B'))
    d, dev = combine(I, 'solve', [A, B], True)
    I.may_raise(('solve', tnet.vn(A.v)), 'LinAlgError')
    iv = tnet.inverse(A.v, 'inv')
    if I.resolve(k.get('left', True)) is False:
        return TObj(tnet.matmul(B.v, iv), d, dev)
    return TObj(tnet.matmul(iv, B.v), d, dev)


def cholesky_solve(I, a, k):
    B = need(I, arg(a, k, 0, 'B', k.get('input')))
    L = need(I, arg(a, k, 1, 'L', k.get('input2')))
    upper = I.resolve(arg(a, k, 2, 'upper', False))
    d, dev = combine(I, 'cholesky_solve', [B, L], True)
    A = tnet.matmul(L.v, tnet.conj(tnet.permute(L.v, [1, 0]))) if not upper else \
        tnet.matmul(tnet.conj(tnet.permute(L.v, [1, 0])), L.v)
    if tri_side(L.v) == ('upper' if upper else 'lower'):
        li = tnet.inverse(L.v, 'inv')
        lh = tnet.conj(tnet.permute(li, [1, 0]))
        r = tnet.matmul(lh, tnet.matmul(li, B.v)) if not upper else tnet.matmul(li, tnet.matmul(lh, B.v))
        return TObj(r, d, dev)
    return TObj(tnet.matmul(tnet.inverse(A, 'inv'), B.v), d, dev)


def la_norm(I, a, k):
    t = need(I, arg(a, k, 0, 'A', k.get('x', k.get('input'))))
    return norm(I, t, a[1:], k)


def la_multi_dot(I, a, k):
    ts = I.iterate(a[0])
    r = ts[0]
    for x in ts[1:]:
        r = I.binop(ast.MatMult(), r, x)
    return r


# ------------------------------------------------------------------ torch.*

def f_einsum(I, a, k):
    eq = I.resolve(a[0])
    ops = list(a[1:])
    if len(ops) == 1 and isinstance(I.resolve(ops[0]), (PList, tuple)):
        ops = I.iterate(ops[0])
    if not isinstance(eq, str):
        raise Incomplete('einsum without an equation string')

    def go(*ts):
        ts = [need(I, t, 'einsum operand') for t in ts]
        d, dev = combine(I, f'einsum {eq}', ts, strict=len(ts) > 1)
        I.einsums += 1
        letters = [c for c in eq if c.isalpha()]
        try:
            return TObj(tnet.einsum([t.v for t in ts], eq), d, dev)
        except DimError as e:
            raise DimError(f'{e.msg} at {":".join(map(str, I.where[-1])) if I.where else "?"}')
    return I.lift(go, *ops)


def f_tensordot(I, a, k):
    x, y = need(I, a[0]), need(I, a[1])
    dims = I.resolve(arg(a, k, 2, 'dims', 2))
    if isinstance(dims, int):
        dx = list(range(len(x.shape) - dims, len(x.shape)))
        dy = list(range(dims))
    else:
        dx, dy = I.unpack(dims, 2)
        dx = [axis(I, i, len(x.shape)) for i in dims_of(I, [dx])]
        dy = [axis(I, i, len(y.shape)) for i in dims_of(I, [dy])]
    if len(dx) != len(dy):
        _raise(I, 'RuntimeError', 'tensordot dims')
    d, dev = combine(I, 'tensordot', [x, y], True)
    nx = [('x', i) for i in range(len(x.shape))]
    ny = [('y', i) for i in range(len(y.shape))]
    for p, (i, j) in enumerate(zip(dx, dy)):
        nx[i] = ny[j] = ('s', p)
    out = [n for n in nx if n[0] == 'x'] + [n for n in ny if n[0] == 'y']
    f = tnet.lifted(lambda u, v: tnet.contract([(nx, tnet.tv(u)), (ny, tnet.tv(v))], out, 'tensordot'))
    return TObj(f(x.v, y.v), d, dev)


def f_kron(I, a, k):
    x, y = need(I, a[0]), need(I, a[1])
    d, dev = combine(I, 'kron', [x, y])
    return TObj(tnet.kron(x.v, y.v), d, dev)


def _opts(I, k, default='float32'):
    d = as_dtype(I, k.get('dtype')) if k.get('dtype') is not None else (DTYPES[default] if default else None)
    dev = as_device(I, k.get('device'))
    return d, dev


def _shape_args(I, a, k):
    if 'size' in k:
        return dims_of(I, [k['size']])
    return dims_of(I, a)


def f_zeros(I, a, k):
    d, dev = _opts(I, k)
    sh = _shape_args(I, a, k)
    return TObj(tnet.zeros_tv(sh) if not _small(sh) else tnet.Dense(sh, [0] * tnet.prod(sh)), d, dev)


def _small(sh):
    return all(isinstance(s, int) for s in sh) and tnet.prod(sh) <= 64


def f_ones(I, a, k):
    d, dev = _opts(I, k)
    sh = _shape_args(I, a, k)
    return TObj(tnet.ones_tv(sh) if not _small(sh) else tnet.Dense(sh, [1] * tnet.prod(sh)), d, dev)


def f_full(I, a, k):
    d, dev = _opts(I, k)
    sh = dims_of(I, [arg(a, k, 0, 'size')])
    x = I.resolve(arg(a, k, 1, 'fill_value'))
    return TObj(tnet.scale(tnet.ones_tv(sh), x), d, dev)


def _fresh(kind):
    def f(I, a, k):
        d, dev = _opts(I, k)
        sh = _shape_args(I, a, k)
        I.nrand += 1
        r = TObj(tnet.atom_tv((kind, I.nrand), sh), d, dev)
        r.lay = 'c'
        return r
    return f


def _fresh_like(kind):
    def f(I, a, k):
        t = need(I, a[0])
        d = as_dtype(I, k['dtype']) if k.get('dtype') is not None else t.dtype
        dev = as_device(I, k['device']) if k.get('device') is not None else t.device
        if kind == 'zeros':
            return TObj(tnet.zeros_tv(t.shape), d, dev)
        if kind == 'ones':
            return TObj(tnet.ones_tv(t.shape), d, dev)
        I.nrand += 1
        r = TObj(tnet.atom_tv((kind, I.nrand), t.shape), d, dev)
        r.lay = t.lay
        return r
    return f


def f_eye(I, a, k):
    d, dev = _opts(I, k)
    n = one_dim(I, a[0] if a else k['n'])
    m = one_dim(I, a[1]) if len(a) > 1 else n
    if isinstance(n, int) and isinstance(m, int) and n * m <= 64:
        return TObj(tnet.Dense((n, m), [1 if i == j else 0 for i in range(n) for j in range(m)]), d, dev)
    return TObj(tnet.delta_tv(n, m), d, dev)


def f_tensor(I, a, k):
    x = I.resolve(arg(a, k, 0, 'data'))
    if isinstance(x, TObj):
        return to(I, like(x, x.v), [], {n: v for n, v in k.items() if n in ('dtype', 'device')})
    data, shape, kinds = _nested(I, x)
    dflt = 'int64'
    if 'complex' in kinds:
        dflt = 'complex64'
    elif 'float' in kinds:
        dflt = 'float32'
    elif kinds == {'bool'}:
        dflt = 'bool'
    d, dev = _opts(I, k, dflt)
    if d is not None and 'complex' in kinds and not is_complex(d):
        _raise(I, 'TypeError', 'complex value in a real tensor')
    return TObj(tnet.Dense(shape, data), d, dev)


def _nested(I, x):
    x = I.resolve(x)
    if isinstance(x, bool):
        return [int(x)], (), {'bool'}
    if isinstance(x, int):
        return [x], (), {'int'}
    if isinstance(x, Poly):
        return [x], (), {'int' if x.isint else 'float'}
    if isinstance(x, (float, Fraction)):
        return [x], (), {'float'}
    if isinstance(x, complex):
        return [x], (), {'complex'}
    if isinstance(x, TObj):
        if len(x.shape) == 0:
            return [as_number(I, x)], (), {'complex' if is_complex(x.dtype) else 'int' if isint_dtype(x.dtype) else 'float'}
        raise Incomplete('tensor of tensors')
    if isinstance(x, (PList, tuple)):
        items = I.iterate(x)
        if any(isinstance(y, Gen) for y in items):
            raise Incomplete('tensor of a symbolic list')
        parts = [_nested(I, y) for y in items]
        if not parts:
            return [], (0,), set()
        if len({p[1] for p in parts}) > 1:
            _raise(I, 'ValueError', 'ragged nested list')
        return [v for p in parts for v in p[0]], (len(parts),) + parts[0][1], set().union(*[p[2] for p in parts])
    if isinstance(x, Unk):
        raise Incomplete(f'tensor of {x!r}')
    _raise(I, 'TypeError', 'tensor data', repr(x))


def f_as_tensor(I, a, k):
    x = I.resolve(arg(a, k, 0, 'data'))
    if isinstance(x, TObj):
        return to(I, x, [], {n: v for n, v in k.items() if n in ('dtype', 'device')})
    return f_tensor(I, a, k)


def f_arange(I, a, k):
    a = [one_dim(I, x) for x in a]
    if all(isinstance(x, int) for x in a):
        r = list(range(*a))
        d, dev = _opts(I, k, 'int64')
        return TObj(tnet.Dense((len(r),), r), d, dev)
    raise Incomplete('arange of a symbolic size')


def f_stack(I, a, k):
    ts = [need(I, x) for x in I.iterate(a[0])]
    dim = axis(I, arg(a, k, 1, 'dim', 0), len(ts[0].shape) + 1)
    d, dev = combine(I, 'stack', ts)
    if all(isinstance(t.v, tnet.Dense) for t in ts) and dim == 0:
        return TObj(tnet.Dense((len(ts),) + tuple(ts[0].shape), [x for t in ts for x in t.v.data]), d, dev)
    acc = None
    for i, t in enumerate(ts):
        e = tnet.Dense((len(ts),), [1 if j == i else 0 for j in range(len(ts))])
        n = len(t.shape)
        idx = list(range(n))
        r = tnet.lifted(lambda u: tnet.contract([(['s'], tnet.tv(e)), (idx, tnet.tv(u))], idx[:dim] + ['s'] + idx[dim:], 'stack'))(t.v)
        acc = r if acc is None else tnet.add(acc, r)
    return TObj(acc, d, dev)


def f_cat(I, a, k):
    ts = [need(I, x) for x in I.iterate(arg(a, k, 0, 'tensors'))]
    dim = axis(I, arg(a, k, 1, 'dim', k.get('axis', 0)), len(ts[0].shape))
    d, dev = combine(I, 'cat', ts)
    if len({len(t.shape) for t in ts}) > 1:
        _raise(I, 'RuntimeError', 'tensors of different rank joined')
    ends = [0]
    for t in ts:
        ends.append(poly.add(ends[-1], t.shape[dim]))
        for i, (x, y) in enumerate(zip(t.shape, ts[0].shape)):
            if i != dim and tnet.dim_eq(x, y) is False:
                raise DimError('join of tensors whose other sizes differ')
    sh = list(ts[0].shape)
    sh[dim] = ends[-1]
    acc = TObj(tnet.Dense(sh, [0] * tnet.prod(sh)) if _small(sh) else tnet.zeros_tv(sh), d, dev)
    for t, lo, hi in zip(ts, ends, ends[1:]):
        part = t_getitem(I, acc, tuple([slice(None)] * dim + [slice(lo, hi, None)]))
        part.write(t.v)
    return acc


def _dim0(default):
    return lambda I, a, k: f_cat(I, [a[0]], {'dim': default})


def f_full_like(I, a, k):
    t = need(I, a[0])
    return _new('full')(I, t, [tuple(t.shape), arg(a, k, 1, 'fill_value')], {n: v for n, v in k.items() if n in ('dtype', 'device')})


def la_eigvalsh(I, a, k):
    t = need(I, arg(a, k, 0, 'A', k.get('input')))
    I.may_raise(('eigh', tnet.vn(t.v)), 'LinAlgError')
    return like(t, tnet.eigh(t.v)[0], real_dtype(t.dtype))


def f_where(I, a, k):
    raise Incomplete('torch.where')


def f_is_tensor(I, a, k):
    return I.lift(lambda x: isinstance(x, TObj), a[0])


def f_is_complex(I, a, k):
    return I.lift(lambda x: is_complex(x.dtype), a[0])


def f_allclose(I, a, k):
    x, y = need(I, a[0]), need(I, a[1])
    return I.mkguard(('allclose', tnet.vn(x.v), tnet.vn(y.v)))


def f_equal(I, a, k):
    x, y = need(I, a[0]), need(I, a[1])
    if tnet.same(tnet.resolve(x.v), tnet.resolve(y.v)):
        return True
    return I.mkguard(('tequal', tnet.vn(x.v), tnet.vn(y.v)))


def f_svd_lowrank(I, a, k):
    """ideal behaviour: the leading q singular triplets"""
    t = need(I, arg(a, k, 0, 'A'))
    q = I.resolve(arg(a, k, 1, 'q', 6))
    niter = I.resolve(arg(a, k, 2, 'niter', 2))
    I.lowrank.append((tnet.vn(t.v), q, niter))
    if not isinstance(q, (int, Poly)):
        raise Incomplete(f'svd_lowrank q={q!r}')
    u, s, vh = tnet.svd(t.v, full=False)
    sl = slice(None, q, None)
    u = tnet.index(u, (slice(None), sl))
    s = tnet.index(s, (sl,))
    v = tnet.conj(tnet.permute(tnet.index(vh, (sl, slice(None))), [1, 0]))
    return NTuple((like(t, u), like(t, s, real_dtype(t.dtype)), like(t, v)), ('U', 'S', 'V'))


def f_save(I, a, k):
    obj = arg(a, k, 0, 'obj')
    fn = I.resolve(arg(a, k, 1, 'f'))
    if not isinstance(fn, (str, Unk, Tok)):
        raise Incomplete(f'torch.save to {fn!r}')
    key = fn if isinstance(fn, str) else repr(fn)
    I.fs[key] = I.pylib.deepcopy(I, obj)
    I.events.append(('save', key))


def f_load(I, a, k):
    fn = I.resolve(arg(a, k, 0, 'f'))
    key = fn if isinstance(fn, str) else repr(fn)
    if key not in I.fs:
        _raise(I, 'FileNotFoundError', key)
    I.events.append(('load', key))
    obj = I.pylib.deepcopy(I, I.fs[key])
    ml = I.resolve(k.get('map_location')) if k.get('map_location') is not None else None
    if ml is not None and not isinstance(ml, (str, Tok)):
        raise Incomplete('torch.load map_location')
    if ml is not None:
        dev = as_device(I, ml)
        seen = set()

        def walk(x):
            x = I.resolve(x)
            if isinstance(x, TObj):
                x.device = dev
            b = getattr(x, 'box', None)
            if b is not None:
                if b.id in seen:
                    return
                seen.add(b.id)
            if isinstance(x, PDict):
                for _, v in x.d.values():
                    walk(v)
            elif isinstance(x, PList):
                for v in x.items:
                    walk(v)
            elif isinstance(x, tuple):
                for v in x:
                    walk(v)
            elif isinstance(x, Inst):
                for v in x.box.content.values():
                    walk(v)
        walk(obj)
    return obj


def f_device(I, a, k):
    x = I.resolve(a[0] if a else k.get('device', k.get('type')))
    idx = I.resolve(a[1]) if len(a) > 1 else k.get('index')
    if isinstance(x, Tok) and x.attrs.get('kind') == 'device':
        return x
    if isinstance(x, str):
        t = x.split(':')[0]
        if t not in ('cpu', 'cuda', 'mps', 'xpu', 'meta', 'hip', 'xla'):
            _raise(I, 'RuntimeError', 'invalid device', x)
        return device(x, idx)
    if isinstance(x, int):
        return device('cuda', x)
    if isinstance(x, Unk):
        return x
    _raise(I, 'TypeError', 'device', repr(x))


def from_op(name):
    f = OPS[name]

    def g(I, a, k):
        k = dict(k)
        t = a[0] if a else k.pop('input', k.pop('A', None))
        return _lift0(I, lambda x: f(I, x, list(a[1:]), k), t)
    return Builtin('torch.' + name, g)


def f_max(which):
    def f(I, a, k):
        return _ext(I, need(I, a[0]), a[1:], k, which)
    return f


# ------------------------------------------------------------------- layout
# strides are followed only as far as "certainly contiguous" / "certainly laid out as a permutation": what clone(), detach(),
# to(), empty_like() keep and permute() changes

def _laid(f, how):
    def g(I, t, a=(), k=None):
        r = f(I, t, a, {} if k is None else k)
        if isinstance(r, TObj) and r is not t:
            r.lay = how(I, t, a, k or {}, r)
        return r
    return g


def _permuted(I, t, a, k, r):
    if len(t.shape) < 2 or tnet.vn(t.v) == tnet.vn(r.v):
        return t.lay
    return 'n'


for _n in ('permute', 'transpose', 'swapaxes', 'swapdims', 'movedim', 'moveaxis', 't', 'adjoint'):
    if _n in OPS:
        OPS[_n] = _laid(OPS[_n], _permuted)
OPS['contiguous'] = _laid(OPS['contiguous'], lambda I, t, a, k, r: 'c')
OPS['clone'] = _laid(OPS['clone'], lambda I, t, a, k, r: 'c' if 'contiguous_format' in repr(k.get('memory_format')) else t.lay)
for _n in ('detach', 'to', 'cpu', 'cuda', 'type'):
    if _n in OPS:
        OPS[_n] = _laid(OPS[_n], lambda I, t, a, k, r: t.lay)


# --------------------------------------------------------------- distributed

def dist_module(I):
    """torch.distributed: group state plus collectives.  I.dist_driver (set by the
    lock-step driver) supplies the communication; without it a collective outside an
    initialised group raises."""
    st = PDict()
    I.dist_state = st

    def state(name, default=None):
        e = st.d.get(name)
        return I.resolve(e[1]) if e else default

    def setst(**kw):
        c = dict(st.d)
        for n, v in kw.items():
            c[n] = (n, v)
        st.box.content = c

    def init(I, a, k):
        if state('init', False) is True:
            _raise(I, 'ValueError', 'trying to initialize the default process group twice!')
        be = arg(a, k, 0, 'backend')
        setst(init=True, rank=I.resolve(k.get('rank', -1)), world=I.resolve(k.get('world_size', -1)), backend=I.resolve(be))
        I.events.append(('init_process_group', I.resolve(k.get('rank')), I.resolve(k.get('world_size'))))

    def is_init(I, a, k):
        return state('init', False)

    def check(I):
        s = state('init', False)
        if s is False:
            _raise(I, 'ValueError', 'Default process group has not been initialized')
        if s is not True:
            raise Incomplete('collective under an uncertain process group state')

    def rank(I, a, k):
        if state('init', False) is not True:
            return -1
        return state('rank')

    def world(I, a, k):
        if state('init', False) is not True:
            return -1
        return state('world')

    def destroy(I, a, k):
        I.events.append(('destroy_process_group', tuple(I.where[-2:])))
        if state('init', False) is False:
            _raise(I, 'AssertionError', 'no process group')
        setst(init=False)

    def coll(name):
        def f(I, a, k):
            check(I)
            if I.dist_driver is None:
                raise Incomplete(f'collective {name} without a driver')
            return I.dist_driver(name, a, k)
        return Builtin('dist.' + name, f)

    d = PModule('torch.distributed', {
        'is_initialized': Builtin('dist.is_initialized', is_init), 'is_available': Builtin('dist.is_available', lambda I, a, k: True),
        'init_process_group': Builtin('dist.init_process_group', init), 'get_rank': Builtin('dist.get_rank', rank),
        'get_world_size': Builtin('dist.get_world_size', world),
        'destroy_process_group': Builtin('dist.destroy_process_group', destroy),
        'get_backend': Builtin('dist.get_backend', lambda I, a, k: state('backend')),
        'ReduceOp': PModule('ReduceOp', {n: Tok('ReduceOp.' + n) for n in ('SUM', 'MAX', 'MIN', 'PRODUCT', 'AVG')}),
    }, dynamic=lambda n: Unk(f'torch.distributed.{n}'))
    for n in ('broadcast', 'all_gather', 'all_reduce', 'barrier', 'gather', 'scatter', 'reduce', 'all_gather_object', 'broadcast_object_list',
              'send', 'recv', 'isend', 'irecv', 'all_gather_into_tensor', 'all_to_all', 'reduce_scatter'):
        d.box.content = {**d.box.content, n: coll(n)}
    rec = Builtin('record', lambda I, a, k: a[0] if a else Builtin('record()', lambda I, a, k: a[0]))
    errs = PModule('torch.distributed.elastic.multiprocessing.errors', {'record': rec}, dynamic=lambda n: Unk(n))
    mp = PModule('torch.distributed.elastic.multiprocessing', {'errors': errs}, dynamic=lambda n: Unk(n))
    el = PModule('torch.distributed.elastic', {'multiprocessing': mp}, dynamic=lambda n: Unk(n))
    d.box.content = {**d.box.content, 'elastic': el}
    return d


# ------------------------------------------------------------------- install

def install(I):
    I.notes = []
    I.casts = []
    I.inplace_log = []
    I.clamps = []
    I.pinvs = []
    I.chols = {}
    I.lowrank = []
    I.counts = {}
    I.einsums = 0
    I.nrand = 0
    I.rules = {}
    I.dist_driver = None
    I.cuda_available = False
    pl = I.pylib
    F = lambda n, f: Builtin('torch.' + n, f)
    c = {}
    for n, d in DTYPES.items():
        c[n] = d
    for n, d in ALIASES.items():
        c[n] = DTYPES[d]
    for n in ('permute', 'transpose', 'movedim', 'moveaxis', 'swapaxes', 'reshape', 'flatten', 'unsqueeze', 'squeeze', 'conj', 'conj_physical',
              'resolve_conj', 'detach', 'clone', 'adjoint', 't', 'real', 'imag', 'abs', 'absolute', 'neg', 'sqrt', 'rsqrt', 'reciprocal', 'square', 'pow',
              'exp', 'log', 'sin', 'cos', 'tanh', 'sign', 'sgn', 'isnan', 'isinf', 'isfinite', 'clamp', 'clip', 'norm', 'sum', 'trace', 'any', 'all',
              'diag', 'flip', 'mul', 'multiply', 'div', 'add', 'sub', 'matmul', 'mm', 'bmm', 'mv', 'dot', 'vdot', 'outer', 'matrix_exp', 'numel',
              'amax', 'amin', 'narrow', 'select', 'lt', 'gt', 'le', 'ge', 'eq', 'inverse', 'argsort', 'sort', 'topk', 'count_nonzero', 'diagonal',
              'ravel', 'true_divide', 'subtract', 'divide', 'mean', 'prod', 'cumsum', 'broadcast_to', 'diag_embed', 'nan_to_num', 'angle',
              'inner', 'ger', 'is_floating_point', 'round', 'unflatten', 'swapdims', 'unbind', 'split', 'chunk', 'addmm', 'addmv', 'baddbmm', 'clamp_min', 'clamp_max',
              'negative', 'argmax', 'argmin', 'median', 'std', 'var'):
        c[n] = from_op(n)
    c.update({
        'einsum': F('einsum', f_einsum), 'tensordot': F('tensordot', f_tensordot), 'kron': F('kron', f_kron),
        'zeros': F('zeros', f_zeros), 'ones': F('ones', f_ones), 'full': F('full', f_full), 'empty': F('empty', _fresh('empty')),
        'rand': F('rand', _fresh('rand')), 'randn': F('randn', _fresh('rand')), 'eye': F('eye', f_eye), 'tensor': F('tensor', f_tensor),
        'as_tensor': F('as_tensor', f_as_tensor), 'asarray': F('asarray', f_as_tensor), 'arange': F('arange', f_arange),
        'cat': F('cat', f_cat), 'concat': F('cat', f_cat), 'concatenate': F('cat', f_cat), 'full_like': F('full_like', f_full_like),
        'chain_matmul': F('chain_matmul', lambda I, a, k: la_multi_dot(I, [PList(list(a))] if len(a) != 1 else a, k)),
        'stack': F('stack', f_stack), 'where': F('where', f_where), 'empty_like': F('empty_like', _fresh_like('empty')),
        'zeros_like': F('zeros_like', _fresh_like('zeros')), 'ones_like': F('ones_like', _fresh_like('ones')),
        'rand_like': F('rand_like', _fresh_like('rand')), 'randn_like': F('randn_like', _fresh_like('rand')),
        'max': F('max', f_max('max')), 'min': F('min', f_max('min')), 'maximum': F('maximum', f_max('max')), 'minimum': F('minimum', f_max('min')),
        'is_tensor': F('is_tensor', f_is_tensor), 'is_complex': F('is_complex', f_is_complex), 'allclose': F('allclose', f_allclose),
        'equal': F('equal', f_equal), 'svd_lowrank': F('svd_lowrank', f_svd_lowrank), 'save': F('save', f_save), 'load': F('load', f_load),
        'device': Builtin('torch.device', f_device), 'svd': F('svd', old_svd), 'qr': F('qr', la_qr), 'cholesky': F('cholesky', la_cholesky),
        'pinverse': F('pinverse', la_pinv), 'cholesky_solve': F('cholesky_solve', cholesky_solve),
        'no_grad': pl.deco_or_ctx('torch.no_grad'), 'inference_mode': pl.deco_or_ctx('torch.inference_mode'),
        'enable_grad': pl.deco_or_ctx('torch.enable_grad'), 'set_grad_enabled': pl.deco_or_ctx('torch.set_grad_enabled'),
        'Tensor': Tok('torch.Tensor'), 'dtype': Tok('torch.dtype'), 'Size': Tok('torch.Size'),
        'get_num_threads': F('get_num_threads', lambda I, a, k: Unk('threads')), 'set_num_threads': F('x', lambda I, a, k: None),
        'manual_seed': F('manual_seed', lambda I, a, k: None), 'seed': F('seed', lambda I, a, k: None),
        'set_default_dtype': F('x', lambda I, a, k: I._inc('set_default_dtype')), 'inf': float('inf'), 'pi': 3.141592653589793,
        'get_default_dtype': F('x', lambda I, a, k: DTYPES['float32']),
        'finfo': F('finfo', lambda I, a, k: Unk('finfo')), 'is_grad_enabled': F('x', lambda I, a, k: False),
    })

    def cuda_avail(I, a, k):
        return I.cuda_available
    c['cuda'] = PModule('torch.cuda', {
        'is_available': F('cuda.is_available', cuda_avail), 'device_count': F('cuda.device_count', lambda I, a, k: getattr(I, 'cuda_count', 8) if I.cuda_available else 0),
        'set_device': F('cuda.set_device', lambda I, a, k: None), 'synchronize': F('cuda.synchronize', lambda I, a, k: None),
        'nvtx': PModule('torch.cuda.nvtx', {'range_push': F('x', lambda I, a, k: None), 'range_pop': F('x', lambda I, a, k: None),
                                            'range': pl.deco_or_ctx('nvtx.range')}, dynamic=lambda n: Builtin(n, lambda I, a, k: None)),
        'Event': F('cuda.Event', lambda I, a, k: sinktok('cuda event')),
    }, dynamic=lambda n: Builtin('torch.cuda.' + n, lambda I, a, k: Unk('torch.cuda.' + n)))
    c['backends'] = PModule('torch.backends', {}, dynamic=lambda n: sinktok('torch.backends.' + n))
    c['_C'] = PModule('torch._C', {'_LinAlgError': ExcClass('LinAlgError')}, dynamic=lambda n: Unk(f'torch._C.{n}'))
    la = {'qr': la_qr, 'svd': la_svd, 'eigh': la_eigh, 'pinv': la_pinv, 'inv': la_inv, 'cholesky': la_cholesky,
          'solve_triangular': la_solve_triangular, 'solve': la_solve, 'norm': la_norm, 'vector_norm': la_norm, 'matrix_norm': la_norm,
          'svdvals': la_svdvals, 'eigvalsh': la_eigvalsh, 'multi_dot': la_multi_dot,
          'matrix_exp': lambda I, a, k: matrix_exp(I, need(I, a[0]), [], {})}
    lm = {n: F('linalg.' + n, f) for n, f in la.items()}
    lm['LinAlgError'] = ExcClass('LinAlgError')
    c['linalg'] = PModule('torch.linalg', lm, dynamic=lambda n: Builtin('torch.linalg.' + n, lambda I, a, k: I._inc(f'torch.linalg.{n}')))
    m = PModule('torch', c, dynamic=lambda n: unmodelled(I, n))
    I.ext['torch'] = m
    c2 = dict(m.box.content)
    c2['distributed'] = dist_module(I)
    c2['nn'] = PModule('torch.nn', {}, dynamic=lambda n: Unk(f'torch.nn.{n}'))
    c2['utils'] = PModule('torch.utils', {}, dynamic=lambda n: Unk(f'torch.utils.{n}'))
    m.box.content = c2


def sinktok(n):
    return Tok(n, sink=True)
