"""Models of Python builtins and the standard / third party (non-torch) modules."""
import math as _math
from . import poly, tnet
from .poly import Poly
from .tnet import Guard, Incomplete
from .objects import *

NUM = (int, float, complex, Poly)


def B(name):
    def dec(fn):
        return Builtin(name, fn)
    return dec


def _raise(I, cls, *args):
    from .interp import PyRaise
    raise PyRaise(ExcVal(cls, args))


def to_dim(I, x):
    """number-like value of x (tensor scalars become symbolic numbers)"""
    x = I.resolve(x)
    if isinstance(x, TObj):
        return I.torchlib.as_index(I, x)
    return x


def b_len(I, a, k):
    def go(o):
        if isinstance(o, PList):
            if any(isinstance(x, Gen) for x in o.items):
                n = 0
                for x in o.items:
                    c = 1
                    if isinstance(x, Gen):
                        for var, lo, hi, st in x.loops:
                            c = poly.mul(c, poly.sub(hi, lo)) if st == 1 else Poly.sym(('len', tnet.uid()), True, True)
                    n = poly.add(n, c)
                return n
            return len(o.items)
        if isinstance(o, (PDict, PSet)):
            n = 0
            if isinstance(o, PDict):
                for _, v in o.d.values():
                    v = I.resolve(v)
                    if v is UNDEF:
                        continue
                    if isinstance(v, Phi) and (v.a is UNDEF or v.b is UNDEF):
                        return Unk('len of a conditionally filled dict')
                    n += 1
                return n
            return len(o.box.content)
        if isinstance(o, (str, tuple)):
            return len(o)
        if isinstance(o, TObj):
            if not o.shape:
                _raise(I, 'TypeError', 'len of 0-d tensor')
            return o.shape[0]
        if isinstance(o, PRange):
            if all(isinstance(x, int) for x in (o.lo, o.hi, o.step)):
                return len(range(o.lo, o.hi, o.step))
            if o.step == 1:
                return poly.max_(0, poly.sub(o.hi, o.lo))
            return Poly.sym(('len', tnet.uid()), False, True)
        if isinstance(o, Inst):
            if o.cls.lookup('__len__'):
                return I.call_method(o, '__len__', [])
        if isinstance(o, Unk):
            return Unk(f'len({o.why})')
        if isinstance(o, PIter):
            _raise(I, 'TypeError', 'len of iterator')
        _raise(I, 'TypeError', 'len', repr(o))
    return I.lift(go, a[0])


def b_range(I, a, k):
    def go(*a):
        a = [to_dim(I, x) for x in a]
        a = [int(x) if isinstance(x, bool) else x for x in a]
        for x in a:
            if isinstance(x, float):
                _raise(I, 'TypeError', 'float in range')
            if not isinstance(x, (int, Poly)):
                raise Incomplete(f'range({x!r})')
        if len(a) == 1:
            return PRange(0, a[0], 1)
        if len(a) == 2:
            return PRange(a[0], a[1], 1)
        return PRange(*a)
    return I.lift(go, *a)


def _minmax(I, a, k, kind):
    items = I.iterate(a[0]) if len(a) == 1 else list(a)
    key = k.get('key')
    if not items:
        if 'default' in k:
            return k['default']
        _raise(I, 'ValueError', 'empty')
    if len(items) == 1:
        return items[0]
    if key is not None:
        ks = [I.call(key, [x], {}) for x in items]
        if all(isinstance(x, (int, float, str, tuple)) for x in ks):
            j = (min if kind == 'min' else max)(range(len(items)), key=lambda i: ks[i])
            return items[j]
        raise Incomplete('min/max with a key')

    def go(*items):
        if any(isinstance(x, Unk) for x in items):
            return next(x for x in items if isinstance(x, Unk))
        if all(isinstance(x, str) for x in items):
            return (min if kind == 'min' else max)(items)
        if any(isinstance(x, TObj) for x in items):
            vals = []
            for x in items:
                if isinstance(x, TObj):
                    try:
                        x = I.torchlib.as_number(I, x)
                    except Incomplete:
                        vals = None
                        break
                vals.append(x)
            if vals is None:
                t = next(x for x in items if isinstance(x, TObj))
                vs = [x.v if isinstance(x, TObj) else tnet.scalar_tv(x) for x in items]
                return TObj(tnet.opaque(kind, sorted(vs, key=lambda v: str(tnet.vn(v))), ()), t.dtype, t.device)
            items = vals
        if any(isinstance(x, (tuple, PList)) for x in items):
            ts = [x if isinstance(x, tuple) else tuple(x.items) for x in items]
            if all(all(isinstance(y, (int, float, str)) for y in t) for t in ts):
                return items[(min if kind == 'min' else max)(range(len(ts)), key=lambda i: ts[i])]
            raise Incomplete('min/max of tuples')
        return (poly.min_ if kind == 'min' else poly.max_)(*items)
    return I.lift(go, *items)


def b_abs(I, a, k):
    def go(x):
        if isinstance(x, TObj):
            return I.torchlib.unary(I, 'abs', x)
        if isinstance(x, Unk):
            return x
        if isinstance(x, (int, float, complex)):
            return abs(x)
        if isinstance(x, Poly):
            s = poly.sign_of(x)
            if s in ('+', '>=0', '0'):
                return x
            if s in ('-', '<=0'):
                return poly.neg(x)
            return poly.term('abs', x, isint=x.isint)
        if isinstance(x, Inst):
            return I.call_method(x, '__abs__', [])
        raise Incomplete(f'abs({x!r})')
    return I.lift(go, a[0])


def b_sum(I, a, k):
    import ast
    acc = a[1] if len(a) > 1 else k.get('start', 0)
    for x in I.iterate(a[0]):
        if isinstance(x, Gen):
            raise Incomplete('sum over a symbolic range')
        acc = I.lift(lambda p, q: I.binop(ast.Add(), p, q), acc, x)
    return acc


def b_enumerate(I, a, k):
    st = a[1] if len(a) > 1 else k.get('start', 0)
    items = I.iterate(a[0])
    out = []
    for i, x in enumerate(items):
        if isinstance(x, Gen):
            if len(items) == 1 and len(x.loops) == 1:
                var, lo, hi, step = x.loops[0]
                if isinstance(x.template, Poly) and x.template == Poly.of(var) and step == 1:
                    return PList([Gen((poly.add(poly.sub(var, lo), st), x.template), x.loops)])
            raise Incomplete('enumerate over a symbolic range')
        out.append((poly.add(i, st), x))
    return PIter(out)


def b_zip(I, a, k):
    lists = [I.iterate(x) for x in a]
    if any(isinstance(x, Gen) for l in lists for x in l):
        if all(len(l) == 1 and isinstance(l[0], Gen) for l in lists):
            r0 = lists[0][0].loops
            out = []
            for l in lists:
                g = l[0]
                if g.loops != r0:
                    if len(g.loops) == len(r0) == 1 and g.loops[0][1:] == r0[0][1:] and isinstance(g.template, Poly) and \
                            g.template == Poly.of(g.loops[0][0]):
                        out.append(r0[0][0])
                        continue
                    raise Incomplete('zip of symbolic ranges')
                out.append(g.template)
            return PList([Gen(tuple(out), r0)])
        raise Incomplete('zip with symbolic ranges')
    if k.get('strict') and len({len(l) for l in lists}) > 1:
        _raise(I, 'ValueError', 'zip strict')
    return PIter([tuple(t) for t in zip(*lists)])


def concrete_sort_key(I, v):
    v = I.resolve(v)
    if isinstance(v, (int, float, str)):
        return v
    if isinstance(v, tuple):
        return tuple(concrete_sort_key(I, x) for x in v)
    if isinstance(v, PList):
        return tuple(concrete_sort_key(I, x) for x in v.items)
    raise Incomplete(f'ordering of {v!r}')


def b_sorted(I, a, k):
    items = I.iterate(a[0])
    key = k.get('key')
    ks = [concrete_sort_key(I, I.call(key, [x], {}) if key is not None else x) for x in items]
    rev = bool(k.get('reverse', False))
    idx = sorted(range(len(items)), key=lambda i: ks[i], reverse=rev)
    return PList([items[i] for i in idx])


def b_reversed(I, a, k):
    o = I.resolve(a[0])
    items = I.iterate(o)
    if any(isinstance(x, Gen) for x in items):
        if len(items) == 1 and len(items[0].loops) == 1:
            return PList(items)          # same set of iterations, order is not tracked
        raise Incomplete('reversed symbolic list')
    return PIter(items[::-1])


def b_list(I, a, k):
    return PList(I.iterate(a[0]) if a else [])


def b_tuple(I, a, k):
    if not a:
        return ()
    items = I.iterate(a[0])
    if any(isinstance(x, Gen) for x in items):
        raise Incomplete('tuple of a symbolic range')
    return tuple(items)


def b_set(I, a, k):
    from .interp import hkey
    return PSet({hkey(x): x for x in (I.iterate(a[0]) if a else [])})


def b_dict(I, a, k):
    from .interp import hkey
    d = {}
    if a:
        o = I.resolve(a[0])
        if isinstance(o, PDict):
            d.update(o.d)
        else:
            for p in I.iterate(o):
                kk, vv = I.unpack(p, 2)
                d[hkey(kk)] = (kk, vv)
    for kk, vv in k.items():
        d[hkey(kk)] = (kk, vv)
    return PDict(d)


def b_int(I, a, k):
    def go(x=0, *r):
        if isinstance(x, bool):
            return int(x)
        if isinstance(x, int):
            return x
        if isinstance(x, float):
            return int(x)
        if isinstance(x, str):
            try:
                return int(x, *r)
            except ValueError:
                _raise(I, 'ValueError', 'int', x)
        if isinstance(x, Poly):
            if x.isint:
                return x
            return poly.term('int', x)
        if isinstance(x, TObj):
            return I.torchlib.as_index(I, x)
        if isinstance(x, Unk):
            return Unk(f'int({x.why})')
        if isinstance(x, Tok):
            return Unk('int')
        if x is None:
            _raise(I, 'TypeError', 'int(None)')
        raise Incomplete(f'int({x!r})')
    return I.lift(go, *a)


def b_float(I, a, k):
    def go(x=0.0):
        if isinstance(x, (int, float)):
            return float(x)
        if isinstance(x, Poly):
            return x
        if isinstance(x, TObj):
            return x
        if isinstance(x, str):
            try:
                return float(x)
            except ValueError:
                _raise(I, 'ValueError', 'float', x)
        if isinstance(x, Unk):
            return x
        raise Incomplete(f'float({x!r})')
    return I.lift(go, *a)


def b_str(I, a, k):
    if not a:
        return ''
    return I.to_str(I.resolve(a[0]))


def b_repr(I, a, k):
    x = I.resolve(a[0])
    return repr(x) if isinstance(x, (int, str, float, bool, type(None))) else Unk('repr')


def b_bool(I, a, k):
    if not a:
        return False
    from .interp import NotG
    t = I.truth(a[0])
    if isinstance(t, tuple):
        return NotG(t[1])
    return t


def type_matches(I, v, c):
    """True/False/None"""
    if isinstance(c, tuple):
        r = False
        for x in c:
            m = type_matches(I, v, x)
            if m is True:
                return True
            if m is None:
                r = None
        return r
    if isinstance(c, PClass):
        if isinstance(v, Inst):
            return c in v.cls.mro
        if isinstance(v, Unk):
            return None
        if isinstance(v, ExcVal):
            return v.cls == c.name
        if isinstance(v, TObj):
            return c.name == 'Tensor' and not c.module
        return False
    n = c.name if isinstance(c, (Builtin, Tok, ExcClass)) else None
    if n is None:
        return None
    if isinstance(v, Unk):
        return None
    if n == 'object':
        return True
    tests = {
        'int': lambda: isinstance(v, int) or (isinstance(v, Poly) and v.isint),
        'float': lambda: isinstance(v, float) or (isinstance(v, Poly) and not v.isint),
        'complex': lambda: isinstance(v, complex),
        'str': lambda: isinstance(v, str), 'bytes': lambda: isinstance(v, bytes),
        'bool': lambda: isinstance(v, bool), 'list': lambda: isinstance(v, PList),
        'tuple': lambda: isinstance(v, tuple) or (isinstance(v, Inst) and bool(v.cls.dataclass) and bool(v.cls.dataclass.get('namedtuple'))),
        'dict': lambda: isinstance(v, PDict), 'set': lambda: isinstance(v, PSet), 'frozenset': lambda: False,
        'NoneType': lambda: v is None, 'type': lambda: isinstance(v, (PClass, ExcClass)),
        'torch.Tensor': lambda: isinstance(v, TObj), 'torch.dtype': lambda: isinstance(v, Tok) and v.attrs.get('kind') == 'dtype',
        'torch.device': lambda: isinstance(v, Tok) and v.attrs.get('kind') == 'device',
        'torch.Size': lambda: isinstance(v, tuple), 'range': lambda: isinstance(v, PRange),
        'Number': lambda: isinstance(v, NUM), 'Real': lambda: isinstance(v, (int, float, Poly)),
        'Integral': lambda: isinstance(v, int) or (isinstance(v, Poly) and v.isint),
        'Iterable': lambda: isinstance(v, (PList, tuple, str, PDict, PSet, PRange, PIter)),
        'Sequence': lambda: isinstance(v, (PList, tuple, str, PRange)), 'Mapping': lambda: isinstance(v, PDict),
        'Callable': lambda: isinstance(v, (PFunc, Bound, Builtin, PClass)), 'function': lambda: isinstance(v, PFunc),
        'namedtuple': lambda: False,
    }
    if n in tests:
        return bool(tests[n]())
    if isinstance(v, ExcVal):
        from .interp import exc_isa
        return exc_isa(v.cls, n)
    return None


def isinstance_(I, v, cls):
    v, cls = I.resolve(v), I.resolve(cls)
    if isinstance(v, Phi):
        from .interp import NotG
        return Phi(v.guard, isinstance_(I, v.a, cls), isinstance_(I, v.b, cls))
    r = type_matches(I, v, cls)
    if r is None:
        return I.mkguard(('isinstance', getattr(v, 'why', repr(v)), repr(cls)))
    return r


def b_issubclass(I, a, k):
    c, d = I.resolve(a[0]), I.resolve(a[1])
    ds = d if isinstance(d, tuple) else (d,)
    if isinstance(c, PClass):
        return any(isinstance(x, PClass) and c.isub(x) for x in ds)
    if isinstance(c, Unk):
        return I.mkguard(('issubclass', c.why, repr(d)))
    if isinstance(c, (Builtin, Tok, ExcClass)):
        return any(x == c or x is c for x in ds)
    _raise(I, 'TypeError', 'issubclass() arg 1 must be a class')


def b_hasattr(I, a, k):
    from .interp import PyRaise
    o, n = I.resolve(a[0]), a[1]
    if isinstance(o, Phi):
        return I.lift(lambda x: b_hasattr(I, [x, n], {}), o)
    if isinstance(o, Unk):
        return I.mkguard(('hasattr', o.why, n))
    if isinstance(o, Inst):
        if o.cls.lookup(n) is not None or any(n in c.box.content for c in o.cls.mro):
            if n not in o.box.content:
                return True
        v = o.box.content.get(n, UNDEF)
        v = I.resolve(v)
        if v is UNDEF:
            if o.cls.lookup('__getattr__'):
                try:
                    I.getattr(o, n)
                    return True
                except PyRaise:
                    return False
            return n == '__dict__'
        if isinstance(v, Phi) and v.b is UNDEF:
            return v.guard
        return True
    try:
        I.getattr(o, n)
        return True
    except PyRaise as e:
        if e.val.cls == 'AttributeError':
            return False
        raise


def b_getattr(I, a, k):
    o, n = a[0], I.resolve(a[1])
    if not isinstance(n, str):
        raise Incomplete('getattr with an unknown name')
    return I.getattr(o, n, [a[2]] if len(a) > 2 else None)


def b_setattr(I, a, k):
    n = I.resolve(a[1])
    if not isinstance(n, str):
        raise Incomplete('setattr with an unknown name')
    I.setattr(a[0], n, a[2])


def b_map(I, a, k):
    lists = [I.iterate(x) for x in a[1:]]
    if any(isinstance(x, Gen) for l in lists for x in l):
        if len(lists) == 1:
            return PList([Gen(I.call(a[0], [x.template], {}), x.loops) if isinstance(x, Gen) else I.call(a[0], [x], {})
                          for x in lists[0]])
        raise Incomplete('map over symbolic ranges')
    return PIter([I.call(a[0], list(t), {}) for t in zip(*lists)])


def b_filter(I, a, k):
    out = []
    for x in I.iterate(a[1]):
        t = I.truth(x if a[0] is None else I.call(a[0], [x], {}))
        if t is True:
            out.append(x)
        elif t is not False:
            raise Incomplete('filter with an unknown condition')
    return PIter(out)


def b_any(I, a, k):
    res = False
    for x in I.iterate(a[0]):
        if isinstance(x, Gen):
            x = x.template
        t = I.truth(x)
        if t is True:
            return True
        if t is not False:
            res = Unk('any')
    return res


def b_all(I, a, k):
    res = True
    for x in I.iterate(a[0]):
        if isinstance(x, Gen):
            x = x.template
        t = I.truth(x)
        if t is False:
            return False
        if t is not True:
            res = Unk('all')
    return res


def b_type(I, a, k):
    if len(a) == 3:
        raise Incomplete('dynamic class creation')

    def go(v):
        if isinstance(v, Inst):
            return v.cls
        for py, n in ((bool, 'bool'), (int, 'int'), (float, 'float'), (str, 'str'), (tuple, 'tuple'), (PList, 'list'),
                      (PDict, 'dict'), (PSet, 'set'), (complex, 'complex')):
            if isinstance(v, py):
                return I.builtins[n]
        if v is None:
            return Tok('NoneType')
        if isinstance(v, TObj):
            return I.ext['torch'].box.content['Tensor']
        if isinstance(v, ExcVal):
            return ExcClass(v.cls)
        return Unk('type')
    return I.lift(go, a[0])


def b_iter(I, a, k):
    o = I.resolve(a[0])
    if isinstance(o, PIter):
        return o
    items = I.iterate(o)
    if any(isinstance(x, Gen) for x in items):
        return PList(items)
    return PIter(items)


def b_next(I, a, k):
    o = I.resolve(a[0])
    if isinstance(o, PIter):
        items, pos = o.box.content
        if pos >= len(items):
            if len(a) > 1:
                return a[1]
            _raise(I, 'StopIteration')
        o.box.content = (items, pos + 1)
        return items[pos]
    if isinstance(o, PList):       # generator objects are evaluated eagerly
        if not o.items:
            if len(a) > 1:
                return a[1]
            _raise(I, 'StopIteration')
        v = o.items[0]
        o.box.content = list(o.items[1:])
        return v
    if isinstance(o, Inst):
        return I.call_method(o, '__next__', [])
    raise Incomplete(f'next({o!r})')


def b_round(I, a, k):
    x = I.resolve(a[0])
    if isinstance(x, (int, float)):
        return round(*[I.resolve(y) for y in a])
    return Unk('round')


def b_divmod(I, a, k):
    x, y = to_dim(I, a[0]), to_dim(I, a[1])
    try:
        return (poly.floordiv(x, y), poly.mod(x, y))
    except ZeroDivisionError:
        _raise(I, 'ZeroDivisionError')


def b_pow(I, a, k):
    import ast
    return I.lift(lambda x, y: I.binop(ast.Pow(), x, y), a[0], a[1])


def b_print(I, a, k):
    return None


def b_callable(I, a, k):
    return isinstance(I.resolve(a[0]), (PFunc, Bound, Builtin, PClass))


def b_id(I, a, k):
    o = I.resolve(a[0])
    return getattr(getattr(o, 'box', None), 'id', id(o))


def b_super(I, a, k):
    from .interp import SuperObj
    return SuperObj(a[0], a[1])


def b_property(I, a, k):
    return Descr('property', a[0] if a else k.get('fget'), a[1] if len(a) > 1 else None)


def b_slice(I, a, k):
    a = [I.resolve(x) for x in a]
    return slice(*a)


def b_object_setattr(I, a, k):
    o, n, v = a
    o = I.resolve(o)
    I.setvar(o.box, I.resolve(n), v)


def b_object_getattribute(I, a, k):
    return I.getattr(a[0], a[1])


def identity(I, a, k):
    return a[0] if a else None


def deco_or_ctx(name):
    """no_grad() style: usable as decorator (with or without call) and as a context manager"""
    def fn(I, a, k):
        if a and isinstance(a[0], (PFunc, Bound, Builtin)):
            return a[0]
        return Builtin(name + '()', lambda I, a, k: a[0] if a else None)
    return Builtin(name, fn)


def sink(name):
    return Tok(name, sink=True)


# ---------------------------------------------------------------- dataclasses

class FieldSpec:
    def __init__(self, default=UNDEF, factory=None, init=True):
        self.default, self.factory, self.init = default, factory, init


def b_field(I, a, k):
    return FieldSpec(k.get('default', UNDEF), k.get('default_factory'), k.get('init', True))


def make_dataclass(I, cls, opts):
    fields = []
    specs = {}
    for b in reversed(cls.mro):
        for f in getattr(b, 'annotations', ()):
            if f not in fields:
                fields.append(f)
    for f in fields:
        v = cls.lookup(f)
        if isinstance(v, FieldSpec):
            specs[f] = v
        elif v is not None or any(f in c.box.content for c in cls.mro):
            specs[f] = FieldSpec(v)
        else:
            specs[f] = FieldSpec()
    # class attributes holding FieldSpec are replaced by their defaults
    for f in getattr(cls, 'annotations', ()):
        v = cls.box.content.get(f)
        if isinstance(v, FieldSpec):
            c = dict(cls.box.content)
            if v.default is UNDEF:
                c.pop(f)
            else:
                c[f] = v.default
            cls.box.content = c
    inherited = {}
    for b in cls.mro[1:]:
        if b.dataclass:
            for f, s in b.dataclass['specs'].items():
                inherited.setdefault(f, s)
    for f, s in inherited.items():
        if f not in getattr(cls, 'annotations', ()):
            specs[f] = s
    cls.dataclass = {'fields': fields, 'specs': specs, 'eq': opts.get('eq', True), 'frozen': bool(opts.get('frozen', False)),
                     'namedtuple': opts.get('namedtuple', False), 'order': opts.get('order', False)}
    return cls


def b_dataclass(I, a, k):
    if a and isinstance(a[0], PClass):
        return make_dataclass(I, a[0], k)
    return Builtin('dataclass()', lambda I, a2, k2: make_dataclass(I, a2[0], k))


def dataclass_init(I, inst, args, kw):
    dc = inst.cls.dataclass
    kw = dict(kw)
    fields = [f for f in dc['fields'] if dc['specs'][f].init]
    if len(args) > len(fields):
        _raise(I, 'TypeError', 'too many arguments', inst.cls.name)
    vals = {}
    for f, v in zip(fields, args):
        vals[f] = v
    for f in fields:
        if f in kw:
            if f in vals:
                _raise(I, 'TypeError', 'multiple values', f)
            vals[f] = kw.pop(f)
    if kw:
        _raise(I, 'TypeError', 'unexpected keyword', tuple(kw), inst.cls.name)
    for f in dc['fields']:
        if f not in vals:
            s = dc['specs'][f]
            if s.factory is not None:
                vals[f] = I.call(s.factory, [], {})
            elif s.default is not UNDEF:
                vals[f] = s.default
            else:
                _raise(I, 'TypeError', 'missing argument', f, inst.cls.name)
    inst.box.content = {f: vals[f] for f in dc['fields']}
    if inst.cls.lookup('__post_init__'):
        I.call_method(inst, '__post_init__', [])


def dc_replace(I, a, k):
    o = I.resolve(a[0])
    vals = {f: o.box.content[f] for f in o.cls.dataclass['fields']}
    vals.update(k)
    return I.instantiate(o.cls, [], vals)


def dc_asdict(I, a, k):
    o = I.resolve(a[0])

    def conv(v):
        v = I.resolve(v)
        if isinstance(v, Inst) and v.cls.dataclass:
            return PDict({f: (f, conv(v.box.content[f])) for f in v.cls.dataclass['fields']})
        if isinstance(v, PList):
            return PList([conv(x) for x in v.items])
        if isinstance(v, PDict):
            return PDict({k: (kk, conv(x)) for k, (kk, x) in v.d.items()})
        if isinstance(v, tuple):
            return tuple(conv(x) for x in v)
        return v
    return conv(o)


def dc_fields(I, a, k):
    o = I.resolve(a[0])
    c = o.cls if isinstance(o, Inst) else o
    return tuple(Tok('field:' + f, name=f) for f in c.dataclass['fields'])


# ------------------------------------------------------------------- deepcopy

def deepcopy(I, v, memo=None):
    memo = {} if memo is None else memo
    v = I.resolve(v)
    if isinstance(v, Phi):
        return Phi(v.guard, deepcopy(I, v.a, memo), deepcopy(I, v.b, memo))
    if isinstance(v, tuple):
        return tuple(deepcopy(I, x, memo) for x in v)
    b = getattr(v, 'box', None)
    if isinstance(v, (Inst, PList, PDict, PSet, TObj)) and b is not None:
        if b.id in memo:
            return memo[b.id]
    if isinstance(v, Inst):
        if v.cls.lookup('__deepcopy__'):
            return I.call_method(v, '__deepcopy__', [PDict()])
        n = Inst(v.cls)
        memo[b.id] = n
        n.box.content = {k: deepcopy(I, x, memo) for k, x in v.box.content.items()}
        return n
    if isinstance(v, PList):
        n = PList([])
        memo[b.id] = n
        n.box.content = [Gen(deepcopy(I, x.template, memo), x.loops) if isinstance(x, Gen) else deepcopy(I, x, memo)
                         for x in v.items]
        return n
    if isinstance(v, PDict):
        n = PDict()
        n.default_factory = v.default_factory
        memo[b.id] = n
        n.box.content = {k: (kk, deepcopy(I, x, memo)) for k, (kk, x) in v.d.items()}
        return n
    if isinstance(v, PSet):
        return PSet(v.box.content)
    if isinstance(v, TObj):
        n = TObj(v.v, v.dtype, v.device)
        memo[b.id] = n
        return n
    return v


def shallow(I, v):
    v = I.resolve(v)
    if isinstance(v, Phi):
        return Phi(v.guard, shallow(I, v.a), shallow(I, v.b))
    if isinstance(v, Inst):
        if v.cls.lookup('__copy__'):
            return I.call_method(v, '__copy__', [])
        return Inst(v.cls, v.box.content)
    if isinstance(v, PList):
        return PList(v.items)
    if isinstance(v, PDict):
        n = PDict(v.d)
        n.default_factory = v.default_factory
        return n
    if isinstance(v, PSet):
        return PSet(v.box.content)
    if isinstance(v, TObj):
        raise Incomplete('copy.copy of a tensor')
    return v


# ------------------------------------------------------------ builtin methods

def meth(o, name, fn):
    return Bound(Builtin(name, lambda I, a, k: fn(I, a[0], a[1:], k)), o)


def _append(I, o, a, k):
    if I.loopstack and False:
        pass
    o.box.content = list(o.items) + [a[0]]


def _extend(I, o, a, k):
    o.box.content = list(o.items) + list(I.iterate(a[0]))


def _insert(I, o, a, k):
    c = list(o.items)
    c.insert(a[0], a[1])
    o.box.content = c


def _pop(I, o, a, k):
    c = list(o.items)
    if not c:
        _raise(I, 'IndexError', 'pop from empty list')
    if any(isinstance(x, Gen) for x in c):
        raise Incomplete('pop from a symbolic list')
    v = c.pop(*a)
    o.box.content = c
    return v


def _remove(I, o, a, k):
    c = list(o.items)
    for i, x in enumerate(c):
        r = I.lift(lambda p, q: I.cmp('==', p, q), x, a[0])
        if r is True:
            del c[i]
            o.box.content = c
            return None
        if r is not False:
            raise Incomplete('list.remove')
    _raise(I, 'ValueError', 'remove')


def _index(I, o, a, k):
    for i, x in enumerate(I.iterate(o)):
        r = I.lift(lambda p, q: I.cmp('==', p, q), x, a[0])
        if r is True:
            return i
        if r is not False:
            raise Incomplete('list.index')
    _raise(I, 'ValueError', 'index')


def _count(I, o, a, k):
    n = 0
    for x in I.iterate(o):
        r = I.lift(lambda p, q: I.cmp('==', p, q), x, a[0])
        if r is True:
            n += 1
        elif r is not False:
            raise Incomplete('list.count')
    return n


def _reverse(I, o, a, k):
    if any(isinstance(x, Gen) for x in o.items):
        raise Incomplete('reverse of a symbolic list')
    o.box.content = list(o.items)[::-1]


def _sort(I, o, a, k):
    o.box.content = b_sorted(I, [o], k).items


def _clear(I, o, a, k):
    o.box.content = type(o.box.content)()


LIST = {'append': _append, 'extend': _extend, 'insert': _insert, 'pop': _pop, 'remove': _remove, 'index': _index,
        'count': _count, 'reverse': _reverse, 'sort': _sort, 'clear': _clear, 'copy': lambda I, o, a, k: PList(o.items)}


def _dget(I, o, a, k):
    from .interp import hkey
    d = a[1] if len(a) > 1 else k.get('default')

    def go(o, key):
        if isinstance(key, Unk):
            raise Incomplete(f'dict.get of {key!r}')
        hk = hkey(key)
        if hk in o.d:
            v = I.resolve(o.d[hk][1])
            if v is UNDEF:
                return d
            return fill(v)
        return d

    def fill(v):
        if isinstance(v, Phi):
            return I.phi(v.guard, fill(I.resolve(v.a)), fill(I.resolve(v.b)))
        return d if v is UNDEF else v
    return I.lift(go, o, a[0])


def _dsetdefault(I, o, a, k):
    from .interp import hkey
    hk = hkey(I.resolve(a[0]))
    if hk in o.d:
        v = I.resolve(o.d[hk][1])
        if not (v is UNDEF or isinstance(v, Phi) and (v.a is UNDEF or v.b is UNDEF)):
            return v
        if isinstance(v, Phi):
            raise Incomplete('setdefault on a conditional entry')
    v = a[1] if len(a) > 1 else None
    I._setitem(o, a[0], v)
    return v


def _dpop(I, o, a, k):
    from .interp import hkey
    hk = hkey(I.resolve(a[0]))
    c = dict(o.d)
    if hk in c:
        v = c.pop(hk)[1]
        o.box.content = c
        return v
    if len(a) > 1:
        return a[1]
    _raise(I, 'KeyError', a[0])


def _dupdate(I, o, a, k):
    from .interp import hkey
    c = dict(o.d)
    if a:
        s = I.resolve(a[0])
        if isinstance(s, PDict):
            c.update(s.d)
        elif isinstance(s, Phi):
            raise Incomplete('update with a gated dict')
        else:
            for p in I.iterate(s):
                kk, vv = I.unpack(p, 2)
                c[hkey(kk)] = (kk, vv)
    for kk, vv in k.items():
        c[hkey(kk)] = (kk, vv)
    o.box.content = c


def _live(I, o):
    out = []
    for kk, v in o.d.values():
        r = I.resolve(v)
        if r is UNDEF:
            continue
        if isinstance(r, Phi) and (r.a is UNDEF or r.b is UNDEF):
            raise Incomplete('iteration over a conditionally filled dict')
        out.append((kk, r))
    return out


DICT = {'get': _dget, 'setdefault': _dsetdefault, 'pop': _dpop, 'update': _dupdate, 'clear': _clear,
        'items': lambda I, o, a, k: PList([(kk, v) for kk, v in _live(I, o)]),
        'keys': lambda I, o, a, k: PList([kk for kk, v in _live(I, o)]),
        'values': lambda I, o, a, k: PList([v for kk, v in _live(I, o)]),
        'copy': lambda I, o, a, k: shallow(I, o),
        '__contains__': lambda I, o, a, k: I.contains(o, a[0]),
        '__getitem__': lambda I, o, a, k: I.getitem(o, a[0]),
        '__setitem__': lambda I, o, a, k: I.setitem(o, a[0], a[1])}


def _sadd(I, o, a, k):
    from .interp import hkey
    c = dict(o.box.content)
    c[hkey(a[0])] = a[0]
    o.box.content = c


def _sdiscard(I, o, a, k):
    from .interp import hkey
    c = dict(o.box.content)
    c.pop(hkey(a[0]), None)
    o.box.content = c


def _sbin(f):
    def go(I, o, a, k):
        from .interp import hkey
        other = {hkey(x): x for x in I.iterate(a[0])}
        return f(o.box.content, other)
    return go


def _supdate(I, o, a, k):
    from .interp import hkey
    c = dict(o.box.content)
    for x in a:
        for y in I.iterate(x):
            c[hkey(y)] = y
    o.box.content = c


SET = {'add': _sadd, 'discard': _sdiscard, 'remove': _sdiscard, 'update': _supdate, 'clear': _clear,
       'union': _sbin(lambda x, y: PSet({**x, **y})), 'intersection': _sbin(lambda x, y: PSet({k: v for k, v in x.items() if k in y})),
       'difference': _sbin(lambda x, y: PSet({k: v for k, v in x.items() if k not in y})),
       'issubset': _sbin(lambda x, y: set(x) <= set(y)), 'issuperset': _sbin(lambda x, y: set(x) >= set(y)),
       'copy': lambda I, o, a, k: PSet(o.box.content)}


def str_method(name):
    def go(I, o, a, k):
        a = [I.resolve(x) for x in a]
        if name == 'join':
            items = I.iterate(a[0])
            if all(isinstance(x, str) for x in items):
                return o.join(items)
            if any(not isinstance(x, (str, Unk, Gen)) for x in items):
                _raise(I, 'TypeError', 'join of non-strings')
            return Unk('joined string')
        if name == 'format':
            return Unk('formatted string')
        if any(isinstance(x, (Unk, Phi, Poly, TObj)) for x in a):
            return Unk(f'str.{name}')
        r = getattr(o, name)(*[tuple(x.items) if isinstance(x, PList) else x for x in a],
                             **{kk: I.resolve(v) for kk, v in k.items()})
        return PList(r) if isinstance(r, list) else r
    return go


def getattr_builtin(I, o, name):
    from .interp import SuperObj, NotG
    if isinstance(o, PList):
        if name in LIST:
            return meth(o, name, LIST[name])
        if name in ('__iter__',):
            return meth(o, name, lambda I, o, a, k: b_iter(I, [o], {}))
        if name == '__getitem__':
            return meth(o, name, lambda I, o, a, k: I.getitem(o, a[0]))
        return None
    if isinstance(o, PDict):
        if name in DICT:
            return meth(o, name, DICT[name])
        return None
    if isinstance(o, PSet):
        return meth(o, name, SET[name]) if name in SET else None
    if isinstance(o, str):
        if name == '__class__':
            return I.builtins['str']
        return meth(o, name, str_method(name)) if hasattr(o, name) else None
    if isinstance(o, tuple):
        if name in getattr(o, 'names', ()):
            return o[o.names.index(name)]
        if name in ('index', 'count'):
            return meth(o, name, LIST[name])
        if name == 'numel':
            return meth(o, name, lambda I, o, a, k: tnet.prod(o))
        return None
    if isinstance(o, SuperObj):
        obj = I.resolve(o.obj)
        cls = obj.cls if isinstance(obj, Inst) else obj
        mro = cls.mro
        i = mro.index(o.cls)
        for c in mro[i + 1:]:
            if name in c.box.content:
                v = c.box.content[name]
                if isinstance(v, (PFunc, Builtin)):
                    return Bound(v, obj)
                if isinstance(v, Descr):
                    if v.kind == 'property':
                        return I.call(v.f, [obj], {})
                    if v.kind == 'static':
                        return v.f
                    if v.kind == 'class':
                        return Bound(v.f, cls)
                return v
        if name == '__init__':
            dcs = [c for c in mro[i + 1:] if c.dataclass]
            if dcs:
                return meth(obj, name, lambda I, o, a, k: dataclass_init(I, o, a, k))
            return Builtin('object.__init__', lambda I, a, k: None)
        if name == '__setattr__':
            return meth(obj, name, lambda I, o, a, k: b_object_setattr(I, [o] + list(a), k))
        if name == '__new__':
            return Builtin('__new__', lambda I, a, k: Inst(a[0]))
        if name in ('__del__', '__post_init__', '__init_subclass__'):
            return None
        return None
    if isinstance(o, Tok):
        if name in o.attrs:
            v = o.attrs[name]
            return v
        if o.attrs.get('sink'):
            if name == 'isEnabledFor':
                return Builtin(name, lambda I, a, k: I.debug_logging)
            if name == 'elapsed_time':
                return Builtin(name, lambda I, a, k: Unk(f'clock{tnet.uid()}'))
            return Builtin(name, lambda I, a, k: None)
        if o.attrs.get('kind') == 'dtype':
            if name == 'is_complex':
                return 'complex' in o.name
            if name == 'is_floating_point':
                return 'float' in o.name
        return None
    if isinstance(o, ExcVal):
        if name == 'args':
            return tuple(o.args)
        if name == '__class__':
            return ExcClass(o.cls)
        return Unk(f'exception.{name}')
    if isinstance(o, (ExcClass,)):
        if name in ('__name__', '__qualname__'):
            return o.name
        return None
    if isinstance(o, Builtin):
        t = I.builtin_attrs.get(o.name)
        if t and name in t:
            return t[name]
        if name in ('__name__', '__qualname__'):
            return o.name
        if o.name == 'object':
            if name == '__setattr__':
                return Builtin('object.__setattr__', b_object_setattr)
            if name == '__getattribute__':
                return Builtin('object.__getattribute__', b_object_getattribute)
            if name == '__new__':
                return Builtin('object.__new__', lambda I, a, k: Inst(a[0]))
            if name == '__init__':
                return Builtin('object.__init__', lambda I, a, k: None)
        if o.name == 'dict' and name == 'fromkeys':
            def fk(I, a, k):
                from .interp import hkey
                return PDict({hkey(x): (x, a[1] if len(a) > 1 else None) for x in I.iterate(a[0])})
            return Builtin('dict.fromkeys', fk)
        if o.name in ('list', 'dict', 'str', 'tuple', 'set'):
            def unb(I, a, k):
                return I.call(I.getattr(a[0], name), a[1:], k)
            return Builtin(f'{o.name}.{name}', unb)
        return None
    if isinstance(o, Descr):
        if o.kind == 'property' and name in ('setter', 'getter', 'deleter'):
            def setter(I, a, k):
                return Descr('property', o.f, a[0]) if name == 'setter' else o
            return Builtin(name, setter)
        if name == '__isabstractmethod__':
            return False
        return None
    if isinstance(o, (Poly, int, float, complex)) and not isinstance(o, bool):
        if name == 'item':
            return None
        if name == 'real':
            return o.real if isinstance(o, complex) else o
        if name == 'imag':
            return o.imag if isinstance(o, complex) else 0
        if name == 'conjugate':
            return meth(o, name, lambda I, o, a, k: o.conjugate() if isinstance(o, complex) else o)
        if name == 'is_integer' and isinstance(o, float):
            return meth(o, name, lambda I, o, a, k: o.is_integer())
        return None
    if isinstance(o, (Guard, NotG)):
        if name in ('item', 'all', 'any', 'cpu'):
            return meth(o, name, lambda I, o, a, k: o)
        return None
    if isinstance(o, PRange):
        return {'start': o.lo, 'stop': o.hi, 'step': o.step}.get(name)
    if isinstance(o, slice):
        return {'start': o.start, 'stop': o.stop, 'step': o.step}.get(name)
    if isinstance(o, FieldSpec):
        return None
    return None


# -------------------------------------------------------------------- install

def mod(name, attrs, dynamic=None):
    return PModule(name, attrs, dynamic)


def fn(name, f):
    return Builtin(name, f)


def install(I):
    from .interp import EXC_TREE
    I.debug_logging = False
    I.builtin_attrs = {}
    b = {}
    for n, f in {
        'range': b_range, 'len': b_len, 'min': lambda I, a, k: _minmax(I, a, k, 'min'), 'max': lambda I, a, k: _minmax(I, a, k, 'max'),
        'abs': b_abs, 'sum': b_sum, 'enumerate': b_enumerate, 'zip': b_zip, 'sorted': b_sorted, 'reversed': b_reversed,
        'list': b_list, 'tuple': b_tuple, 'dict': b_dict, 'set': b_set, 'frozenset': b_set, 'int': b_int, 'float': b_float,
        'str': b_str, 'bool': b_bool, 'isinstance': lambda I, a, k: isinstance_(I, a[0], a[1]), 'issubclass': b_issubclass,
        'hasattr': b_hasattr, 'getattr': b_getattr, 'setattr': b_setattr, 'print': b_print, 'map': b_map, 'filter': b_filter,
        'any': b_any, 'all': b_all, 'type': b_type, 'object': lambda I, a, k: Inst(PClass('object', [], {})), 'property': b_property,
        'staticmethod': lambda I, a, k: Descr('static', a[0]), 'classmethod': lambda I, a, k: Descr('class', a[0]),
        'super': b_super, 'iter': b_iter, 'next': b_next, 'round': b_round, 'repr': b_repr, 'slice': b_slice, 'divmod': b_divmod,
        'pow': b_pow, 'callable': b_callable, 'id': b_id, 'vars': lambda I, a, k: I.getattr(a[0], '__dict__'),
        'locals': lambda I, a, k: PDict(), 'globals': lambda I, a, k: PDict(), 'hash': lambda I, a, k: Unk('hash'),
        'format': lambda I, a, k: Unk('format'), 'open': lambda I, a, k: Unk('file'), 'input': lambda I, a, k: Unk('input'),
        'chr': lambda I, a, k: chr(a[0]), 'ord': lambda I, a, k: ord(a[0]), 'dir': lambda I, a, k: Unk('dir'),
        'complex': lambda I, a, k: complex(*a) if all(isinstance(x, (int, float, complex)) for x in a) else Unk('complex'),
        'bytes': lambda I, a, k: Unk('bytes'), 'delattr': lambda I, a, k: I.delattr(a[0], a[1]),
    }.items():
        b[n] = Builtin(n, f)
    for n in EXC_TREE:
        b[n] = ExcClass(n)
    b['NotImplemented'] = Tok('NotImplemented')
    b['Ellipsis'] = Ellipsis
    b['__name__'] = '__main__'
    b['__debug__'] = True
    I.builtins = b

    ext = {}
    environ = Tok('os.environ')

    def env_get(I, a, k):
        key = I.resolve(a[0])
        v = I.env.get(key)
        return v if v is not None else (a[1] if len(a) > 1 else k.get('default'))

    class Env:
        pass
    I.environ = PDict()
    osmod = mod('os', {}, None)

    def os_dyn(n):
        if n == 'environ':
            return I.environ
        return Unk(f'os.{n}')
    osmod.dynamic = os_dyn
    osmod.box.content = {
        'environ': I.environ,
        'getenv': fn('os.getenv', lambda I, a, k: _dget(I, I.environ, a, k)),
        'cpu_count': fn('os.cpu_count', lambda I, a, k: I.cpu_count),
        'path': mod('os.path', {
            'join': fn('os.path.join', lambda I, a, k: '/'.join(a) if all(isinstance(x, str) for x in a) else Unk('path')),
            'exists': fn('os.path.exists', lambda I, a, k: (a[0] in I.fs) if isinstance(a[0], str) else Unk('exists')),
            'isfile': fn('os.path.isfile', lambda I, a, k: (a[0] in I.fs) if isinstance(a[0], str) else Unk('exists')),
            'splitext': fn('splitext', lambda I, a, k: __import__('os').path.splitext(a[0]) if isinstance(a[0], str) else Unk('path')),
        }, dynamic=lambda n: Unk(f'os.path.{n}')),
    }
    I.cpu_count = 64
    ext['os'] = osmod

    def m1(name, f, sym=None):
        def go(I, a, k):
            def h(*a):
                a = [to_dim(I, x) for x in a]
                if any(isinstance(x, Unk) for x in a):
                    return Unk(f'math.{name}')
                if all(isinstance(x, (int, float)) for x in a):
                    try:
                        return f(*a)
                    except ValueError:
                        _raise(I, 'ValueError', name)
                if sym:
                    return sym(*a)
                return poly.term('math.' + name, *[Poly.of(x) for x in a], isint=name in ('floor', 'ceil', 'isqrt', 'gcd'))
            return I.lift(h, *a)
        return fn('math.' + name, go)
    ext['math'] = mod('math', {
        'ceil': m1('ceil', _math.ceil, poly.ceil_), 'floor': m1('floor', _math.floor), 'sqrt': m1('sqrt', _math.sqrt, lambda x: poly.power(x, 0.5)),
        'isqrt': m1('isqrt', _math.isqrt), 'log': m1('log', _math.log), 'exp': m1('exp', _math.exp), 'pi': _math.pi, 'inf': _math.inf,
        'prod': fn('math.prod', lambda I, a, k: tnet.prod([to_dim(I, x) for x in I.iterate(a[0])])),
        'gcd': m1('gcd', _math.gcd), 'fabs': m1('fabs', abs), 'isclose': fn('isclose', lambda I, a, k: Unk('isclose')),
        'nan': float('nan'), 'log2': m1('log2', _math.log2), 'log10': m1('log10', _math.log10), 'cos': m1('cos', _math.cos),
        'sin': m1('sin', _math.sin), 'pow': m1('pow', _math.pow, lambda x, y: poly.power(x, y)), 'fmod': m1('fmod', _math.fmod),
        'isfinite': fn('isfinite', lambda I, a, k: Unk('isfinite')), 'isnan': fn('isnan', lambda I, a, k: Unk('isnan')),
    }, dynamic=lambda n: Unk(f'math.{n}'))

    def clock(I, a, k):
        return Unk(f'clock{tnet.uid()}')
    ext['time'] = mod('time', {n: fn('time.' + n, clock) for n in ('time', 'perf_counter', 'process_time', 'monotonic', 'time_ns', 'perf_counter_ns')},
                      dynamic=lambda n: Builtin(f'time.{n}', lambda I, a, k: None))
    ext['warnings'] = mod('warnings', {}, dynamic=lambda n: deco_or_ctx(f'warnings.{n}') if n == 'catch_warnings' else
                          Builtin(f'warnings.{n}', lambda I, a, k: None))
    log = {n: i for n, i in (('DEBUG', 10), ('INFO', 20), ('WARNING', 30), ('ERROR', 40), ('CRITICAL', 50), ('NOTSET', 0), ('WARN', 30))}
    logm = mod('logging', dict(log), dynamic=lambda n: sink(f'logging.{n}'))
    for n in ('getLogger', 'StreamHandler', 'Formatter', 'FileHandler', 'NullHandler'):
        logm.box.content = {**logm.box.content, n: fn('logging.' + n, lambda I, a, k, n=n: sink(f'logging.{n}()'))}
    for n in ('debug', 'info', 'warning', 'error', 'critical', 'basicConfig', 'exception', 'log'):
        logm.box.content = {**logm.box.content, n: fn('logging.' + n, lambda I, a, k: None)}
    ext['logging'] = logm
    ext['toml'] = mod('toml', {'dumps': fn('toml.dumps', lambda I, a, k: Unk('toml text')),
                               'load': fn('toml.load', lambda I, a, k: Unk('toml')), 'loads': fn('toml.loads', lambda I, a, k: Unk('toml')),
                               'dump': fn('toml.dump', lambda I, a, k: None)})

    def tqdm_call(I, a, k):
        if a and not isinstance(I.resolve(a[0]), str) and a[0] is not None:
            I.pbars.append(k.get('disable', False))
            return a[0]
        if 'iterable' in k:
            I.pbars.append(k.get('disable', False))
            return k['iterable']
        I.pbars.append(k.get('disable', False))
        return sink('tqdm()')
    I.pbars = []
    tq = fn('tqdm', tqdm_call)
    I.builtin_attrs['tqdm'] = {'write': fn('tqdm.write', lambda I, a, k: None), 'set_lock': fn('x', lambda I, a, k: None)}
    tqm = mod('tqdm', {'tqdm': tq, 'trange': fn('trange', lambda I, a, k: b_range(I, a, {}))})
    tqm.box.content = {**tqm.box.content, 'auto': mod('tqdm.auto', {'tqdm': tq}), 'std': mod('tqdm.std', {'tqdm': tq})}
    ext['tqdm'] = tqm

    def typ(n):
        if n == 'NamedTuple':
            return Tok('NamedTuple')
        if n == 'TYPE_CHECKING':
            return False
        if n in ('overload', 'final', 'no_type_check', 'runtime_checkable'):
            return fn(n, identity)
        if n == 'cast':
            return fn('cast', lambda I, a, k: a[1])
        if n in ('Protocol', 'Generic'):
            return Tok('typing.' + n)
        return Tok(n if n in ('Callable', 'Iterable', 'Sequence', 'Mapping') else 'typing.' + n)
    ext['typing'] = mod('typing', {}, dynamic=typ)
    ext['typing_extensions'] = ext['typing']
    ext['types'] = mod('types', {}, dynamic=lambda n: Tok('types.' + n))
    ext['numbers'] = mod('numbers', {}, dynamic=lambda n: Tok(n))
    ext['dataclasses'] = mod('dataclasses', {'dataclass': fn('dataclass', b_dataclass), 'field': fn('field', b_field),
                                             'replace': fn('replace', dc_replace), 'asdict': fn('asdict', dc_asdict),
                                             'fields': fn('fields', dc_fields), 'MISSING': Tok('MISSING'),
                                             'is_dataclass': fn('is_dataclass', lambda I, a, k: bool(getattr(getattr(I.resolve(a[0]), 'cls', I.resolve(a[0])), 'dataclass', None)))})

    def abstract(I, a, k):
        f = a[0]
        if isinstance(f, PFunc):
            I.setvar(f.attrs, '__isabstract__', True)
        return f
    abc = PClass('ABC', [], {})
    ext['abc'] = mod('abc', {'ABC': abc, 'abstractmethod': fn('abstractmethod', abstract), 'ABCMeta': Tok('ABCMeta')})

    def wraps(I, a, k):
        return fn('wraps()', lambda I, a2, k2: a2[0])

    def partial(I, a, k):
        f, pre, pk = a[0], a[1:], k
        return fn('partial', lambda I, a2, k2: I.call(f, list(pre) + list(a2), {**pk, **k2}))

    def reduce_(I, a, k):
        items = list(I.iterate(a[1]))
        if any(isinstance(x, Gen) for x in items):
            raise Incomplete('reduce over symbolic range')
        acc = a[2] if len(a) > 2 else items.pop(0)
        for x in items:
            acc = I.call(a[0], [acc, x], {})
        return acc

    def lru_cache(I, a, k):
        def wrap(f):
            cache = PDict()

            def go(I, a2, k2):
                from .interp import hkey
                key = hkey(tuple(I.resolve(x) for x in a2)) + tuple(sorted((n, hkey(I.resolve(v))) for n, v in k2.items()))
                if key in cache.d:
                    return cache.d[key][1]
                v = I.call(f, a2, k2)
                cache.box.content = {**cache.d, key: (key, v)}
                return v
            if isinstance(f, PFunc):
                g = fn('cached:' + f.qual, go)
                return g
            return fn('cached', go)
        if a and isinstance(a[0], (PFunc, Bound, Descr)):
            return wrap(a[0])
        return fn('lru_cache()', lambda I, a2, k2: wrap(a2[0]))
    ext['functools'] = mod('functools', {'wraps': fn('wraps', wraps), 'partial': fn('partial', partial), 'reduce': fn('reduce', reduce_),
                                         'lru_cache': fn('lru_cache', lru_cache), 'cache': fn('cache', lru_cache),
                                         'cached_property': fn('cached_property', lambda I, a, k: Descr('cached', a[0])),
                                         'total_ordering': fn('total_ordering', identity)}, dynamic=lambda n: Unk(f'functools.{n}'))

    def renamed(t, sym, nv):
        if isinstance(t, Poly):
            r = poly.subst(t, sym, nv)
            if r is None:
                raise Incomplete('product of symbolic lists')
            return r
        if isinstance(t, tuple) and type(t) is tuple:
            return tuple(renamed(x, sym, nv) for x in t)
        if isinstance(t, (int, float, str)) or t is None:
            return t
        raise Incomplete('product of symbolic lists')

    def it_product(I, a, k):
        lists = [I.iterate(x) for x in a]
        rep = k.get('repeat', 1)
        lists = lists * rep
        if any(isinstance(x, Gen) for l in lists for x in l):
            if all(len(l) == 1 and isinstance(l[0], Gen) for l in lists):
                tpl, loops = [], ()
                seen = set()
                for l in lists:
                    g = l[0]
                    if id(g) in seen:
                        # the same range twice: fresh symbols
                        nl, t = (), g.template
                        for var, lo, hi, st in g.loops:
                            nv = I.loop_symbol('i')
                            t = renamed(t, next(iter(var.symbols())), nv)
                            nl += ((nv, lo, hi, st),)
                        tpl.append(t)
                        loops += nl
                        continue
                    seen.add(id(g))
                    tpl.append(g.template)
                    loops += g.loops
                return PList([Gen(tuple(tpl), loops)])
            raise Incomplete('product with symbolic ranges')
        import itertools
        return PIter([tuple(t) for t in itertools.product(*lists)])

    def it_chain(I, a, k):
        return PList([y for x in a for y in I.iterate(x)])

    def it_simple(name):
        def go(I, a, k):
            import itertools
            a2 = [I.iterate(x) if isinstance(I.resolve(x), (PList, PDict, PSet, PRange, PIter, tuple)) else I.resolve(x) for x in a]
            return PIter([tuple(t) if isinstance(t, tuple) else t for t in getattr(itertools, name)(*a2, **k)])
        return fn('itertools.' + name, go)
    ch = fn('chain', it_chain)
    I.builtin_attrs['chain'] = {'from_iterable': fn('from_iterable', lambda I, a, k: PList([y for x in I.iterate(a[0]) for y in I.iterate(x)]))}

    def it_repeat(I, a, k):
        if len(a) < 2:
            raise Incomplete('itertools.repeat without a count')
        return PIter([a[0]] * a[1])
    ext['itertools'] = mod('itertools', {'product': fn('product', it_product), 'chain': ch, 'permutations': it_simple('permutations'),
                                         'combinations': it_simple('combinations'), 'accumulate': it_simple('accumulate'),
                                         'repeat': fn('repeat', it_repeat), 'islice': it_simple('islice'),
                                         'zip_longest': it_simple('zip_longest'), 'count': fn('count', lambda I, a, k: I._inc('itertools.count')),
                                         'cycle': fn('cycle', lambda I, a, k: I._inc('itertools.cycle')), 'pairwise': it_simple('pairwise')},
                           dynamic=lambda n: Unk(f'itertools.{n}'))

    def defaultdict(I, a, k):
        d = PDict()
        d.default_factory = a[0] if a else None
        if len(a) > 1:
            _dupdate(I, d, a[1:], {})
        return d

    def namedtuple(I, a, k):
        fields = I.iterate(a[1]) if not isinstance(a[1], str) else a[1].replace(',', ' ').split()
        c = PClass(a[0], [], {})
        c.annotations = list(fields)
        make_dataclass(I, c, {'frozen': True, 'namedtuple': True})
        return c
    ext['collections'] = mod('collections', {'defaultdict': fn('defaultdict', defaultdict), 'OrderedDict': fn('OrderedDict', b_dict),
                                             'namedtuple': fn('namedtuple', namedtuple), 'deque': fn('deque', b_list),
                                             'abc': mod('collections.abc', {}, dynamic=lambda n: Tok(n))},
                             dynamic=lambda n: Unk(f'collections.{n}'))
    ext['copy'] = mod('copy', {'copy': fn('copy.copy', lambda I, a, k: shallow(I, a[0])),
                               'deepcopy': fn('copy.deepcopy', lambda I, a, k: deepcopy(I, a[0]))})
    ext['builtins'] = mod('builtins', b)
    ext['enum'] = mod('enum', {'Enum': Tok('enum'), 'IntEnum': Tok('enum'), 'StrEnum': Tok('enum'), 'auto': fn('auto', lambda I, a, k: tnet.uid())})
    ext['contextlib'] = mod('contextlib', {'nullcontext': deco_or_ctx('nullcontext'), 'suppress': fn('suppress', lambda I, a, k: I._inc('contextlib.suppress')),
                                           'contextmanager': fn('contextmanager', lambda I, a, k: I._inc('contextlib.contextmanager'))},
                            dynamic=lambda n: Unk(f'contextlib.{n}'))

    def opf(name, n):
        import ast
        return fn(f'operator.{name}', lambda I, a, k: I.lift(lambda x, y: I.binop(getattr(ast, n)(), x, y), a[0], a[1]))

    def itemgetter(I, a, k):
        return fn('itemgetter()', lambda I, a2, k2: I.getitem(a2[0], a[0]) if len(a) == 1 else tuple(I.getitem(a2[0], x) for x in a))

    def attrgetter(I, a, k):
        return fn('attrgetter()', lambda I, a2, k2: I.getattr(a2[0], a[0]))
    ext['operator'] = mod('operator', {'mul': opf('mul', 'Mult'), 'add': opf('add', 'Add'), 'matmul': opf('matmul', 'MatMult'), 'sub': opf('sub', 'Sub'),
                                       'mod': opf('mod', 'Mod'), 'itemgetter': fn('itemgetter', itemgetter), 'attrgetter': fn('attrgetter', attrgetter)},
                          dynamic=lambda n: Unk(f'operator.{n}'))
    ext['sys'] = mod('sys', {'stdout': sink('stdout'), 'stderr': sink('stderr'), 'platform': 'linux', 'argv': PList(['x'])}, dynamic=lambda n: Unk(f'sys.{n}'))
    ext['pathlib'] = mod('pathlib', {}, dynamic=lambda n: Unk(f'pathlib.{n}'))
    ext['string'] = mod('string', {'ascii_lowercase': 'abcdefghijklmnopqrstuvwxyz', 'ascii_uppercase': 'ABCDEFGHIJKLMNOPQRSTUVWXYZ',
                                   'ascii_letters': 'abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ'})
    ext['random'] = mod('random', {}, dynamic=lambda n: Builtin(f'random.{n}', lambda I, a, k: Unk(f'random{tnet.uid()}')))
    ext['gc'] = mod('gc', {}, dynamic=lambda n: Builtin(f'gc.{n}', lambda I, a, k: None))
    ext['traceback'] = mod('traceback', {}, dynamic=lambda n: Builtin(f'traceback.{n}', lambda I, a, k: Unk('traceback')))
    I.ext = ext


def set_env(I, env):
    I.environ.box.content = {k: (k, v) for k, v in env.items()}
