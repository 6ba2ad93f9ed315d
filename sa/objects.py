"""Abstract heap objects of the interpreter (copy-on-write boxes)."""
import weakref
from itertools import count
from . import tnet
from .tnet import Guard

_oid = count(1)


class Registry:
    """the live heap cells of the program under analysis (of the current process, in a lock-step analysis)"""
    def __init__(self):
        self.cur = weakref.WeakValueDictionary()

    def __setitem__(self, k, v):
        self.cur[k] = v

    def items(self):
        return self.cur.items()

    def pop(self, k, d=None):
        return self.cur.pop(k, d)


REG = Registry()


class Box:
    """A mutable heap cell; content is never mutated in place, only replaced."""
    __slots__ = ('content', 'id', '__weakref__', 'tag')

    def __init__(self, content, tag=None):
        self.content = content
        self.id = next(_oid)
        self.tag = tag
        REG[self.id] = self


class ViewBox:
    """the attribute dictionary of an instance or class, as a dictionary that writes through"""
    __slots__ = ('of', 'tag')

    def __init__(self, of):
        self.of = of
        self.tag = 'dict'

    @property
    def id(self):
        return self.of.id

    @property
    def content(self):
        return {k: (k, v) for k, v in self.of.content.items()}

    @content.setter
    def content(self, c):
        self.of.content = {k: v for k, v in c.values()}


def attr_dict(o):
    d = PDict()
    REG.pop(d.box.id, None)
    d.box = ViewBox(o.box)
    return d


class Phi:
    __slots__ = ('guard', 'a', 'b')

    def __init__(self, guard, a, b):
        self.guard, self.a, self.b = guard, a, b

    def __repr__(self):
        return f'Phi({self.guard}: {self.a!r} / {self.b!r})'


class Unk:
    """an unknown value"""
    __slots__ = ('why',)

    def __init__(self, why):
        self.why = why

    def __repr__(self):
        return f'<unknown: {self.why}>'


class Undef:
    def __repr__(self):
        return '<undefined>'


UNDEF = Undef()


class Tok:
    """an opaque named constant (dtype, device, enum-like)"""
    __slots__ = ('name', 'attrs')

    def __init__(self, name, **attrs):
        self.name = name
        self.attrs = attrs

    def __repr__(self):
        return self.name

    def __eq__(self, o):
        return isinstance(o, Tok) and o.name == self.name

    def __hash__(self):
        return hash(('tok', self.name))


class PList:
    __slots__ = ('box', '__weakref__')

    def __init__(self, items):
        self.box = Box(list(items), 'list')

    @property
    def items(self):
        return self.box.content

    def __repr__(self):
        return f'PList({self.items!r})'


class Gen:
    """items of a list produced once per value of a symbolic loop variable"""
    __slots__ = ('template', 'loops')

    def __init__(self, template, loops):
        self.template, self.loops = template, loops     # loops: tuple of (var Poly, lo, n, step)

    def __repr__(self):
        return f'Gen({self.template!r} for {self.loops!r})'


class PSet:
    __slots__ = ('box', '__weakref__')

    def __init__(self, d):
        self.box = Box(dict(d), 'set')


class PDict:
    __slots__ = ('box', '__weakref__', 'default_factory')

    def __init__(self, d=None):
        self.box = Box(dict(d or {}), 'dict')
        self.default_factory = None

    @property
    def d(self):
        return self.box.content

    def __repr__(self):
        return 'PDict(' + ', '.join(f'{k!r}: {v!r}' for k, v in self.box.content.values()) + ')'


class PModule:
    def __init__(self, name, attrs=None, dynamic=None):
        self.name = name
        self.box = Box(dict(attrs or {}), 'module')
        self.dynamic = dynamic

    def __repr__(self):
        return f'<module {self.name}>'


class PClass:
    def __init__(self, name, bases, attrs, module=None, qual=None):
        self.name = name
        self.bases = bases
        self.box = Box(attrs, 'class')
        self.module = module
        self.qual = qual or name
        self.mro = self._mro()
        self.dataclass = None
        self.node = None

    def _mro(self):
        seqs = [list(b.mro) for b in self.bases if isinstance(b, PClass)] + \
            [[b for b in self.bases if isinstance(b, PClass)]]
        res = [self]
        seqs = [s for s in seqs if s]
        while seqs:
            for s in seqs:
                c = s[0]
                if not any(c in t[1:] for t in seqs):
                    break
            else:
                c = seqs[0][0]
            res.append(c)
            seqs = [[x for x in s if x is not c] for s in seqs]
            seqs = [s for s in seqs if s]
        return res

    def lookup(self, name):
        for c in self.mro:
            if name in c.box.content:
                return c.box.content[name]
        return None

    def isub(self, other):
        return other in self.mro

    def __repr__(self):
        return f'<class {self.name}>'


class Inst:
    __slots__ = ('cls', 'box', '__weakref__', 'id')

    def __init__(self, cls, attrs=None):
        self.cls = cls
        self.box = Box(dict(attrs or {}), 'inst')
        self.id = self.box.id

    def __repr__(self):
        return f'<{self.cls.name} #{self.id}>'


class PFunc:
    def __init__(self, name, node, frame, module, qual, defaults, kwdefaults):
        self.name, self.node, self.frame, self.module, self.qual = name, node, frame, module, qual
        self.defaults, self.kwdefaults = defaults, kwdefaults
        self.isgen = None
        self.attrs = Box({}, 'func')
        self.owner = None

    def __repr__(self):
        return f'<function {self.qual}>'


class Bound:
    __slots__ = ('func', 'self')

    def __init__(self, func, self_):
        self.func, self.self = func, self_

    def __repr__(self):
        return f'<bound {self.func!r} of {self.self!r}>'


class Builtin:
    __slots__ = ('name', 'fn')

    def __init__(self, name, fn):
        self.name, self.fn = name, fn

    def __repr__(self):
        return f'<builtin {self.name}>'


class Descr:
    """property / staticmethod / classmethod wrappers"""
    __slots__ = ('kind', 'f', 'setter')

    def __init__(self, kind, f, setter=None):
        self.kind, self.f, self.setter = kind, f, setter


class PRange:
    __slots__ = ('lo', 'hi', 'step')

    def __init__(self, lo, hi, step):
        self.lo, self.hi, self.step = lo, hi, step

    def __repr__(self):
        return f'range({self.lo}, {self.hi}, {self.step})'


class PIter:
    """an iterator over a concrete list of items"""
    __slots__ = ('box',)

    def __init__(self, items):
        self.box = Box((list(items), 0), 'iter')


class ExcVal:
    """an exception instance raised by modelled library code or builtin exception classes"""
    __slots__ = ('cls', 'args')

    def __init__(self, cls, args=()):
        self.cls, self.args = cls, args

    def __repr__(self):
        return f'{self.cls}{self.args!r}'


class ExcClass:
    __slots__ = ('name', 'bases')

    def __init__(self, name, bases=('Exception',)):
        self.name, self.bases = name, bases

    def __repr__(self):
        return f'<exc {self.name}>'


class Store:
    """content of a tensor storage"""
    __slots__ = ('v',)

    def __init__(self, v):
        self.v = v


class View:
    __slots__ = ('base', 'get', 'put', 'may')

    def __init__(self, base, get, put, may):
        self.base, self.get, self.put, self.may = base, get, put, may

    @property
    def shape(self):
        raise AttributeError


OPAQUE = [False]        # every computed tensor is an unknown of its shape (for properties that do not depend on values)


def opaque(v):
    if OPAQUE[0] and (isinstance(v, tnet.TV) and (len(v.terms) > 1 or any(len(n.atoms) > 1 for _, n in v.terms)) or isinstance(v, tnet.PhiV)):
        return tnet.atom_tv(('unknown', tnet.uid()), v.shape)
    return v


class TObj:
    """A tensor object.  box.content is a value (own storage) or a View of another TObj."""
    __slots__ = ('box', 'dtype', 'device', '_cache', '__weakref__', 'meta', 'lay')

    def __init__(self, v=None, dtype=None, device=None, base=None, get=None, put=None, may=None, meta=None):
        self.box = Box(opaque(v) if base is None else View(base, get, put, may), 'tensor')
        self.dtype, self.device = dtype, device
        self._cache = None
        self.meta = meta
        self.lay = None          # memory layout: 'c' contiguous, 'n' permuted, None unknown

    def root(self):
        t = self
        while isinstance(t.box.content, View):
            t = t.box.content.base
        return t.box

    def storages(self):
        """boxes this tensor certainly (first) or possibly shares memory with"""
        t = self
        res = [t.box]
        while isinstance(t.box.content, View):
            t = t.box.content.base
            res.append(t.box)
        return res

    @property
    def v(self):
        c = self.box.content
        if not isinstance(c, View):
            return c
        r = self.root().content
        k = self._cache
        if k is not None and k[0] is r and k[1] is tnet.ASSUME[0] and k[2] is c:
            return k[3]
        v = c.get(c.base.v)
        self._cache = (r, tnet.ASSUME[0], c, v)
        return v

    @property
    def shape(self):
        return tuple(self.v.shape)

    def write(self, v):
        c = self.box.content
        if not isinstance(c, View):
            self.box.content = opaque(v)
            return
        old = c.base.v
        new = c.put(old, v)
        if c.may is not None:
            # reshape/contiguous/to may or may not share storage with the base
            c.base.write(tnet.mkphi(c.may, new, old))
            self.box.content = v
            return
        c.base.write(new)

    def __repr__(self):
        return f'<tensor {self.v!r}>'
