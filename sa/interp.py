"""Abstract interpreter for the Python source of /repo/acetn.

Deterministic parts are evaluated by constant propagation; a branch whose
condition is not known is evaluated on both sides and the two abstract states are
joined with gated values; loops over symbolic ranges are analysed once for a
generic iteration.  No code of the repository is imported or executed."""
import ast
import os
import sys
from . import poly, tnet
from .poly import Poly
from .tnet import Guard, Incomplete, DimError, ASSUME
from .objects import *

sys.setrecursionlimit(20000)


class PyRaise(Exception):
    def __init__(self, val):
        self.val = val

    def __str__(self):
        return f'PyRaise({self.val!r})'


class Exit:
    __slots__ = ('kind', 'val', 'state', 'assume', 'node')

    def __init__(self, kind, val, state=None, assume=None, node=None):
        self.kind, self.val, self.state, self.assume, self.node = kind, val, state, assume, node

    def __repr__(self):
        return f'Exit({self.kind},{self.val!r})'


class Frame:
    __slots__ = ('vars', 'parent', 'module', 'globals_decl', 'nonlocals', 'func', 'yields', 'isclass', '__weakref__', 'cls')

    def __init__(self, module, parent=None, func=None, isclass=False):
        self.vars = Box({}, 'frame')
        self.parent, self.module, self.func, self.isclass = parent, module, func, isclass
        self.globals_decl, self.nonlocals = (), ()
        self.yields = None
        self.cls = None


class State:
    __slots__ = ('boxes', 'assume')


def hkey(v):
    """hashable key of a dictionary key / set element"""
    if isinstance(v, Phi):
        raise Incomplete('gated dictionary key')
    if isinstance(v, Unk):
        raise Incomplete(f'unknown dictionary key ({v.why})')
    if isinstance(v, tuple):
        return ('t',) + tuple(hkey(x) for x in v)
    if isinstance(v, bool):
        return int(v)
    if isinstance(v, (int, str, float, bytes, type(None))):
        return v
    if isinstance(v, Inst):
        if v.cls.dataclass and v.cls.dataclass.get('eq', True) and v.cls.dataclass.get('frozen'):
            return ('dc', id(v.cls)) + tuple(hkey(v.box.content.get(f)) for f in v.cls.dataclass['fields'])
        h = v.cls.lookup('__hash__')
        if isinstance(h, PFunc):
            raise Incomplete('user defined __hash__')
        return ('id', v.id)
    if isinstance(v, (Tok, Poly)):
        return v
    if isinstance(v, (PFunc, PClass, Builtin, PModule, TObj, Bound)):
        return ('id', id(v), v) if isinstance(v, Bound) else ('oid', id(v))
    if isinstance(v, (PList, PDict, PSet)):
        raise PyRaise(ExcVal('TypeError', ('unhashable',)))
    raise Incomplete(f'dictionary key {v!r}')


EXC_TREE = {
    'BaseException': None, 'Exception': 'BaseException', 'KeyboardInterrupt': 'BaseException', 'SystemExit': 'BaseException',
    'ArithmeticError': 'Exception', 'ZeroDivisionError': 'ArithmeticError', 'OverflowError': 'ArithmeticError',
    'AssertionError': 'Exception', 'AttributeError': 'Exception', 'ImportError': 'Exception',
    'ModuleNotFoundError': 'ImportError', 'LookupError': 'Exception', 'IndexError': 'LookupError', 'KeyError': 'LookupError',
    'NameError': 'Exception', 'UnboundLocalError': 'NameError', 'OSError': 'Exception', 'FileNotFoundError': 'OSError',
    'RuntimeError': 'Exception', 'NotImplementedError': 'RuntimeError', 'RecursionError': 'RuntimeError',
    'StopIteration': 'Exception', 'TypeError': 'Exception', 'ValueError': 'Exception', 'UnicodeError': 'ValueError',
    'Warning': 'Exception', 'UserWarning': 'Warning', 'RuntimeWarning': 'Warning', 'FutureWarning': 'Warning',
    'DeprecationWarning': 'Warning', 'LinAlgError': 'RuntimeError', 'PermissionError': 'OSError',
    'EnvironmentError': 'OSError', 'TimeoutError': 'OSError', 'EOFError': 'Exception',
}


def exc_isa(name, target):
    while name:
        if name == target:
            return True
        name = EXC_TREE.get(name)
    return False


class Interp:
    def __init__(self, root, package='acetn'):
        self.root, self.package = root, package
        self.modules = {}
        self.sources = {}
        self.trees = {}
        self.assume = {}
        self.pending = []
        self.try_depth = 0
        self.hooks = {}              # PFunc -> handler(I, func, args, kwargs, proceed)
        self.events = []
        self.unmodelled = {}
        self.calls = {}              # qualname -> count   (coverage for the evidence)
        self.branches = 0
        self.joins = 0
        self.generic_loops = 0
        self.depth = 0
        self.forking = 0             # undecided branches being analysed
        self.loopstack = []
        self.nguard = 0
        self.env = {}                # os.environ model
        self.fs = {}                 # file system model
        self.where = []
        self.max_unroll = 20000
        self.stdout = []
        from . import torchlib, pylib
        self.pylib = pylib
        self.torchlib = torchlib
        pylib.install(self)
        torchlib.install(self)

    # ------------------------------------------------------------------ state
    @property
    def assume(self):
        return ASSUME[0]

    @assume.setter
    def assume(self, v):
        ASSUME[0] = v

    def snap(self):
        s = State()
        s.boxes = {i: (b, b.content) for i, b in list(REG.items())}
        s.assume = self.assume
        return s

    def restore(self, s):
        for b, c in s.boxes.values():
            b.content = c
        self.assume = s.assume

    def merge(self, g, sa, sb):
        """live state := gated join of two states (a when g)"""
        self.joins += 1
        keys = set(sa.boxes) | set(sb.boxes)
        for i in keys:
            a = sa.boxes.get(i)
            b = sb.boxes.get(i)
            if a is None:
                b[0].content = b[1]
            elif b is None:
                a[0].content = a[1]
            elif a[1] is b[1]:
                a[0].content = a[1]
            else:
                a[0].content = self.merge_content(g, a[0], a[1], b[1])
        self.assume = {k: v for k, v in sa.assume.items() if k in sb.assume and sb.assume[k] == v}

    def merge_content(self, g, box, a, b):
        tag = box.tag
        if tag in ('frame', 'inst', 'class', 'module', 'func'):
            r = {}
            for k in list(a) + [k for k in b if k not in a]:
                r[k] = self.phi(g, a.get(k, UNDEF), b.get(k, UNDEF))
            return r
        if tag == 'dict':
            r = {}
            for k in list(a) + [k for k in b if k not in a]:
                x, y = a.get(k), b.get(k)
                kk = (x or y)[0]
                r[k] = (kk, self.phi(g, x[1] if x else UNDEF, y[1] if y else UNDEF))
            return r
        if tag == 'list':
            if len(a) == len(b):
                return [self.phi(g, x, y) for x, y in zip(a, b)]
            return [Phi(g, ('__list__', tuple(a)), ('__list__', tuple(b)))] if False else self._list_phi(g, a, b)
        if tag == 'tensor':
            if isinstance(a, View) or isinstance(b, View):
                if isinstance(a, View) and isinstance(b, View) and a.base is b.base:
                    return a
                va = a.get(a.base.v) if isinstance(a, View) else a
                vb = b.get(b.base.v) if isinstance(b, View) else b
                return tnet.mkphi(g, va, vb)
            return tnet.mkphi(g, a, b)
        if tag == 'set':
            if a == b:
                return a
            raise Incomplete('join of different sets')
        if tag == 'iter':
            if a == b:
                return a
            raise Incomplete('join of different iterators')
        if a == b:
            return a
        raise Incomplete(f'join of {tag}')

    def _list_phi(self, g, a, b):
        raise Incomplete(f'join of lists of different length ({len(a)} and {len(b)})')

    def phi(self, g, a, b):
        if a is b:
            return a
        if a is UNDEF and b is UNDEF:
            return a
        if isinstance(a, Unk) and isinstance(b, Unk):
            return a
        if isinstance(a, (int, str, float, bool, type(None), Poly, Tok)) and type(a) == type(b) and a == b:
            return a
        if isinstance(a, tuple) and isinstance(b, tuple) and len(a) == len(b):
            return tuple(self.phi(g, x, y) for x, y in zip(a, b))
        if isinstance(a, TObj) and isinstance(b, TObj) and a.box is b.box:
            return a
        if isinstance(a, Bound) and isinstance(b, Bound) and a.func is b.func and a.self is b.self:
            return a
        if isinstance(a, (PList, PDict, PSet)) and type(a) == type(b) and a.box is b.box:
            return a
        if isinstance(a, PList) and isinstance(b, PList) and len(a.items) == len(b.items) and \
                all(self._same_shallow(x, y) for x, y in zip(a.items, b.items)):
            return a
        return Phi(g, a, b)

    def _same_shallow(self, x, y):
        return x is y or (isinstance(x, (int, str, float, Poly, tuple, type(None))) and type(x) == type(y) and x == y)

    def resolve(self, v):
        while isinstance(v, Phi) and v.guard in self.assume:
            v = v.a if self.assume[v.guard] else v.b
        return v

    def fresh_guard(self, why):
        self.nguard += 1
        return Guard(('g', why, self.nguard))

    def fork(self, g, fa, fb):
        """expression level fork; returns the joined value"""
        r = self.known(g)
        if r is not g:
            return fa() if r else fb()
        self.forking += 1
        try:
            return self._fork(g, fa, fb)
        finally:
            self.forking -= 1

    def _fork(self, g, fa, fb):
        self.branches += 1
        base = self.snap()
        res = []
        for val, f in ((True, fa), (False, fb)):
            self.restore(base)
            self.assume = {**base.assume, g: val}
            try:
                r = f()
                res.append((r, self.snap()))
            except PyRaise as e:
                self.pending.append(Exit('raise', e.val, self.snap(), self.assume))
                res.append(None)
        a, b = res
        if a is None and b is None:
            # both raise: propagate the first as definite, keep the second pending
            ex = self.pending.pop()
            self.restore(ex.state)
            raise PyRaise(ex.val)
        if a is None or b is None:
            r, s = a or b
            self.restore(s)
            return r
        self.merge(g, a[1], b[1])
        return self.phi(g, a[0], b[0])

    def lift(self, f, *args):
        """apply f to arguments, distributing over gated values"""
        args = [self.resolve(a) for a in args]
        for i, a in enumerate(args):
            if isinstance(a, Phi):
                return self.fork(a.guard,
                                 lambda: self.lift(f, *args[:i], a.a, *args[i + 1:]),
                                 lambda: self.lift(f, *args[:i], a.b, *args[i + 1:]))
            if a is UNDEF:
                raise PyRaise(ExcVal('UnboundLocalError', ()))
        return f(*args)

    # ---------------------------------------------------------------- modules
    def load(self, name):
        """import module `name` of the package under analysis (or a modelled library)"""
        if name in self.modules:
            return self.modules[name]
        top = name.split('.')[0]
        if top != self.package:
            return self.external(name)
        path = os.path.join(self.root, *name.split('.'))
        if os.path.isdir(path):
            path = os.path.join(path, '__init__.py')
            ispkg = True
        else:
            path += '.py'
            ispkg = False
        if not os.path.exists(path):
            raise PyRaise(ExcVal('ModuleNotFoundError', (name,)))
        if '.' in name:
            parent = self.load(name.rsplit('.', 1)[0])
        else:
            parent = None
        if name in self.modules:
            return self.modules[name]
        src = open(path, encoding='utf-8').read()
        tree = ast.parse(src, path)
        self.sources[name] = path
        self.trees[name] = tree
        m = PModule(name, {'__name__': name, '__file__': path})
        m.ispkg = ispkg
        self.modules[name] = m
        fr = Frame(m)
        fr.vars = m.box
        normal, exits = self.exec_block(tree.body, fr)
        for e in exits:
            if e.kind == 'raise' and e.state is None:
                raise PyRaise(e.val)
        if parent is not None:
            self.setvar(parent.box, name.rsplit('.', 1)[1], m)
        return m

    def external(self, name):
        m = self.modules.get(name)
        if m is not None:
            return m
        if name in self.blocked:
            raise PyRaise(ExcVal('ModuleNotFoundError', (name,)))
        parts = name.split('.')
        m = self.ext.get(parts[0])
        if m is None:
            m = PModule(parts[0], {}, dynamic=lambda n, p=parts[0]: Unk(f'{p}.{n}'))
            self.ext[parts[0]] = m
        cur = m
        for p in parts[1:]:
            nxt = self.getattr(cur, p)
            if not isinstance(nxt, PModule):
                nxt = PModule(f'{cur.name}.{p}', {}, dynamic=lambda n, q=f'{cur.name}.{p}': Unk(f'{q}.{n}'))
                self.setvar(cur.box, p, nxt)
            cur = nxt
        return cur

    blocked = set()

    def setvar(self, box, name, val):
        c = dict(box.content)
        c[name] = val
        box.content = c

    # -------------------------------------------------------------- statements
    def exec_block(self, stmts, fr):
        """returns (normal: live state falls through, exits)"""
        exits = []
        for st in stmts:
            normal, ex = self.exec_stmt(st, fr)
            exits.extend(ex)
            if not normal:
                return False, exits
        return True, exits

    def take_pending(self):
        p, self.pending = self.pending, []
        return p

    def exec_stmt(self, st, fr):
        saved, self.pending = self.pending, []
        self.where.append((fr.module.name if fr.module else '?', getattr(st, 'lineno', 0)))
        try:
            try:
                normal, exits = self._exec(st, fr)
            except PyRaise as e:
                normal, exits = False, [Exit('raise', e.val, None, None, (fr.module.name, st.lineno))]
                # if pending exits exist the live state must be captured
            except (Incomplete, DimError) as e:
                if not hasattr(e, 'where'):
                    e.where = list(self.where)
                raise
            p = self.take_pending()
            if p and not normal:
                for x in exits:
                    if x.state is None:
                        x.state, x.assume = self.snap(), self.assume
            return normal, p + exits
        finally:
            self.where.pop()
            self.pending = saved

    def _exec(self, st, fr):
        m = getattr(self, 'x_' + type(st).__name__, None)
        if m is None:
            raise Incomplete(f'statement {type(st).__name__}')
        r = m(st, fr)
        return r if r is not None else (True, [])

    def x_Expr(self, st, fr):
        self.eval(st.value, fr)

    def x_Pass(self, st, fr):
        pass

    def x_Global(self, st, fr):
        fr.globals_decl = tuple(fr.globals_decl) + tuple(st.names)

    def x_Nonlocal(self, st, fr):
        fr.nonlocals = tuple(fr.nonlocals) + tuple(st.names)

    def x_Import(self, st, fr):
        for a in st.names:
            m = self.load(a.name)
            if a.asname:
                self.store_name(a.asname, m, fr)
            else:
                top = a.name.split('.')[0]
                self.store_name(top, self.modules.get(top) or self.external(top), fr)

    def resolve_from(self, st, fr):
        if st.level:
            base = fr.module.name
            parts = base.split('.')
            if not getattr(fr.module, 'ispkg', False):
                parts = parts[:-1]
            if st.level > 1:
                parts = parts[:-(st.level - 1)]
            name = '.'.join(parts + ([st.module] if st.module else []))
        else:
            name = st.module
        return name

    def x_ImportFrom(self, st, fr):
        name = self.resolve_from(st, fr)
        if name == '__future__':
            return
        m = self.load(name)
        for a in st.names:
            if a.name == '*':
                allv = m.box.content.get('__all__')
                names = [x for x in allv.items] if isinstance(allv, PList) else \
                    [k for k in m.box.content if not k.startswith('_')]
                for n in names:
                    self.store_name(n, self.getattr(m, n), fr)
                continue
            try:
                v = self.getattr(m, a.name)
            except PyRaise:
                if m.name.split('.')[0] == self.package:
                    try:
                        v = self.load(m.name + '.' + a.name)
                    except PyRaise:
                        raise PyRaise(ExcVal('ImportError', (a.name,)))
                else:
                    raise
            self.store_name(a.asname or a.name, v, fr)

    def x_FunctionDef(self, st, fr):
        f = self.make_func(st, fr, st.name)
        v = f
        for d in reversed(st.decorator_list):
            dec = self.eval(d, fr)
            v = self.call(dec, [v], {})
        self.store_name(st.name, v, fr)

    x_AsyncFunctionDef = None

    def make_func(self, st, fr, name):
        a = st.args
        defaults = [self.eval(d, fr) for d in a.defaults]
        kwd = {k.arg: self.eval(d, fr) for k, d in zip(a.kwonlyargs, a.kw_defaults) if d is not None}
        q = fr.module.name + '.' + ((fr.cls + '.') if fr.isclass and fr.cls else '') + name
        parent = fr
        while parent is not None and parent.isclass:
            parent = parent.parent
        f = PFunc(name, st, parent, fr.module, q, defaults, kwd)
        return f

    def x_ClassDef(self, st, fr):
        bases = [self.eval(b, fr) for b in st.bases]
        cf = Frame(fr.module, fr, isclass=True)
        cf.cls = st.name
        self.setvar(cf.vars, '__qualname__', st.name)
        normal, exits = self.exec_block(st.body, cf)
        for e in exits:
            if e.kind == 'raise':
                raise PyRaise(e.val)
        attrs = dict(cf.vars.content)
        exc = [b for b in bases if isinstance(b, ExcClass)]
        if exc:
            EXC_TREE[st.name] = exc[0].name
        bases2 = [b for b in bases if isinstance(b, PClass)]
        ann = [s.target.id for s in st.body if isinstance(s, ast.AnnAssign) and isinstance(s.target, ast.Name)]
        c = PClass(st.name, bases2, attrs, fr.module, fr.module.name + '.' + st.name)
        c.node = st
        c.annotations = ann
        c.excbase = exc[0].name if exc else next((b.excbase for b in bases2 if getattr(b, 'excbase', None)), None)
        c.enum = any(isinstance(b, Tok) and b.name == 'enum' for b in bases)
        for k, v in attrs.items():
            if isinstance(v, PFunc) and v.owner is None:
                v.owner = c
            if isinstance(v, Descr) and isinstance(v.f, PFunc) and v.f.owner is None:
                v.f.owner = c
        v = c
        if any(isinstance(b, Tok) and b.name == 'NamedTuple' for b in bases):
            self.pylib.make_dataclass(self, c, {'frozen': True, 'namedtuple': True})
        if c.enum:
            for k, x in list(attrs.items()):
                if not k.startswith('_') and not isinstance(x, (PFunc, Descr)):
                    i = Inst(c, {'name': k, 'value': x, '_name_': k, '_value_': x})
                    self.setvar(c.box, k, i)
        for d in reversed(st.decorator_list):
            dec = self.eval(d, fr)
            v = self.call(dec, [v], {})
        self.store_name(st.name, v, fr)

    def x_Return(self, st, fr):
        v = self.eval(st.value, fr) if st.value is not None else None
        return False, [Exit('return', v, None, None, st.lineno)]

    def x_Break(self, st, fr):
        return False, [Exit('break', None)]

    def x_Continue(self, st, fr):
        return False, [Exit('continue', None)]

    def x_Delete(self, st, fr):
        for t in st.targets:
            if isinstance(t, ast.Name):
                c = dict(fr.vars.content)
                c.pop(t.id, None)
                fr.vars.content = c
            elif isinstance(t, ast.Subscript):
                o = self.eval(t.value, fr)
                k = self.eval(t.slice, fr)
                self.delitem(o, k)
            elif isinstance(t, ast.Attribute):
                o = self.eval(t.value, fr)
                if isinstance(o, Inst):
                    c = dict(o.box.content)
                    if t.attr not in c:
                        raise PyRaise(ExcVal('AttributeError', (t.attr,)))
                    c.pop(t.attr)
                    o.box.content = c
                else:
                    raise Incomplete('del attribute')
            else:
                raise Incomplete('del')

    def delitem(self, o, k):
        o = self.resolve(o)
        if isinstance(o, PDict):
            c = dict(o.d)
            if hkey(k) not in c:
                raise PyRaise(ExcVal('KeyError', (k,)))
            c.pop(hkey(k))
            o.box.content = c
        elif isinstance(o, PList):
            if isinstance(k, int):
                c = list(o.items)
                del c[k]
                o.box.content = c
            elif isinstance(k, slice):
                c = list(o.items)
                del c[k]
                o.box.content = c
            else:
                raise Incomplete('del item')
        elif isinstance(o, Inst):
            self.call_method(o, '__delitem__', [k])
        else:
            raise Incomplete('del item')

    def x_Raise(self, st, fr):
        if st.exc is None:
            cur = fr.vars.content.get('__exc__')
            raise PyRaise(cur if cur is not None else ExcVal('RuntimeError', ()))
        e = self.resolve(self.eval(st.exc, fr))
        raise PyRaise(self.as_exc(e))

    def as_exc(self, e):
        if isinstance(e, ExcClass):
            return ExcVal(e.name, ())
        if isinstance(e, ExcVal):
            return e
        if isinstance(e, PClass) and getattr(e, 'excbase', None):
            return ExcVal(e.name, ())
        if isinstance(e, Inst):
            return ExcVal(e.cls.name, (e,))
        return ExcVal('Exception', (e,))

    def x_Assert(self, st, fr):
        c = self.truth(self.eval(st.test, fr))
        if c is False:
            raise PyRaise(ExcVal('AssertionError', ()))
        if isinstance(c, Guard):
            self.assume = {**self.assume, c: True}

    def x_Assign(self, st, fr):
        v = self.eval(st.value, fr)
        for t in st.targets:
            self.assign(t, v, fr)

    def x_AnnAssign(self, st, fr):
        if st.value is not None:
            self.assign(st.target, self.eval(st.value, fr), fr)

    def x_AugAssign(self, st, fr):
        t = st.target
        if isinstance(t, ast.Name):
            cur = self.load_name(t.id, fr)
            v = self.eval(st.value, fr)
            self.store_name(t.id, self.lift(lambda c, w: self.inplace(st.op, c, w), cur, v), fr)
        elif isinstance(t, ast.Attribute):
            o = self.eval(t.value, fr)
            v0 = self.getattr(o, t.attr)
            v = self.eval(st.value, fr)
            self.setattr(o, t.attr, self.lift(lambda c, w: self.inplace(st.op, c, w), v0, v))
        elif isinstance(t, ast.Subscript):
            o = self.eval(t.value, fr)
            k = self.eval_index(t.slice, fr)
            cur = self.getitem(o, k)
            v = self.eval(st.value, fr)
            new = self.lift(lambda c, w: self.inplace(st.op, c, w), cur, v)
            self.setitem(o, k, new)
        else:
            raise Incomplete('augmented assignment target')

    def inplace(self, op, cur, v):
        if isinstance(cur, TObj):
            return self.torchlib.inplace_op(self, op, cur, v)
        if isinstance(cur, PList) and isinstance(op, ast.Add):
            c = list(cur.items) + self.iterate(v)
            cur.box.content = c
            return cur
        if isinstance(cur, Inst):
            n = {'Add': '__iadd__', 'Sub': '__isub__', 'Mult': '__imul__', 'Div': '__itruediv__',
                 'MatMult': '__imatmul__'}.get(type(op).__name__)
            if n and cur.cls.lookup(n) is not None:
                return self.call_method(cur, n, [v])
        if isinstance(cur, PDict) and isinstance(op, ast.BitOr):
            c = dict(cur.d)
            c.update(v.d)
            cur.box.content = c
            return cur
        return self.binop(op, cur, v)

    def assign(self, t, v, fr):
        if isinstance(t, ast.Name):
            self.store_name(t.id, v, fr)
        elif isinstance(t, ast.Attribute):
            self.setattr(self.eval(t.value, fr), t.attr, v)
        elif isinstance(t, ast.Subscript):
            o = self.eval(t.value, fr)
            k = self.eval_index(t.slice, fr)
            self.setitem(o, k, v)
        elif isinstance(t, (ast.Tuple, ast.List)):
            items = self.unpack(v, len(t.elts), any(isinstance(e, ast.Starred) for e in t.elts))
            star = next((i for i, e in enumerate(t.elts) if isinstance(e, ast.Starred)), None)
            if star is None:
                if len(items) != len(t.elts):
                    raise PyRaise(ExcVal('ValueError', ('unpack',)))
                for e, x in zip(t.elts, items):
                    self.assign(e, x, fr)
            else:
                after = len(t.elts) - star - 1
                if len(items) < len(t.elts) - 1:
                    raise PyRaise(ExcVal('ValueError', ('unpack',)))
                for e, x in zip(t.elts[:star], items[:star]):
                    self.assign(e, x, fr)
                self.assign(t.elts[star].value, PList(items[star:len(items) - after]), fr)
                for e, x in zip(t.elts[star + 1:], items[len(items) - after:]):
                    self.assign(e, x, fr)
        else:
            raise Incomplete('assignment target')

    def unpack(self, v, n, star=False):
        v = self.resolve(v)
        if isinstance(v, Phi):
            a = self.unpack(v.a, n, star)
            b = self.unpack(v.b, n, star)
            if len(a) != len(b):
                raise Incomplete('unpack gated values of different length')
            return [self.phi(v.guard, x, y) for x, y in zip(a, b)]
        if isinstance(v, Unk):
            if star:
                raise Incomplete(f'unpack of {v!r}')
            return [Unk(v.why + f'[{i}]') for i in range(n)]
        return self.iterate(v)

    def x_If(self, st, fr):
        return self.branch(self.eval(st.test, fr), lambda: self.exec_block(st.body, fr),
                           lambda: self.exec_block(st.orelse, fr))

    def branch(self, cond, fa, fb):
        """statement level fork on an abstract condition"""
        cond = self.resolve(cond)
        if isinstance(cond, Phi):
            return self.branch_on(cond.guard, lambda: self.branch(cond.a, fa, fb), lambda: self.branch(cond.b, fa, fb))
        c = self.truth(cond)
        if c is True:
            return fa()
        if c is False:
            return fb()
        if isinstance(c, Phi):
            return self.branch(c, fa, fb)
        neg = isinstance(c, tuple)
        g = c[1] if neg else c
        if neg:
            fa, fb = fb, fa
        return self.branch_on(g, fa, fb)

    def branch_on(self, g, fa, fb):
        r = self.known(g)
        if r is not g:
            return fa() if r else fb()
        self.forking += 1
        try:
            return self._branch_on(g, fa, fb)
        finally:
            self.forking -= 1

    def _branch_on(self, g, fa, fb):
        self.branches += 1
        base = self.snap()
        outs = []
        for val, f in ((True, fa), (False, fb)):
            self.restore(base)
            self.assume = {**base.assume, g: val}
            saved, self.pending = self.pending, []
            try:
                normal, exits = f()
            except PyRaise as e:
                normal, exits = False, [Exit('raise', e.val)]
            exits = self.pending + exits
            self.pending = saved
            for e in exits:
                if e.state is None:
                    e.state, e.assume = self.snap(), self.assume
            outs.append((normal, exits, self.snap() if normal else None))
        (na, ea, sa), (nb, eb, sb) = outs
        if na and nb:
            self.merge(g, sa, sb)
        elif na:
            self.restore(sa)
        elif nb:
            self.restore(sb)
        return na or nb, ea + eb

    def join_exits(self, exits, base_assume):
        """join several exits (each with state) into the live state; returns joined value"""
        if len(exits) == 1:
            e = exits[0]
            if e.state is not None:
                self.restore(e.state)
            return e.val
        # choose a splitting guard
        cand = None
        first = exits[0].state.assume
        for g in first:
            if g in base_assume:
                continue
            if any(e.state.assume.get(g) == (not first[g]) for e in exits[1:]):
                cand = g
                break
        if cand is None:
            cand = self.fresh_guard('path')
            a, b = exits[:1], exits[1:]
        else:
            a = [e for e in exits if e.state.assume.get(cand) is not False]
            b = [e for e in exits if e.state.assume.get(cand) is False]
            both = [e for e in exits if cand not in e.state.assume]
            if both:
                # exits not decided by the guard: keep them on both sides
                b = b + both
        ba = {**base_assume, cand: True}
        va = self.join_exits(a, ba)
        sa = self.snap()
        bb = {**base_assume, cand: False}
        vb = self.join_exits(b, bb)
        sb = self.snap()
        self.merge(cand, sa, sb)
        self.assume = base_assume
        return self.phi(cand, va, vb)

    def x_Try(self, st, fr):
        assume0 = self.assume
        self.try_depth += 1
        try:
            try:
                normal, exits = self.exec_block(st.body, fr)
            except PyRaise as e:
                normal, exits = False, [Exit('raise', e.val)]
        finally:
            self.try_depth -= 1
        exits = self.take_pending() + exits
        raises = [e for e in exits if e.kind == 'raise']
        others = [e for e in exits if e.kind != 'raise']
        if normal and st.orelse:
            normal, ex = self.exec_block(st.orelse, fr)
            others += ex
        if not raises:
            res = normal, others
        else:
            live = self.snap() if normal else None
            for e in others + raises:
                if e.state is None:
                    e.state, e.assume = self.snap(), self.assume
            outs = [Exit('normal', None, live, live.assume)] if live else []
            rest = []
            for e in raises:
                h = self.find_handler(st, e.val, fr)
                if h is None:
                    rest.append(e)
                    continue
                self.restore(e.state)
                if h.name:
                    self.store_name(h.name, e.val, fr)
                self.setvar(fr.vars, '__exc__', e.val)
                n2, ex2 = self.exec_block(h.body, fr)
                for x in ex2:
                    if x.state is None:
                        x.state, x.assume = self.snap(), self.assume
                rest += ex2
                if n2:
                    s = self.snap()
                    outs.append(Exit('normal', None, s, s.assume))
            if outs:
                self.join_exits(outs, assume0)
            res = bool(outs), others + rest
        if st.finalbody:
            normal, exits = res
            final = []
            live = self.snap() if normal else None
            if not normal and all(e.state is None for e in exits):
                n2, ex2 = self.exec_block(st.finalbody, fr)
                if not n2:
                    return False, ex2
                return False, exits
            for e in exits:
                if e.state is None:
                    e.state, e.assume = self.snap(), self.assume
                self.restore(e.state)
                n2, ex2 = self.exec_block(st.finalbody, fr)
                if n2:
                    e.state, e.assume = self.snap(), self.assume
                    final.append(e)
                else:
                    final += ex2
            if live:
                self.restore(live)
                n2, ex2 = self.exec_block(st.finalbody, fr)
                return n2, final + ex2
            return False, final
        return res

    def find_handler(self, st, exc, fr):
        for h in st.handlers:
            if h.type is None:
                return h
            t = self.resolve(self.eval(h.type, fr))
            ts = t if isinstance(t, tuple) else (t,)
            for x in ts:
                if self.exc_matches(exc, x):
                    return h
        return None

    def exc_matches(self, exc, x):
        n = x.name if isinstance(x, (ExcClass, PClass)) else None
        return n is not None and (exc_isa(exc.cls, n))

    def may_raise(self, why, cls):
        """the operation may raise; only modelled inside a try"""
        if self.try_depth <= 0 or self.rules.get('no_faults'):
            return
        g = Guard(('raises', why))
        if self.known(g) is not g:
            # the very same operation already succeeded / failed on this path
            if self.assume[g]:
                raise PyRaise(ExcVal(cls, ()))
            return
        s = self.snap()
        s.assume = {**self.assume, g: True}
        self.pending.append(Exit('raise', ExcVal(cls, ()), s, s.assume))
        self.assume = {**self.assume, g: False}

    def x_With(self, st, fr):
        ctxs = []
        for it in st.items:
            c = self.eval(it.context_expr, fr)
            v = c
            if isinstance(c, Inst) and c.cls.lookup('__enter__'):
                v = self.call_method(c, '__enter__', [])
            if it.optional_vars is not None:
                self.assign(it.optional_vars, v, fr)
            ctxs.append(c)
        normal, exits = self.exec_block(st.body, fr)
        for c in reversed(ctxs):
            if isinstance(c, Inst) and c.cls.lookup('__exit__'):
                if normal or all(e.state is None for e in exits):
                    self.call_method(c, '__exit__', [None, None, None])
        return normal, exits

    # ----------------------------------------------------------------- loops
    def x_For(self, st, fr):
        it = self.eval(st.iter, fr)
        return self.loop(it, st, fr)

    def loop(self, it, st, fr):
        it = self.resolve(it)
        if isinstance(it, Phi):
            return self.branch_on(it.guard, lambda: self.loop(it.a, st, fr), lambda: self.loop(it.b, st, fr))
        items = self.iter_items(it)
        assume0 = self.assume
        exits = []
        breaks = []
        live = True
        if len(items) > self.max_unroll:
            raise Incomplete('loop too long')
        for x in items:
            if isinstance(x, Gen):
                live, ex, br = self.generic_loop(x, lambda v: self.assign(st.target, v, fr), st.body, fr)
                exits += ex
                breaks += br
                if not live:
                    break
                continue
            self.assign(st.target, x, fr)
            normal, ex = self.exec_block(st.body, fr)
            live, ex2, br = self.iter_end(normal, ex, assume0)
            exits += ex2
            breaks += br
            if not live:
                break
        return self.loop_end(live, exits, breaks, st.orelse, fr, assume0)

    def iter_end(self, normal, ex, assume0):
        """after one iteration: join normal end with continues"""
        exits = [e for e in ex if e.kind in ('return', 'raise')]
        breaks = [e for e in ex if e.kind == 'break']
        conts = [e for e in ex if e.kind == 'continue']
        if conts:
            if not normal and len(conts) == 1 and conts[0].state is None:
                normal = True
            else:
                outs = list(conts)
                for e in outs + exits + breaks:
                    if e.state is None:
                        e.state, e.assume = self.snap(), self.assume
                if normal:
                    s = self.snap()
                    outs.append(Exit('normal', None, s, s.assume))
                self.join_exits(outs, self._common(outs))
                normal = True
        if normal:
            for e in exits + breaks:
                if e.state is None:
                    e.state, e.assume = self.snap(), self.assume
        return normal, exits, breaks

    def _common(self, outs):
        a = outs[0].state.assume
        return {k: v for k, v in a.items() if all(e.state.assume.get(k) == v for e in outs)}

    def loop_end(self, live, exits, breaks, orelse, fr, assume0):
        if live and orelse:
            n, ex = self.exec_block(orelse, fr)
            exits += ex
            live = n
        if breaks:
            if not live and len(breaks) == 1 and breaks[0].state is None:
                return True, exits
            outs = list(breaks)
            for e in outs + exits:
                if e.state is None:
                    e.state, e.assume = self.snap(), self.assume
            if live:
                s = self.snap()
                outs.append(Exit('normal', None, s, s.assume))
            self.join_exits(outs, self._common(outs))
            return True, exits
        return live, exits

    def generic_loop(self, gen, assign, body, fr, cond=None):
        """analyse one generic iteration of a loop over symbolic ranges; the result is the
        state after the last iteration (or the state before, when the range is empty)."""
        self.forking += 1
        try:
            return self._generic_loop(gen, assign, body, fr, cond)
        finally:
            self.forking -= 1

    def _generic_loop(self, gen, assign, body, fr, cond):
        self.generic_loops += 1
        base = self.snap()
        nev = len(self.events)
        # pass 1: find what the body writes
        self.loopstack.append(gen)
        try:
            saved, self.pending = self.pending, []
            assign(gen.template)
            self.exec_block(body, fr)
            self.pending = []
            written = self.diff(base)
            del self.events[nev:]
            self.restore(base)
            # havoc loop-carried state
            self.havoc(written, base, gen)
            hav = self.snap()
            assign(gen.template)
            normal, ex = self.exec_block(body, fr)
            ex = self.pending + ex
            self.pending = saved
            normal, exits, breaks = self.iter_end(normal, ex, base.assume)
        finally:
            self.loopstack.pop()
        if not normal:
            # every path leaves the loop in the first iteration
            for e in exits + breaks:
                if e.state is None:
                    e.state, e.assume = self.snap(), self.assume
            g = Guard(('empty-loop', gen.loops[0][0] if gen.loops else uidname()))
            self.restore(base)
            return True, exits, breaks
        self.finish_tiles(written, gen, hav)
        nonempty = self.range_nonempty(gen)
        if nonempty is True:
            self.assume = base.assume
            return True, exits, breaks
        after = self.snap()
        g = Guard(('loop-runs', str(gen.loops[0][0]) if gen.loops else uidname()))
        after.assume = base.assume
        self.merge(g, after, base)
        self.assume = base.assume
        return True, exits, breaks

    def range_nonempty(self, gen):
        r = True
        for var, lo, n, step in gen.loops:
            if var is None or n is None:
                return None
            if poly.compare('<', lo, n) is not True:
                r = None
        return r

    def diff(self, base):
        """boxes (existing in base) whose content changed: {box: (old, new)}"""
        res = {}
        for i, (b, c) in base.boxes.items():
            if b.content is not c:
                res[b] = (c, b.content)
        return res

    def havoc(self, written, base, gen):
        for b, (old, new) in written.items():
            if b.tag in ('frame', 'inst', 'class', 'module', 'func'):
                c = dict(old)
                for k in new:
                    if k not in old:
                        continue
                    if new[k] is not old[k]:
                        c[k] = self.havoc_value(old[k], new[k])
                b.content = c
            elif b.tag == 'dict':
                c = dict(old)
                for k in new:
                    if k in old and new[k][1] is not old[k][1]:
                        c[k] = (old[k][0], self.havoc_value(old[k][1], new[k][1]))
                b.content = c
            elif b.tag == 'list':
                if len(new) == len(old):
                    b.content = [x if x is y else self.havoc_value(x, y) for x, y in zip(old, new)]
                elif list(new[:len(old)]) == list(old):
                    b.content = old            # appended items: generalised at the end
                else:
                    raise Incomplete('loop rewrites a list')
            elif b.tag == 'tensor':
                if isinstance(new, tnet.Tiled) or self._has_tiled(new):
                    b.content = old
                elif isinstance(old, View):
                    b.content = old
                else:
                    b.content = self.havoc_tv(old)
            elif b.tag == 'iter':
                b.content = old
            else:
                raise Incomplete(f'loop writes {b.tag}')

    def _has_tiled(self, v):
        if isinstance(v, tnet.PhiV):
            return self._has_tiled(v.a) or self._has_tiled(v.b)
        return isinstance(v, tnet.Tiled)

    def havoc_tv(self, v):
        v = tnet.resolve(v)
        return tnet.atom_tv(('havoc', tnet.uid()), v.shape)

    def havoc_value(self, old, new):
        new0 = new
        while isinstance(new0, Phi):
            new0 = new0.a
        if isinstance(new0, TObj):
            return TObj(self.havoc_tv(new0.v), new0.dtype, new0.device)
        if isinstance(old, (int, float, Poly)) and not isinstance(old, bool) and isinstance(new0, (int, float, Poly)):
            return Poly.sym(('havoc', tnet.uid()))
        if isinstance(new0, tuple) and isinstance(old, tuple) and len(new0) == len(old):
            return tuple(x if x is y else self.havoc_value(x, y) for x, y in zip(old, new0))
        if isinstance(new0, (str, type(None), Tok, bool)) or isinstance(new0, Unk):
            return Unk('loop-carried value')
        if old is new0:
            return old
        if isinstance(new0, (PFunc, PClass, Builtin, PModule)):
            return new0
        return Unk('loop-carried value')

    def finish_tiles(self, written, gen, hav):
        for b in written:
            c = b.content
            if b.tag == 'tensor' and self._has_tiled(c):
                for var, lo, n, step in gen.loops:
                    if var is not None:
                        c = tnet.generalise(c, var, lo, n, step)
                b.content = c
            elif b.tag == 'list':
                old, new = written[b]
                cur = b.content
                if len(cur) > len(old):
                    added = cur[len(old):]
                    b.content = list(cur[:len(old)]) + [
                        Gen(x.template, gen.loops + x.loops) if isinstance(x, Gen) else Gen(x, gen.loops) for x in added]
                    if len(added) > 1:
                        b.content = list(cur[:len(old)]) + [Gen(('__seq__', tuple(added)), gen.loops)] \
                            if False else b.content

    def x_While(self, st, fr):
        assume0 = self.assume
        exits, breaks = [], []
        n = 0
        while True:
            cond = self.resolve(self.eval(st.test, fr))
            c = self.truth(cond) if not isinstance(cond, Phi) else None
            if c is False:
                live = True
                break
            if c is not True:
                if self.rules.get('no_while'):
                    return self.loop_end(True, exits, breaks, st.orelse, fr, assume0)
                return self.while_generic(st, fr, assume0, exits, breaks)
            if n >= 1 and isinstance(st.test, ast.Constant) and len(breaks) + len(exits) > 0:
                # leaves the loop under conditions that are not known: one exact iteration, then a generic one
                if not self.rules.get('no_while'):
                    gen = Gen(None, ((None, None, None, None),))
                    live, ex, br = self.generic_loop(gen, lambda v: None, st.body, fr)
                    exits += ex
                    breaks += br
                return self.loop_end(False, exits, breaks, [], fr, assume0)
            n += 1
            if n > 3000:
                raise Incomplete('while loop does not terminate in the abstract')
            normal, ex = self.exec_block(st.body, fr)
            live, ex2, br = self.iter_end(normal, ex, assume0)
            exits += ex2
            breaks += br
            if not live:
                break
        return self.loop_end(live, exits, breaks, st.orelse, fr, assume0)

    def while_generic(self, st, fr, assume0, exits, breaks):
        # counter loops:  while v < n: ...; v += step
        t = st.test
        ctr = None
        if isinstance(t, ast.Compare) and len(t.ops) == 1 and isinstance(t.ops[0], (ast.Lt, ast.NotEq)) and isinstance(t.left, ast.Name):
            name = t.left.id
            v0 = fr.vars.content.get(name)
            n = self.eval(t.comparators[0], fr)
            incs = [s for s in st.body if isinstance(s, ast.AugAssign) and isinstance(s.target, ast.Name) and
                    s.target.id == name and isinstance(s.op, ast.Add)]
            stores = [x for x in ast.walk(ast.Module(st.body, [])) if isinstance(x, ast.Name) and x.id == name and isinstance(x.ctx, ast.Store)]
            if len(incs) == 1 and len(stores) == 1 and isinstance(v0, (int, Poly)) and isinstance(n, (int, Poly)) and \
                    incs[0] is st.body[-1]:
                ctr = (name, v0, n, incs[0])
        if ctr:
            name, v0, n, inc = ctr
            step = self.eval(inc.value, fr)
            var = self.loop_symbol(name)
            gen = Gen(var, ((var, v0, n, step),))
            live, ex, br = self.generic_loop(gen, lambda v: self.store_name(name, v, fr), st.body[:-1], fr)
            self.store_name(name, Poly.sym(('havoc', tnet.uid())), fr)
            return self.loop_end(live, exits + ex, breaks + br, st.orelse, fr, assume0)
        gen = Gen(None, ((None, None, None, None),))

        # general: body runs from a havocked state in which the condition holds
        def body():
            pass
        test = ast.If(test=st.test, body=list(st.body), orelse=[ast.copy_location(ast.Break(), st)])
        ast.copy_location(test, st)
        live, ex, br = self.generic_loop(gen, lambda v: None, [test], fr)
        # exits by 'break' of the synthetic else are the states before an iteration: the loop result is
        # "after some iteration" joined with "no iteration"; drop the synthetic breaks
        real = [b for b in br if getattr(b, 'synthetic', False) is False]
        has_break = any(isinstance(x, ast.Break) for s in st.body for x in ast.walk(s))
        br = br if has_break else []
        return self.loop_end(live, exits + ex, breaks + br, st.orelse, fr, assume0)

    def loop_symbol(self, name):
        s = ('loop', name, tnet.uid())
        return Poly.sym(s, isint=True)

    # -------------------------------------------------------------- iteration
    def iter_items(self, it):
        """list of items; may contain Gen entries for symbolic parts"""
        it = self.resolve(it)
        if isinstance(it, PRange):
            if all(isinstance(x, int) for x in (it.lo, it.hi, it.step)):
                if it.step == 0:
                    raise PyRaise(ExcVal('ValueError', ('range() arg 3 must not be zero',)))
                return list(range(it.lo, it.hi, it.step))
            if all(isinstance(x, (int, Poly)) for x in (it.lo, it.hi, it.step)):
                if poly.compare('>=', it.lo, it.hi) is True and poly.compare('>', it.step, 0):
                    return []
                var = self.loop_symbol('i')
                return [Gen(var, ((var, it.lo, it.hi, it.step),))]
            raise Incomplete(f'range over {it}')
        if isinstance(it, PList):
            return list(it.items)
        if isinstance(it, tuple):
            return list(it)
        if isinstance(it, str):
            return list(it)
        if isinstance(it, PDict):
            return [k for k, _ in it.d.values()]
        if isinstance(it, PSet):
            return list(it.box.content.values())
        if isinstance(it, PIter):
            items, pos = it.box.content
            it.box.content = (items, len(items))
            return items[pos:]
        if isinstance(it, Inst):
            if it.cls.dataclass and it.cls.dataclass.get('namedtuple'):
                return [it.box.content[f] for f in it.cls.dataclass['fields']]
            m = it.cls.lookup('__iter__')
            if m is not None:
                return self.iter_items(self.call_method(it, '__iter__', []))
            if it.cls.lookup('__next__'):
                raise Incomplete('user iterator')
            if it.cls.lookup('__getitem__') and it.cls.lookup('__len__'):
                n = self.call_method(it, '__len__', [])
                if isinstance(n, int):
                    return [self.call_method(it, '__getitem__', [i]) for i in range(n)]
            raise PyRaise(ExcVal('TypeError', ('not iterable',)))
        if isinstance(it, TObj):
            return self.torchlib.iter_tensor(self, it)
        if isinstance(it, PClass) and getattr(it, 'enum', False):
            return [v for v in it.box.content.values() if isinstance(v, Inst) and v.cls is it]
        if isinstance(it, Phi):
            a = self.iter_items(it.a)
            b = self.iter_items(it.b)
            if len(a) == len(b):
                return [self.phi(it.guard, x, y) for x, y in zip(a, b)]
            raise Incomplete('iterate gated collection')
        if it is None or isinstance(it, (int, float)):
            raise PyRaise(ExcVal('TypeError', ('not iterable',)))
        raise Incomplete(f'iteration over {it!r}')

    def iterate(self, it):
        items = self.iter_items(it)
        return items

    # ------------------------------------------------------------ expressions
    def eval(self, e, fr):
        m = getattr(self, 'e_' + type(e).__name__, None)
        if m is None:
            raise Incomplete(f'expression {type(e).__name__}')
        return m(e, fr)

    def e_Constant(self, e, fr):
        return e.value

    def e_Name(self, e, fr):
        return self.load_name(e.id, fr)

    def load_name(self, n, fr):
        f = fr
        if n in fr.globals_decl:
            f = None
        first = True
        while f is not None:
            if (first or not f.isclass) and n in f.vars.content:
                v = self.resolve(f.vars.content[n])
                if v is UNDEF:
                    raise PyRaise(ExcVal('UnboundLocalError', (n,)))
                if isinstance(v, Phi) and (v.a is UNDEF or v.b is UNDEF):
                    return self.undef_phi(v, n)
                return v
            if first and f.func is not None and n in self.local_names(f.func):
                raise PyRaise(ExcVal('UnboundLocalError', (n,)))
            first = False
            f = f.parent
        c = fr.module.box.content
        if n in c:
            return c[n]
        if n in self.builtins:
            return self.builtins[n]
        raise PyRaise(ExcVal('NameError', (n,)))

    def undef_phi(self, v, n):
        """gated value undefined on one side: reading it raises there"""
        g = v.guard
        bad = v.a is UNDEF
        s = self.snap()
        s.assume = {**self.assume, g: bad}
        self.pending.append(Exit('raise', ExcVal('UnboundLocalError', (n,)), s, s.assume))
        self.assume = {**self.assume, g: not bad}
        r = self.resolve(v)
        if isinstance(r, Phi) and (r.a is UNDEF or r.b is UNDEF):
            return self.undef_phi(r, n)
        if r is UNDEF:
            raise PyRaise(ExcVal('UnboundLocalError', (n,)))
        return r

    _locals_cache = {}

    def local_names(self, func):
        node = func.node
        k = id(node)
        r = self._locals_cache.get(k)
        if r is None or r[0] is not node:
            names = set()
            skip = set()
            body = node.body if isinstance(node.body, list) else []

            def walk(n):
                for c in ast.iter_child_nodes(n):
                    if isinstance(c, (ast.FunctionDef, ast.ClassDef)):
                        names.add(c.name)
                        continue
                    if isinstance(c, (ast.Lambda, ast.ListComp, ast.SetComp, ast.DictComp, ast.GeneratorExp)):
                        for x in ast.walk(c):
                            if isinstance(x, ast.NamedExpr):
                                names.add(x.target.id)
                        continue
                    if isinstance(c, ast.Name) and isinstance(c.ctx, (ast.Store, ast.Del)):
                        names.add(c.id)
                    if isinstance(c, (ast.Global, ast.Nonlocal)):
                        skip.update(c.names)
                    if isinstance(c, (ast.Import, ast.ImportFrom)):
                        for a in c.names:
                            names.add((a.asname or a.name).split('.')[0])
                    if isinstance(c, ast.ExceptHandler) and c.name:
                        names.add(c.name)
                    if isinstance(c, (ast.MatchAs, ast.MatchStar)) and c.name:
                        names.add(c.name)
                    walk(c)
            walk(ast.Module(body, []))
            r = self._locals_cache[k] = (node, names - skip)
        return r[1]

    def store_name(self, n, v, fr):
        if n in fr.globals_decl:
            self.setvar(fr.module.box, n, v)
            return
        if n in fr.nonlocals:
            f = fr.parent
            while f is not None:
                if n in f.vars.content and not f.isclass:
                    self.setvar(f.vars, n, v)
                    return
                f = f.parent
        self.setvar(fr.vars, n, v)

    def e_Tuple(self, e, fr):
        return tuple(self.eval_seq(e.elts, fr))

    def eval_seq(self, elts, fr):
        r = []
        for x in elts:
            if isinstance(x, ast.Starred):
                items = self.iterate(self.eval(x.value, fr))
                r.extend(items)
            else:
                r.append(self.eval(x, fr))
        return r

    def e_List(self, e, fr):
        return PList(self.eval_seq(e.elts, fr))

    def e_Set(self, e, fr):
        return PSet({hkey(v): v for v in self.eval_seq(e.elts, fr)})

    def e_Dict(self, e, fr):
        d = {}
        for k, v in zip(e.keys, e.values):
            if k is None:
                src = self.resolve(self.eval(v, fr))
                d.update(src.d)
            else:
                kk = self.eval(k, fr)
                d[hkey(kk)] = (kk, self.eval(v, fr))
        return PDict(d)

    def e_JoinedStr(self, e, fr):
        parts = []
        for v in e.values:
            if isinstance(v, ast.Constant):
                parts.append(v.value)
            else:
                x = self.resolve(self.eval(v.value, fr))
                s = self.to_str(x, v)
                parts.append(s)
        if any(isinstance(p, Unk) for p in parts):
            return Unk('formatted string')
        return ''.join(parts)

    def to_str(self, x, v=None):
        if isinstance(x, tuple):
            xs = [self.to_str(y) for y in x]
            if any(isinstance(s, Unk) for s in xs):
                return Unk('str')
            return '(' + ', '.join(repr(y) if isinstance(y, str) else s for y, s in zip(x, xs)) + (',' if len(x) == 1 else '') + ')'
        if isinstance(x, (str, int, float, bool, type(None))):
            try:
                spec = ''
                if v is not None and v.format_spec is not None:
                    spec = ''.join(c.value for c in v.format_spec.values if isinstance(c, ast.Constant))
                y = repr(x) if v is not None and v.conversion == 114 else x
                return format(y, spec) if spec else str(y)
            except Exception:
                return Unk('format')
        return Unk('str')

    e_FormattedValue = None

    def e_Starred(self, e, fr):
        raise Incomplete('starred expression')

    def e_Lambda(self, e, fr):
        f = self.make_func(e, fr, '<lambda>')
        return f

    def e_IfExp(self, e, fr):
        c = self.eval(e.test, fr)
        return self.cond(c, lambda: self.eval(e.body, fr), lambda: self.eval(e.orelse, fr))

    def cond(self, c, fa, fb):
        c = self.resolve(c)
        if isinstance(c, Phi):
            return self.fork(c.guard, lambda: self.cond(c.a, fa, fb), lambda: self.cond(c.b, fa, fb))
        t = self.truth(c)
        if t is True:
            return fa()
        if t is False:
            return fb()
        if isinstance(t, Phi):
            return self.cond(t, fa, fb)
        if isinstance(t, tuple):
            return self.fork(t[1], fb, fa)
        return self.fork(t, fa, fb)

    def e_NamedExpr(self, e, fr):
        v = self.eval(e.value, fr)
        self.store_name(e.target.id, v, fr)
        return v

    def e_BoolOp(self, e, fr):
        isand = isinstance(e.op, ast.And)

        def go(i):
            v = self.eval(e.values[i], fr)
            if i == len(e.values) - 1:
                return v
            return self.cond(v, (lambda: go(i + 1)) if isand else (lambda: v),
                             (lambda: v) if isand else (lambda: go(i + 1)))
        return go(0)

    def e_UnaryOp(self, e, fr):
        v = self.eval(e.operand, fr)
        return self.lift(lambda x: self.unop(e.op, x), v)

    def unop(self, op, x):
        if isinstance(op, ast.Not):
            t = self.truth(x)
            if isinstance(t, bool):
                return not t
            if isinstance(t, Phi):
                return self.lift(lambda y: self.unop(op, y), t)
            if isinstance(t, tuple):
                return t[1]
            return ('not', t) if False else NotG(t)
        if isinstance(x, Unk):
            return x
        if isinstance(op, ast.USub):
            if isinstance(x, TObj):
                return self.torchlib.unary(self, 'neg', x)
            if isinstance(x, (int, float, complex, Poly)):
                return poly.neg(x)
            if isinstance(x, Inst):
                return self.call_method(x, '__neg__', [])
        if isinstance(op, ast.UAdd):
            return x
        if isinstance(op, ast.Invert) and isinstance(x, (int,)):
            return ~x
        raise Incomplete(f'unary {type(op).__name__} on {x!r}')

    def known(self, g):
        """truth of a guard on this path, or the guard; a check may select the path with rules['decide']"""
        if g in self.assume:
            return self.assume[g]
        f = self.rules.get('decide')
        r = f(g) if f else None
        if r is None:
            return g
        self.assume = {**self.assume, g: r}
        return r

    def truth(self, v):
        """True / False / Guard / ('not', Guard) / Phi"""
        v = self.resolve(v)
        if isinstance(v, bool):
            return v
        if isinstance(v, Phi):
            return Phi(v.guard, self.truth_in(v.a, v.guard, True), self.truth_in(v.b, v.guard, False))
        if v is None:
            return False
        if isinstance(v, Guard):
            return self.known(v)
        if isinstance(v, NotG):
            t = self.known(v.g)
            return ('not', v.g) if t is v.g else not t
        if isinstance(v, (int, float, str, bytes, tuple, complex)):
            return bool(v)
        if isinstance(v, Poly):
            r = poly.compare('!=', v, 0)
            if r is not None:
                return r
            g = Guard(('nonzero', v))
            return self.known(g)
        if isinstance(v, PList):
            if any(isinstance(x, Gen) for x in v.items):
                return True
            return bool(v.items)
        if isinstance(v, PDict):
            return self._dict_truth(v)
        if isinstance(v, PSet):
            return bool(v.box.content)
        if isinstance(v, Unk):
            g = Guard(('unk', v.why))
            return self.known(g)
        if isinstance(v, TObj):
            return self.torchlib.tensor_truth(self, v)
        if isinstance(v, Inst):
            if v.cls.lookup('__bool__'):
                return self.truth(self.call_method(v, '__bool__', []))
            if v.cls.lookup('__len__'):
                return self.truth(self.call_method(v, '__len__', []))
            return True
        if isinstance(v, PRange):
            r = poly.compare('<', v.lo, v.hi)
            if r is None:
                return Guard(('nonempty', str(v)))
            return r
        return True

    def _dict_truth(self, v):
        vals = [self.resolve(x) for _, x in v.d.values()]
        if any(not (isinstance(x, Phi) and (x.a is UNDEF or x.b is UNDEF)) and x is not UNDEF for x in vals):
            return True
        if not vals:
            return False
        raise Incomplete('truth of a conditionally filled dict')

    def truth_in(self, v, g, val):
        old = self.assume
        self.assume = {**old, g: val}
        try:
            t = self.truth(v)
        finally:
            self.assume = old
        if isinstance(t, tuple):
            return NotG(t[1])
        return t

    def e_Compare(self, e, fr):
        left = self.eval(e.left, fr)
        res = None
        vals = [left]
        if len(e.ops) == 1:
            right = self.eval(e.comparators[0], fr)
            return self.lift(lambda a, b: self.compare(e.ops[0], a, b), left, right)

        def go(i, l):
            r = self.eval(e.comparators[i], fr)
            c = self.lift(lambda a, b: self.compare(e.ops[i], a, b), l, r)
            if i == len(e.ops) - 1:
                return c
            return self.cond(c, lambda: go(i + 1, r), lambda: False)
        return go(0, left)

    def compare(self, op, a, b):
        n = type(op).__name__
        if n in ('Is', 'IsNot'):
            r = self.identical(a, b)
            if isinstance(r, bool):
                return r if n == 'Is' else not r
            return r if n == 'Is' else NotG(r)
        if n in ('In', 'NotIn'):
            r = self.contains(b, a)
            if isinstance(r, bool):
                return r if n == 'In' else not r
            return r if n == 'In' else self.unop(ast.Not(), r)
        sym = {'Eq': '==', 'NotEq': '!=', 'Lt': '<', 'LtE': '<=', 'Gt': '>', 'GtE': '>='}[n]
        return self.cmp(sym, a, b)

    def identical(self, a, b):
        if isinstance(a, Unk) or isinstance(b, Unk):
            u = a if isinstance(a, Unk) else b
            g = Guard(('is', u.why, repr(b if u is a else a)))
            return self.known(g)
        if isinstance(a, (int, str, type(None), bool, Tok)) or isinstance(b, (int, str, type(None), bool, Tok)):
            return type(a) == type(b) and a == b
        if isinstance(a, TObj) and isinstance(b, TObj):
            return a is b or a.box is b.box
        return a is b

    def contains(self, c, x):
        c = self.resolve(c)
        if isinstance(c, Phi):
            return self.lift(lambda d: self.contains(d, x), c)
        if isinstance(c, (PDict, PSet)):
            if isinstance(x, Unk) or isinstance(c, Unk):
                g = Guard(('in', getattr(x, 'why', '?')))
                return self.known(g)
            d = c.box.content
            k = hkey(x)
            if k not in d:
                return False
            if isinstance(c, PDict):
                v = self.resolve(d[k][1])
                if v is UNDEF:
                    return False
                if isinstance(v, Phi) and (v.a is UNDEF or v.b is UNDEF):
                    return v.guard if v.b is UNDEF else NotG(v.guard)
            return True
        if isinstance(c, str):
            if isinstance(x, str):
                return x in c
            g = Guard(('in', repr(x), c))
            return self.known(g)
        if isinstance(c, (PList, tuple, PRange)):
            if isinstance(c, PRange) and isinstance(x, (int, Poly)):
                lo = poly.compare('>=', x, c.lo)
                hi = poly.compare('<', x, c.hi)
                if c.step == 1 and lo is not None and hi is not None:
                    return lo and hi
                if c.step == 1 and (lo is False or hi is False):
                    return False
                if all(isinstance(t, int) for t in (x, c.lo, c.hi, c.step)):
                    return x in range(c.lo, c.hi, c.step)
            res = False
            for y in (self.iterate(c)):
                r = self.lift(lambda p, q: self.cmp('==', p, q), y, x)
                if r is True:
                    return True
                if r is not False:
                    res = r
            return res
        if isinstance(c, Inst):
            if c.cls.lookup('__contains__'):
                return self.call_method(c, '__contains__', [x])
        if isinstance(c, Unk) or isinstance(x, Unk):
            g = Guard(('in', getattr(c, 'why', '?'), getattr(x, 'why', '?')))
            return self.known(g)
        if isinstance(c, TObj):
            return Unk('in tensor')
        raise Incomplete(f'membership in {c!r}')

    def cmp(self, sym, a, b):
        num = (int, float, complex, Poly)
        if isinstance(a, TObj) or isinstance(b, TObj):
            return self.torchlib.compare(self, sym, a, b)
        if isinstance(a, Unk) or isinstance(b, Unk):
            return self.mkguard(('cmp', sym, getattr(a, 'why', repr(a)), getattr(b, 'why', repr(b))))
        if isinstance(a, num) and isinstance(b, num) and not isinstance(a, bool) | isinstance(b, bool):
            r = poly.compare(sym, a, b)
            if r is not None:
                return r
            # canonical guard on the difference
            d = Poly.of(a) - Poly.of(b)
            return self.poly_guard(sym, d)
        if isinstance(a, Inst) or isinstance(b, Inst):
            m = {'==': '__eq__', '!=': '__ne__', '<': '__lt__', '<=': '__le__', '>': '__gt__', '>=': '__ge__'}[sym]
            if isinstance(a, Inst) and a.cls.lookup(m):
                return self.call_method(a, m, [b])
            if isinstance(b, Inst) and b.cls.lookup(m) and sym in ('==', '!='):
                return self.call_method(b, m, [a])
            if isinstance(a, Inst) and sym == '!=' and a.cls.lookup('__eq__'):
                return self.unop(ast.Not(), self.call_method(a, '__eq__', [b]))
            if sym in ('==', '!='):
                eq = a is b
                if isinstance(a, Inst) and isinstance(b, Inst) and a.cls is b.cls and a.cls.dataclass:
                    r = self.cmp('==', tuple(a.box.content.get(f) for f in a.cls.dataclass['fields']),
                                 tuple(b.box.content.get(f) for f in a.cls.dataclass['fields']))
                    return r if sym == '==' else self.unop(ast.Not(), r)
                return eq if sym == '==' else not eq
            raise Incomplete(f'comparison of {a!r} and {b!r}')
        if isinstance(a, (tuple, PList)) and isinstance(b, (tuple, PList)) and type(a) == type(b):
            x, y = (a, b) if isinstance(a, tuple) else (a.items, b.items)
            if sym in ('==', '!='):
                if len(x) != len(y):
                    return sym == '!='
                res = True
                for p, q in zip(x, y):
                    r = self.lift(lambda u, w: self.cmp('==', u, w), p, q)
                    if r is False:
                        return sym == '!='
                    if r is not True:
                        res = r
                if res is True:
                    return sym == '=='
                return res if sym == '==' else self.unop(ast.Not(), res)
            try:
                xs = [self._pyval(v) for v in x]
                ys = [self._pyval(v) for v in y]
            except Incomplete:
                raise
            return {'<': xs < ys, '<=': xs <= ys, '>': xs > ys, '>=': xs >= ys}[sym]
        if isinstance(a, (PDict, PSet)) and isinstance(b, (PDict, PSet)) and type(a) == type(b):
            if a.box is b.box:
                return sym == '=='
            if set(a.box.content) != set(b.box.content):
                return sym == '!='
            if isinstance(a, PSet):
                return sym == '=='
            res = True
            for k in a.d:
                r = self.lift(lambda u, w: self.cmp('==', u, w), a.d[k][1], b.d[k][1])
                if r is False:
                    return sym == '!='
                if r is not True:
                    res = r
            return res if sym == '==' else self.unop(ast.Not(), res)
        if sym in ('==', '!='):
            basic = (int, float, str, bool, type(None), Tok, bytes, complex)
            if isinstance(a, basic) and isinstance(b, basic):
                if isinstance(a, Tok) and isinstance(b, Tok) and (a.attrs.get('symbolic') or b.attrs.get('symbolic')) and a != b:
                    r = self.mkguard(('tok', a.name, b.name))
                    return r if sym == '==' else self.unop(ast.Not(), r)
                return (a == b) == (sym == '==')
            if isinstance(a, Poly) or isinstance(b, Poly):
                o = b if isinstance(a, Poly) else a
                if o is None or isinstance(o, (str, tuple)):
                    return sym == '!='
            eq = a is b
            return eq == (sym == '==')
        if isinstance(a, bool) or isinstance(b, bool):
            return self.cmp(sym, int(a) if isinstance(a, bool) else a, int(b) if isinstance(b, bool) else b)
        if isinstance(a, str) and isinstance(b, str):
            return {'<': a < b, '<=': a <= b, '>': a > b, '>=': a >= b}[sym]
        if a is None or b is None or isinstance(a, str) or isinstance(b, str):
            raise PyRaise(ExcVal('TypeError', ('comparison',)))
        raise Incomplete(f'comparison of {a!r} and {b!r}')

    def _pyval(self, v):
        if isinstance(v, (int, float, str)):
            return v
        if isinstance(v, tuple):
            return tuple(self._pyval(x) for x in v)
        raise Incomplete('ordering of symbolic values')

    def poly_guard(self, sym, d):
        """guard for d sym 0, normalised so that complementary comparisons share a guard"""
        if sym in ('==', '!='):
            g = Guard(('eq0', max(d, -d, key=lambda p: str(p))))
            t = self.assume.get(g)
            if t is None:
                return g if sym == '==' else NotG(g)
            return t == (sym == '==')
        if sym in ('<', '>='):
            g = Guard(('lt0', d))
            t = self.assume.get(g)
            if t is None:
                return g if sym == '<' else NotG(g)
            return t == (sym == '<')
        g = Guard(('lt0', -d))          # d > 0  <=> -d < 0
        t = self.assume.get(g)
        if t is None:
            return g if sym == '>' else NotG(g)
        return t == (sym == '>')

    def mkguard(self, key):
        g = Guard(key)
        return self.known(g)

    def e_BinOp(self, e, fr):
        a = self.eval(e.left, fr)
        b = self.eval(e.right, fr)
        return self.lift(lambda x, y: self.binop(e.op, x, y), a, b)

    def binop(self, op, a, b):
        n = type(op).__name__
        num = (int, float, complex, Poly)
        if isinstance(a, (Guard, NotG)):
            a = Unk(f'bool {a}')
        if isinstance(b, (Guard, NotG)):
            b = Unk(f'bool {b}')
        if isinstance(a, num) and isinstance(b, num):
            try:
                if n == 'Add':
                    return poly.add(a, b)
                if n == 'Sub':
                    return poly.sub(a, b)
                if n == 'Mult':
                    return poly.mul(a, b)
                if n == 'Div':
                    return poly.truediv(a, b)
                if n == 'FloorDiv':
                    return poly.floordiv(a, b)
                if n == 'Mod':
                    return poly.mod(a, b)
                if n == 'Pow':
                    return poly.power(a, b)
                if isinstance(a, int) and isinstance(b, int):
                    return {'BitAnd': lambda: a & b, 'BitOr': lambda: a | b, 'BitXor': lambda: a ^ b,
                            'LShift': lambda: a << b, 'RShift': lambda: a >> b}[n]()
            except ZeroDivisionError:
                raise PyRaise(ExcVal('ZeroDivisionError', ()))
            raise Incomplete(f'{n} on numbers')
        if isinstance(a, Inst) or isinstance(b, Inst):
            mn = {'Add': 'add', 'Sub': 'sub', 'Mult': 'mul', 'Div': 'truediv', 'MatMult': 'matmul', 'FloorDiv': 'floordiv',
                  'Mod': 'mod', 'Pow': 'pow', 'BitAnd': 'and', 'BitOr': 'or'}[n]
            if isinstance(a, Inst) and a.cls.lookup(f'__{mn}__'):
                r = self.call_method(a, f'__{mn}__', [b])
                if not (isinstance(r, Tok) and r.name == 'NotImplemented'):
                    return r
            if isinstance(b, Inst) and b.cls.lookup(f'__r{mn}__'):
                return self.call_method(b, f'__r{mn}__', [a])
            if isinstance(a, TObj) or isinstance(b, TObj):
                raise PyRaise(ExcVal('TypeError', ()))
            raise PyRaise(ExcVal('TypeError', ('unsupported operand',)))
        if isinstance(a, TObj) or isinstance(b, TObj):
            return self.torchlib.binary(self, n, a, b)
        if isinstance(a, Unk) or isinstance(b, Unk):
            return a if isinstance(a, Unk) else b
        if n == 'Add':
            if isinstance(a, str) and isinstance(b, str):
                return a + b
            if isinstance(a, tuple) and isinstance(b, tuple):
                return a + b
            if isinstance(a, PList) and isinstance(b, PList):
                return PList(a.items + b.items)
        if n == 'Mult':
            if isinstance(b, (str, tuple, PList)) and isinstance(a, (int, Poly)):
                a, b = b, a
            if isinstance(b, int):
                if isinstance(a, (str, tuple)):
                    return a * b
                if isinstance(a, PList):
                    return PList(a.items * b)
            if isinstance(b, Poly) and isinstance(a, (PList, tuple)):
                items = a.items if isinstance(a, PList) else list(a)
                var = self.loop_symbol('rep')
                r = [Gen(x, ((var, 0, b, 1),)) for x in items]
                return PList(r) if len(r) <= 1 else self._inc('list * symbolic')
        if n == 'Mod' and isinstance(a, str):
            return Unk('formatted string')
        if n == 'BitOr' and isinstance(a, PDict) and isinstance(b, PDict):
            d = dict(a.d)
            d.update(b.d)
            return PDict(d)
        if isinstance(a, PSet) and isinstance(b, PSet):
            x, y = a.box.content, b.box.content
            if n == 'BitOr':
                return PSet({**x, **y})
            if n == 'BitAnd':
                return PSet({k: v for k, v in x.items() if k in y})
            if n == 'Sub':
                return PSet({k: v for k, v in x.items() if k not in y})
        if a is None or b is None or isinstance(a, str) or isinstance(b, str):
            raise PyRaise(ExcVal('TypeError', (n, repr(a), repr(b))))
        if isinstance(a, (PClass, Tok, Builtin, ExcClass)) or isinstance(b, (PClass, Tok, Builtin)):
            return Unk('type expression')
        raise Incomplete(f'{n} on {a!r} and {b!r}')

    def _inc(self, m):
        raise Incomplete(m)

    def eval_index(self, s, fr):
        return self.eval(s, fr)

    def e_Slice(self, e, fr):
        return slice(self.eval(e.lower, fr) if e.lower else None, self.eval(e.upper, fr) if e.upper else None,
                     self.eval(e.step, fr) if e.step else None)

    def e_Subscript(self, e, fr):
        o = self.eval(e.value, fr)
        k = self.eval_index(e.slice, fr)
        return self.getitem(o, k)

    def getitem(self, o, k):
        return self.lift(self._getitem, o, k)

    def _getitem(self, o, k):
        if isinstance(k, slice):
            k = slice(*[self._idx(x) for x in (k.start, k.stop, k.step)])
        if isinstance(o, TObj):
            return self.torchlib.t_getitem(self, o, k)
        if isinstance(o, Unk):
            return Unk(f'{o.why}[..]')
        if isinstance(o, PDict):
            if isinstance(k, Unk):
                raise Incomplete(f'unknown dictionary key {k!r}')
            hk = hkey(k)
            if hk in o.d:
                v = self.resolve(o.d[hk][1])
                if v is UNDEF:
                    raise PyRaise(ExcVal('KeyError', (k,)))
                if isinstance(v, Phi) and (v.a is UNDEF or v.b is UNDEF):
                    return self.undef_phi(v, 'key')
                return v
            if o.default_factory is not None:
                v = self.call(o.default_factory, [], {})
                c = dict(o.d)
                c[hk] = (k, v)
                o.box.content = c
                return v
            raise PyRaise(ExcVal('KeyError', (k,)))
        if isinstance(o, (tuple, PList, str)):
            items = o.items if isinstance(o, PList) else o
            if isinstance(k, bool):
                k = int(k)
            if isinstance(k, TObj):
                k = self.torchlib.as_index(self, k)
            if isinstance(k, int) or isinstance(k, slice):
                if isinstance(k, slice):
                    if any(isinstance(x, Poly) for x in (k.start, k.stop, k.step)):
                        raise Incomplete('symbolic list slice')
                    r = items[k]
                    return PList(r) if isinstance(o, PList) else r
                if any(isinstance(x, Gen) for x in items):
                    raise Incomplete('index into a symbolic list')
                try:
                    v = items[k]
                except IndexError:
                    raise PyRaise(ExcVal('IndexError', (k,)))
                return v
            if isinstance(k, Poly):
                if len(items) == 1 and isinstance(items[0], Gen) and not _gen_mentions(items[0]):
                    return items[0].template
                raise Incomplete(f'list index {k!r}')
            if isinstance(k, Unk):
                return Unk('list[unknown]')
            if isinstance(k, Guard):
                return self.fork(k, lambda: items[1], lambda: items[0])
            if isinstance(k, NotG):
                return self.fork(k.g, lambda: items[0], lambda: items[1])
            raise PyRaise(ExcVal('TypeError', ('list index', repr(k))))
        if isinstance(o, Inst):
            if o.cls.dataclass and o.cls.dataclass.get('namedtuple') and isinstance(k, int):
                return o.box.content[o.cls.dataclass['fields'][k]]
            if o.cls.lookup('__getitem__'):
                return self.call_method(o, '__getitem__', [k])
            raise PyRaise(ExcVal('TypeError', ('not subscriptable',)))
        if isinstance(o, PRange):
            if isinstance(k, int) and all(isinstance(x, int) for x in (o.lo, o.hi, o.step)):
                try:
                    return range(o.lo, o.hi, o.step)[k]
                except IndexError:
                    raise PyRaise(ExcVal('IndexError', ()))
            if isinstance(k, int) and k >= 0:
                return poly.add(o.lo, poly.mul(k, o.step))
        if isinstance(o, (PClass, Tok, Builtin, PModule, ExcClass)):
            if isinstance(o, PClass) and getattr(o, 'enum', False):
                return o.box.content[k]
            return Unk('type subscript')
        if isinstance(o, PModule):
            return Unk('module item')
        if o is None:
            raise PyRaise(ExcVal('TypeError', ('NoneType is not subscriptable',)))
        raise Incomplete(f'subscript of {o!r}')

    def _idx(self, x):
        x = self.resolve(x)
        if isinstance(x, TObj):
            return self.torchlib.as_index(self, x)
        return x

    def setitem(self, o, k, v):
        return self.lift(lambda a, b: self._setitem(a, b, v), o, k)

    def _setitem(self, o, k, v):
        if isinstance(o, TObj):
            return self.torchlib.t_setitem(self, o, k, v)
        if isinstance(o, PDict):
            c = dict(o.d)
            c[hkey(k)] = (k, v)
            o.box.content = c
            return None
        if isinstance(o, PList):
            if isinstance(k, int):
                c = list(o.items)
                if any(isinstance(x, Gen) for x in c):
                    raise Incomplete('store into a symbolic list')
                try:
                    c[k] = v
                except IndexError:
                    raise PyRaise(ExcVal('IndexError', (k,)))
                o.box.content = c
                return None
            if isinstance(k, slice) and all(x is None or isinstance(x, int) for x in (k.start, k.stop, k.step)):
                c = list(o.items)
                c[k] = self.iterate(v)
                o.box.content = c
                return None
            raise Incomplete(f'list store at {k!r}')
        if isinstance(o, Inst):
            return self.call_method(o, '__setitem__', [k, v])
        if isinstance(o, Unk):
            return None
        if isinstance(o, PModule):
            return None
        if isinstance(o, tuple):
            raise PyRaise(ExcVal('TypeError', ('tuple assignment',)))
        raise Incomplete(f'item store on {o!r}')

    # ------------------------------------------------------------ attributes
    def e_Attribute(self, e, fr):
        o = self.eval(e.value, fr)
        return self.getattr(o, e.attr)

    def getattr(self, o, name, default=None):
        o = self.resolve(o)
        if isinstance(o, Phi):
            return self.lift(lambda x: self.getattr(x, name, default), o)
        if isinstance(o, Inst):
            c = o.box.content
            cv = o.cls.lookup(name)
            if isinstance(cv, Descr) and cv.kind == 'property':
                return self.call(cv.f, [o], {})
            if name in c:
                v = self.resolve(c[name])
                if isinstance(v, Phi) and (v.a is UNDEF or v.b is UNDEF):
                    return self.undef_phi(v, name)
                if v is UNDEF:
                    raise PyRaise(ExcVal('AttributeError', (name,)))
                return v
            if cv is not None or any(name in k.box.content for k in o.cls.mro):
                if isinstance(cv, PFunc) or isinstance(cv, Builtin):
                    return Bound(cv, o)
                if isinstance(cv, Descr):
                    if cv.kind == 'static':
                        return cv.f
                    if cv.kind == 'class':
                        return Bound(cv.f, o.cls)
                    if cv.kind == 'cached':
                        v = self.call(cv.f, [o], {})
                        self.setvar(o.box, name, v)
                        return v
                return cv
            if name == '__class__':
                return o.cls
            if name == '__dict__':
                return attr_dict(o)
            if o.cls.lookup('__getattr__'):
                return self.call_method(o, '__getattr__', [name])
            if o.cls.dataclass and o.cls.dataclass.get('namedtuple') and name in ('_asdict', '_replace'):
                raise Incomplete('namedtuple method')
            if default is not None:
                return default[0]
            h = getattr(o.cls, 'host', None)
            if h:
                r = h(self, o, name)
                if r is not None:
                    return r
            raise PyRaise(ExcVal('AttributeError', (o.cls.name, name)))
        if isinstance(o, PModule):
            c = o.box.content
            if name in c:
                return c[name]
            if o.dynamic is not None:
                v = o.dynamic(name)
                if isinstance(v, Unk):
                    self.unmodelled[v.why] = self.unmodelled.get(v.why, 0) + 1
                self.setvar(o.box, name, v)
                return v
            sub = o.name + '.' + name
            if o.name.split('.')[0] == self.package and sub in self.modules:
                return self.modules[sub]
            if default is not None:
                return default[0]
            raise PyRaise(ExcVal('AttributeError', (o.name, name)))
        if isinstance(o, PClass):
            v = o.lookup(name)
            if v is not None or any(name in k.box.content for k in o.mro):
                if isinstance(v, Descr):
                    if v.kind == 'static':
                        return v.f
                    if v.kind == 'class':
                        return Bound(v.f, o)
                return v
            if name in ('__name__', '__qualname__'):
                return o.name
            if name == '__mro__':
                return tuple(o.mro)
            if name == '__dataclass_fields__' and o.dataclass:
                return PDict({f: (f, Unk('field')) for f in o.dataclass['fields']})
            if name == '__dict__':
                return attr_dict(o)
            if name == '__new__':
                return Builtin('__new__', lambda I, a, k: Inst(a[0]))
            if name == '__members__' and getattr(o, 'enum', False):
                return PDict({v.box.content['name']: (v.box.content['name'], v) for v in o.box.content.values() if isinstance(v, Inst)})
            if default is not None:
                return default[0]
            raise PyRaise(ExcVal('AttributeError', (o.name, name)))
        if isinstance(o, TObj):
            return self.torchlib.t_getattr(self, o, name, default)
        if isinstance(o, Unk):
            return Unk(f'{o.why}.{name}')
        if isinstance(o, PFunc):
            if name in o.attrs.content:
                return o.attrs.content[name]
            if name in ('__name__', '__qualname__'):
                return o.name
            if name == '__doc__':
                return ast.get_docstring(o.node) if isinstance(o.node, ast.FunctionDef) else None
            if name == '__wrapped__' or default is None:
                raise PyRaise(ExcVal('AttributeError', (name,)))
            return default[0]
        if isinstance(o, Bound):
            if name == '__self__':
                return o.self
            if name == '__func__':
                return o.func
            return self.getattr(o.func, name, default)
        r = self.pylib.getattr_builtin(self, o, name)
        if r is not None:
            return r
        if default is not None:
            return default[0]
        raise PyRaise(ExcVal('AttributeError', (repr(o), name)))

    def setattr(self, o, name, v):
        o = self.resolve(o)
        if isinstance(o, Phi):
            self.lift(lambda x: self.setattr(x, name, v), o)
            return
        if isinstance(o, Inst):
            cv = o.cls.lookup(name)
            if isinstance(cv, Descr) and cv.kind == 'property':
                if cv.setter is None:
                    raise PyRaise(ExcVal('AttributeError', (name,)))
                self.call(cv.setter, [o, v], {})
                return
            if o.cls.dataclass and o.cls.dataclass.get('frozen'):
                raise PyRaise(ExcVal('AttributeError', ('frozen', name)))
            sa = o.cls.lookup('__setattr__')
            if isinstance(sa, PFunc):
                self.call(sa, [o, name, v], {})
                return
            self.setvar(o.box, name, v)
        elif isinstance(o, (PModule,)):
            self.setvar(o.box, name, v)
            if o.name == 'builtins' and name in self.builtins:
                pass
        elif isinstance(o, PClass):
            self.setvar(o.box, name, v)
        elif isinstance(o, PFunc):
            self.setvar(o.attrs, name, v)
        elif isinstance(o, TObj):
            self.torchlib.t_setattr(self, o, name, v)
        elif isinstance(o, (Unk, Builtin, Tok)):
            pass
        else:
            raise Incomplete(f'attribute store on {o!r}')

    # ------------------------------------------------------------------ calls
    def e_Call(self, e, fr):
        # super()
        if isinstance(e.func, ast.Name) and e.func.id == 'super' and not e.args:
            return self.make_super(fr)
        f = self.eval(e.func, fr)
        args = self.eval_seq(e.args, fr)
        kw = {}
        for k in e.keywords:
            if k.arg is None:
                d = self.resolve(self.eval(k.value, fr))
                if isinstance(d, PDict):
                    for kk, vv in d.d.values():
                        kw[kk] = vv
                else:
                    raise Incomplete('** of non dict')
            else:
                kw[k.arg] = self.eval(k.value, fr)
        if any(isinstance(a, Gen) for a in args):
            args = [a for a in args]
        if isinstance(f, Builtin) and f.name in ('locals', 'globals', 'vars') and not args:
            if f.name == 'globals':
                return PDict({k: (k, v) for k, v in fr.module.box.content.items()})
            return PDict({k: (k, v) for k, v in fr.vars.content.items()})
        return self.call(f, args, kw)

    def make_super(self, fr):
        f = fr
        while f is not None and (f.func is None or f.func.owner is None):
            f = f.parent
        if f is None:
            raise Incomplete('super() outside a method')
        owner = f.func.owner
        node = f.func.node
        selfname = node.args.args[0].arg if node.args.args else None
        return SuperObj(owner, f.vars.content[selfname])

    def call_method(self, o, name, args, kw=None):
        return self.call(self.getattr(o, name), args, kw or {})

    def call(self, f, args, kw):
        f = self.resolve(f)
        if isinstance(f, Phi):
            return self.lift(lambda g: self.call(g, args, kw), f)
        if isinstance(f, Bound):
            if isinstance(f.func, (Builtin,)):
                return f.func.fn(self, [f.self] + list(args), kw)
            return self.call(f.func, [f.self] + list(args), kw)
        if isinstance(f, PFunc):
            h = self.hooks.get(f)
            if h is not None:
                return h(self, f, list(args), dict(kw), lambda: self.call_func(f, args, kw))
            return self.call_func(f, args, kw)
        if isinstance(f, Builtin):
            return f.fn(self, list(args), dict(kw))
        if isinstance(f, PClass):
            return self.instantiate(f, args, kw)
        if isinstance(f, ExcClass):
            return ExcVal(f.name, tuple(args))
        if isinstance(f, Inst):
            if f.cls.lookup('__call__'):
                return self.call_method(f, '__call__', args, kw)
            raise PyRaise(ExcVal('TypeError', ('not callable', f.cls.name)))
        if isinstance(f, Unk):
            self.unmodelled[f.why + '()'] = self.unmodelled.get(f.why + '()', 0) + 1
            return Unk(f.why + '()')
        if isinstance(f, Tok):
            return Unk(f.name + '()')
        if isinstance(f, Descr) and f.kind in ('static', 'class'):
            return self.call(f.f, args, kw)
        raise PyRaise(ExcVal('TypeError', ('not callable', repr(f))))

    def instantiate(self, c, args, kw):
        if getattr(c, 'excbase', None):
            i = Inst(c)
            return ExcVal(c.name, tuple(args))
        if getattr(c, 'enum', False):
            for v in c.box.content.values():
                if isinstance(v, Inst) and v.cls is c and self.cmp('==', v.box.content['value'], args[0]) is True:
                    return v
            raise PyRaise(ExcVal('ValueError', ()))
        for k in c.mro:
            for n, v in k.box.content.items():
                if isinstance(v, PFunc) and v.attrs.content.get('__isabstract__') and c.lookup(n) is v:
                    raise PyRaise(ExcVal('TypeError', ('abstract class', c.name, n)))
        h = getattr(c, 'construct', None)
        if h:
            return h(self, c, args, kw)
        i = Inst(c)
        init = c.lookup('__init__')
        if init is not None:
            self.call(init, [i] + list(args), kw)
        elif c.dataclass:
            self.pylib.dataclass_init(self, i, args, kw)
        elif args or kw:
            raise PyRaise(ExcVal('TypeError', ('constructor takes no arguments', c.name)))
        return i

    def bind(self, f, args, kw):
        a = f.node.args
        params = [p.arg for p in a.posonlyargs + a.args]
        vals = {}
        kw = dict(kw)
        if any(isinstance(x, Gen) for x in args) and not a.vararg:
            raise Incomplete('call with symbolic argument list')
        for p, v in zip(params, args):
            vals[p] = v
        extra = list(args[len(params):])
        if extra:
            if a.vararg is None:
                raise PyRaise(ExcVal('TypeError', ('too many arguments', f.qual)))
        if a.vararg is not None:
            vals[a.vararg.arg] = tuple(extra)
        for p in params[len(args):]:
            if p in kw:
                vals[p] = kw.pop(p)
        for p in params[:len(args)]:
            if p in kw:
                raise PyRaise(ExcVal('TypeError', ('multiple values', p, f.qual)))
        nd = len(f.defaults)
        for p, d in zip(params[len(params) - nd:], f.defaults):
            if p not in vals:
                vals[p] = d
        for p in a.kwonlyargs:
            if p.arg in kw:
                vals[p.arg] = kw.pop(p.arg)
            elif p.arg in f.kwdefaults:
                vals[p.arg] = f.kwdefaults[p.arg]
            else:
                raise PyRaise(ExcVal('TypeError', ('missing', p.arg, f.qual)))
        for p in params:
            if p not in vals:
                raise PyRaise(ExcVal('TypeError', ('missing argument', p, f.qual)))
        if a.kwarg is not None:
            vals[a.kwarg.arg] = PDict({k: (k, v) for k, v in kw.items()})
        elif kw:
            raise PyRaise(ExcVal('TypeError', ('unexpected argument', tuple(kw), f.qual)))
        return vals

    def is_gen(self, f):
        if f.isgen is None:
            def walk(n):
                for c in ast.iter_child_nodes(n):
                    if isinstance(c, (ast.FunctionDef, ast.Lambda, ast.ClassDef)):
                        continue
                    if isinstance(c, (ast.Yield, ast.YieldFrom)):
                        return True
                    if walk(c):
                        return True
                return False
            f.isgen = walk(f.node)
        return f.isgen

    def call_func(self, f, args, kw):
        self.calls[f.qual] = self.calls.get(f.qual, 0) + 1
        if self.depth > 300:
            raise Incomplete(f'call depth exceeded in {f.qual}')
        vals = self.bind(f, args, kw)
        fr = Frame(f.module, f.frame, f)
        fr.vars.content = vals
        if isinstance(f.node, ast.Lambda):
            self.depth += 1
            try:
                return self.eval(f.node.body, fr)
            finally:
                self.depth -= 1
        if self.is_gen(f):
            fr.yields = PList([])
        assume0 = self.assume
        self.depth += 1
        try:
            normal, exits = self.exec_block(f.node.body, fr)
        finally:
            self.depth -= 1
        rets = [e for e in exits if e.kind == 'return']
        raises = [e for e in exits if e.kind == 'raise']
        if normal:
            if rets or raises:
                s = self.snap()
                rets.append(Exit('return', None, s, s.assume))
            else:
                self.assume = assume0 if all(k in assume0 for k in self.assume) else self.assume
                return fr.yields if fr.yields is not None else None
        if not rets:
            # definite raise
            if len(raises) == 1:
                e = raises[0]
                if e.state is not None:
                    self.restore(e.state)
                exc = PyRaise(e.val)
                raise exc
            for e in raises:
                if e.state is None:
                    e.state, e.assume = self.snap(), self.assume
            self.pending.extend(raises[:-1])
            self.restore(raises[-1].state)
            raise PyRaise(raises[-1].val)
        if len(rets) == 1 and rets[0].state is None and not raises:
            return fr.yields if fr.yields is not None else rets[0].val
        for e in rets + raises:
            if e.state is None:
                e.state, e.assume = self.snap(), self.assume
        self.pending.extend(raises)
        v = self.join_exits(rets, assume0)
        if not raises:
            self.assume = assume0
        else:
            self.assume = self._common_list([e.state.assume for e in rets], assume0)
        return fr.yields if fr.yields is not None else v

    def _common_list(self, ds, base):
        r = dict(base)
        for k, v in ds[0].items():
            if all(d.get(k) == v for d in ds):
                r[k] = v
        return r

    def e_Yield(self, e, fr):
        v = self.eval(e.value, fr) if e.value else None
        f = fr
        while f.yields is None and f.parent is not None:
            f = f.parent
        f.yields.box.content = list(f.yields.items) + [v]
        return None

    def e_YieldFrom(self, e, fr):
        items = self.iterate(self.eval(e.value, fr))
        fr.yields.box.content = list(fr.yields.items) + items
        return None

    # ----------------------------------------------------------- comprehension
    def comp(self, gens, fr, emit):
        """run comprehension generators; emit(frame) appends; symbolic loops wrap results in Gen"""
        cf = Frame(fr.module, fr if not fr.isclass else fr, None)
        cf.cls = fr.cls
        out = []

        def go(i, loops):
            if i == len(gens):
                v = emit(cf)
                out.append(Gen(v, loops) if loops else v)
                return
            g = gens[i]
            it = self.eval(g.iter, cf if i else fr)
            for x in self.iter_items(it):
                if isinstance(x, Gen):
                    self.assign(g.target, x.template, cf)
                    nl = loops + x.loops
                else:
                    self.assign(g.target, x, cf)
                    nl = loops
                self.ifs(g.ifs, cf, lambda: go(i + 1, nl), 0)
        go(0, ())
        return out

    def ifs(self, conds, cf, k, i):
        if i == len(conds):
            k()
            return
        c = self.resolve(self.eval(conds[i], cf))
        t = self.truth(c) if not isinstance(c, Phi) else c
        if t is True:
            self.ifs(conds, cf, k, i + 1)
        elif t is False:
            return
        else:
            raise Incomplete('comprehension filter with an unknown condition')

    def e_ListComp(self, e, fr):
        return PList(self.comp(e.generators, fr, lambda cf: self.eval(e.elt, cf)))

    def e_GeneratorExp(self, e, fr):
        return PList(self.comp(e.generators, fr, lambda cf: self.eval(e.elt, cf)))

    def e_SetComp(self, e, fr):
        return PSet({hkey(v): v for v in self.comp(e.generators, fr, lambda cf: self.eval(e.elt, cf))})

    def e_DictComp(self, e, fr):
        items = self.comp(e.generators, fr, lambda cf: (self.eval(e.key, cf), self.eval(e.value, cf)))
        if any(isinstance(x, Gen) for x in items):
            raise Incomplete('dict comprehension over a symbolic range')
        return PDict({hkey(k): (k, v) for k, v in items})

    # ------------------------------------------------------------------ match
    def x_Match(self, st, fr):
        subj = self.eval(st.subject, fr)
        return self.match(subj, st.cases, 0, fr)

    def match(self, subj, cases, i, fr):
        subj = self.resolve(subj)
        if isinstance(subj, Phi):
            return self.branch_on(subj.guard, lambda: self.match(subj.a, cases, i, fr), lambda: self.match(subj.b, cases, i, fr))
        if i == len(cases):
            return True, []
        c = cases[i]
        r = self.pat(c.pattern, subj, fr)

        def body():
            if c.guard is not None:
                return self.branch(self.eval(c.guard, fr), lambda: self.exec_block(c.body, fr),
                                   lambda: self.match(subj, cases, i + 1, fr))
            return self.exec_block(c.body, fr)
        if r is True:
            return body()
        if r is False:
            return self.match(subj, cases, i + 1, fr)
        return self.branch(r, body, lambda: self.match(subj, cases, i + 1, fr))

    def pat(self, p, v, fr):
        if isinstance(p, ast.MatchValue):
            return self.lift(lambda a, b: self.cmp('==', a, b), v, self.eval(p.value, fr))
        if isinstance(p, ast.MatchSingleton):
            return self.identical(v, p.value)
        if isinstance(p, ast.MatchOr):
            res = False
            for q in p.patterns:
                r = self.pat(q, v, fr)
                if r is True:
                    return True
                if r is not False:
                    res = r
            return res
        if isinstance(p, ast.MatchAs):
            r = True if p.pattern is None else self.pat(p.pattern, v, fr)
            if p.name and r is not False:
                self.store_name(p.name, v, fr)
            return r
        if isinstance(p, ast.MatchSequence):
            if not isinstance(v, (tuple, PList)):
                return False
            items = list(v) if isinstance(v, tuple) else v.items
            star = [j for j, q in enumerate(p.patterns) if isinstance(q, ast.MatchStar)]
            if not star:
                if len(items) != len(p.patterns):
                    return False
                res = True
                for q, x in zip(p.patterns, items):
                    r = self.pat(q, self.resolve(x), fr)
                    if r is False:
                        return False
                    if r is not True:
                        res = r
                return res
        if isinstance(p, ast.MatchClass):
            cls = self.eval(p.cls, fr)
            r = self.pylib.isinstance_(self, v, cls)
            if r is not True:
                return r
            if p.patterns:
                raise Incomplete('class pattern')
            for a, q in zip(p.kwd_attrs, p.kwd_patterns):
                r = self.pat(q, self.getattr(v, a), fr)
                if r is not True:
                    return r
            return True
        raise Incomplete('match pattern')


def _gen_mentions(g):
    return g.template is not None and isinstance(g.template, Poly)


class NotG:
    """negated guard"""
    __slots__ = ('g',)

    def __init__(self, g):
        self.g = g

    def __repr__(self):
        return f'not {self.g}'


class SuperObj:
    __slots__ = ('cls', 'obj')

    def __init__(self, cls, obj):
        self.cls, self.obj = cls, obj


_un = [0]


def uidname():
    _un[0] += 1
    return f'loop{_un[0]}'
