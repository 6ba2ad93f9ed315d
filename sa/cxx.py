"""Abstract interpretation of the C++ sources (csrc): clang's syntax tree of the instantiated program, interpreted over the same
tensor-network terms as the Python sources.  Nothing is executed; cuTENSOR, cuSOLVER and the tensor library are modelled."""
import ast
import json
import os
import re
import subprocess
import tempfile
from . import poly, tnet, pylib, torchlib
from .poly import Poly
from .tnet import Incomplete, Guard
from .objects import *
from .interp import PyRaise, NotG

NS = 'acetn_src'
SITE = '/opt/venv/lib/python3.12/site-packages'
SKIP = {'AccessSpecDecl', 'UsingDecl', 'UsingShadowDecl', 'TypedefDecl', 'TypeAliasDecl', 'EnumDecl', 'NullStmt', 'EmptyDecl', 'StaticAssertDecl',
        'UsingDirectiveDecl', 'CXXRecordDecl', 'FriendDecl', 'FunctionDecl', 'NamespaceAliasDecl', 'TypeAliasTemplateDecl'}


# ------------------------------------------------------------------- syntax tree

def sources(root):
    src = os.path.join(root, 'csrc')
    out = [os.path.join(d, f) for d, _, fs in os.walk(src) for f in fs]
    return src, sorted(f for f in out if f.endswith(('.cpp', '.cc', '.cxx'))), sorted(f for f in out if f.endswith(('.h', '.hpp', '.cuh')))


def flags(src):
    dirs = sorted({d for d, _, _ in os.walk(src)})
    inc = [src] + [d for d in dirs if d != src]
    sysinc = ['cutensor/include', 'nvidia/cu13/include', 'torch/include', 'torch/include/torch/csrc/api/include']
    return ['-std=c++20', '-w'] + [x for d in inc for x in ('-I', d)] + [x for d in sysinc for x in ('-isystem', f'{SITE}/{d}')] + [
        '-isystem', '/usr/include/python3.12', '-DTORCH_EXTENSION_NAME=_C_cutensor', '-DTORCH_API_INCLUDE_EXTENSION_H']


def dump(src, cpps, headers):
    """syntax tree of the sources, each in the namespace acetn_src, so that clang prints what they declare and nothing else"""
    incl = []
    for f in headers + cpps:
        for m in re.findall(r'^\s*#\s*include\s*(<[^>]+>)', open(f, errors='replace').read(), re.M):
            if m not in incl:
                incl.append(m)
    with tempfile.TemporaryDirectory() as d:
        tu = os.path.join(d, 'all.cpp')
        with open(tu, 'w') as f:
            f.write(''.join(f'#include {m}\n' for m in incl) + f'namespace {NS} {{\n' + ''.join(f'#include "{c}"\n' for c in cpps) + '}\n')
        p = subprocess.run(['clang++'] + flags(src) + ['-fsyntax-only', '-Xclang', '-ast-dump=json', '-Xclang', f'-ast-dump-filter={NS}', tu],
                           capture_output=True, text=True)
    if p.returncode:
        raise Incomplete('clang cannot parse the C++ sources: ' + p.stderr[-800:])
    t, i, dec, out = p.stdout, 0, json.JSONDecoder(), []
    while True:
        i = t.find('{', i)
        if i < 0:
            return out
        o, i = dec.raw_decode(t, i)
        out.append(o)


def norm_type(t):
    t = re.sub(r'\b(struct|class|enum|const|volatile|typename)\b', '', t)
    t = t.replace(f'{NS}::', '')
    return re.sub(r'\s+', '', t).rstrip('&*') if not t.rstrip().endswith('*') else re.sub(r'\s+', '', t)


def ty(e):
    t = e.get('type') or {}
    return t.get('desugaredQualType', t.get('qualType', ''))


class Program:
    def __init__(self, root):
        src, cpps, headers = sources(root)
        if not cpps:
            raise Incomplete('no C++ sources')
        self.by_id, self.defs, self.records, self.owner, self.tbind = {}, {}, {}, {}, {}
        self.texts = [open(f, 'rb').read() for f in cpps + headers]
        self.spec_count = 0
        for o in dump(src, cpps, headers):
            self.index(o, None, (), {})
        self.loc = {}

    def text(self, e):
        """candidate spellings of an expression"""
        r = e.get('range', {})
        b, n = r.get('begin', {}), r.get('end', {})
        b, n = (x.get('expansionLoc', x) for x in (b, n))
        if 'offset' in b and 'offset' in n:
            for t in self.texts:
                yield t[b['offset']:n['offset'] + n.get('tokLen', 0)].decode(errors='replace')

    def index(self, x, rec, tparams, bind):
        k = x.get('kind')
        if k in ('FunctionTemplateDecl', 'ClassTemplateDecl', 'VarTemplateDecl'):
            tparams = [c.get('name') for c in inner(x) if c.get('kind') in ('TemplateTypeParmDecl', 'NonTypeTemplateParmDecl')]
        elif k and k.endswith('Decl'):
            ta = [c for c in inner(x) if c.get('kind') == 'TemplateArgument']
            if ta and tparams:
                bind = {**bind, **{n: norm_type(ty(a)) if 'type' in a else str(a.get('value')) for n, a in zip(tparams, ta)}}
            if 'id' in x and bind:
                self.tbind[x['id']] = bind
            tparams = ()
        if 'id' in x and k and k.endswith('Decl'):
            self.by_id.setdefault(x['id'], x)
        if k in ('FunctionDecl', 'CXXMethodDecl', 'CXXConstructorDecl', 'CXXDestructorDecl', 'CXXConversionDecl'):
            if rec is not None:
                self.owner[x['id']] = rec
            if 'mangledName' in x and self.body(x) is not None:
                self.defs.setdefault(x['mangledName'], x)
        if k in ('CXXRecordDecl', 'ClassTemplateSpecializationDecl') and x.get('name') and x.get('inner'):
            n = x['name']
            if k == 'ClassTemplateSpecializationDecl':
                args = [a for a in x['inner'] if a.get('kind') == 'TemplateArgument']
                n += '<' + ','.join(norm_type(ty(a)) if 'type' in a else str(a.get('value')) for a in args) + '>'
            if x.get('completeDefinition') or any(i.get('kind') == 'FieldDecl' for i in x['inner']):
                self.records.setdefault(norm_type(n), x)
            rec = x
        for v in x.get('inner', ()):
            if v:
                self.index(v, rec, tparams, bind)

    @staticmethod
    def body(d):
        for v in d.get('inner', ()):
            if v and v.get('kind') in ('CompoundStmt', 'CXXTryStmt'):
                return v
        return None

    def definition(self, i):
        d = self.by_id.get(i)
        if d is None:
            return None
        if self.body(d) is None and 'mangledName' in d:
            return self.defs.get(d['mangledName'])
        return d if self.body(d) is not None else None

    def record(self, t):
        return self.records.get(norm_type(t))


def inner(e):
    return [v for v in e.get('inner', ()) if v]


def args_of(e):
    """template arguments of a printed type"""
    i = e.find('<')
    if i < 0:
        return []
    depth, cur, out = 0, '', []
    for c in e[i + 1:]:
        if c == '<':
            depth += 1
        if c == '>':
            if depth == 0:
                out.append(cur.strip())
                return out
            depth -= 1
        if c == ',' and depth == 0:
            out.append(cur.strip())
            cur = ''
        else:
            cur += c
    return out


# ------------------------------------------------------------------------ values

class Cell:
    __slots__ = ('v',)

    def __init__(self, v):
        self.v = v

    def get(self):
        return self.v

    def set(self, v):
        self.v = v


class Elem:
    """element of a vector or map"""
    __slots__ = ('c', 'k')

    def __init__(self, c, k):
        self.c, self.k = c, k

    def get(self):
        return self.c[self.k]

    def set(self, v):
        self.c[self.k] = v


REFS = (Cell, Elem)


class Ptr:
    __slots__ = ('ref',)

    def __init__(self, ref):
        self.ref = ref


class CObj:
    def __init__(self, rec, tname):
        self.rec, self.tname, self.f = rec, tname, {}


class CVec:
    def __init__(self, items, elem=''):
        self.items, self.elem = list(items), elem

    def __getitem__(self, i):
        return self.items[i]

    def __setitem__(self, i, v):
        self.items[i] = v


class CMap:
    def __init__(self, elem=''):
        self.d, self.elem = {}, elem

    def __getitem__(self, k):
        return self.d[k]

    def __setitem__(self, k, v):
        self.d[k] = v


class MapIter:
    def __init__(self, m, k):
        self.m, self.k = m, k


class VecIter:
    def __init__(self, v, i):
        self.v, self.i = v, i


class Enum:
    __slots__ = ('name', 'value')

    def __init__(self, name, value=None):
        self.name, self.value = name, value

    def __eq__(self, o):
        return isinstance(o, Enum) and o.name == self.name

    def __hash__(self):
        return hash(self.name)

    def __repr__(self):
        return self.name


class Opts:
    def __init__(self, dtype=None, device=None):
        self.dtype, self.device = dtype, device


class Mem:
    """address of the memory of a tensor"""
    __slots__ = ('t',)

    def __init__(self, t):
        self.t = t


class Lambda:
    def __init__(self, decl, frame, this):
        self.decl, self.frame, self.this = decl, frame, this


class Func:
    def __init__(self, decl):
        self.decl = decl


class Desc:
    """an object of cuTENSOR"""
    def __init__(self, kind, **a):
        self.kind = kind
        self.__dict__.update(a)


class Handle:
    def __init__(self, name):
        self.name = name


class Nullopt:
    pass


class PyMod:
    def __init__(self):
        self.defs = {}


class ArgName:
    def __init__(self, name):
        self.name, self.default = name, None


class Undefd:
    """an undefined tensor or an uninitialised scalar"""
    def __repr__(self):
        return '<uninitialised>'


NULLOPT, UNINIT = Nullopt(), Undefd()


class Thrown(Exception):
    def __init__(self, v):
        self.v = v


class Ret(Exception):
    def __init__(self, v):
        self.v = v


class Brk(Exception):
    pass


class Cont(Exception):
    pass


SCALAR = {'Double': 'float64', 'Float': 'float32', 'ComplexDouble': 'complex128', 'ComplexFloat': 'complex64', 'Int': 'int32', 'Long': 'int64',
          'Byte': 'uint8', 'Char': 'int8', 'Short': 'int16', 'Half': 'float16', 'BFloat16': 'bfloat16', 'Bool': 'bool'}
KNAMES = {'kFloat32': 'float32', 'kFloat': 'float32', 'kFloat64': 'float64', 'kDouble': 'float64', 'kComplexFloat': 'complex64', 'kComplexDouble': 'complex128',
          'kInt32': 'int32', 'kInt': 'int32', 'kInt64': 'int64', 'kLong': 'int64', 'kByte': 'uint8', 'kUInt8': 'uint8', 'kBool': 'bool'}
DATA = {'float32': 'CUTENSOR_R_32F', 'float64': 'CUTENSOR_R_64F', 'complex64': 'CUTENSOR_C_32F', 'complex128': 'CUTENSOR_C_64F'}
CXXNAME = {'float': 'float32', 'double': 'float64', 'c10::complex<float>': 'complex64', 'c10::complex<double>': 'complex128', 'int': 'int32', 'long': 'int64',
           'std::complex<float>': 'complex64', 'std::complex<double>': 'complex128'}
BINOP = {'+': ast.Add, '-': ast.Sub, '*': ast.Mult, '/': ast.Div, '%': ast.Mod}
NUM = (int, float, complex, Poly)


class Frame:
    def __init__(self, parent=None, this=None):
        self.vars, self.parent, self.this = {}, parent, this

    def find(self, i):
        f = self
        while f is not None:
            if i in f.vars:
                return f.vars[i]
            f = f.parent
        return None


class Cxx:
    """interpreter of the program on behalf of the Python interpreter I; workspace: bytes every contraction plan asks for;
    no_room: the first allocation of a workspace fails"""
    def __init__(self, prog, I, workspace=0, no_room=False):
        self.p, self.I, self.workspace, self.no_room = prog, I, workspace, no_room
        self.statics, self.calls, self.depth, self.keep, self.lays, self.guards = {}, {}, 0, [], {}, []
        self.contractions, self.stack, self.decls, self.factors, self.estimates = 0, [], [], {}, []

    # ------------------------------------------------------------ tensors

    def lay(self, t, how=None, conj=None):
        """layout of the memory of a tensor: c = row major, f = column major (two legs), None = not known; and whether the memory
        holds the complex conjugate of the value"""
        if how is not None or conj is not None:
            self.keep.append(t)
            self.lays[id(t)] = (how, bool(conj))
            return t
        return self.lays.get(id(t), ('c' if getattr(t, 'lay', None) == 'c' else None, False))

    def tor(self, name, *a, **k):
        return self.I.call(self.I.getattr(self.I.load('torch'), name), [self.py(x) for x in a], {n: self.py(x) for n, x in k.items()})

    def py(self, v):
        if isinstance(v, CVec):
            return PList([self.py(x) for x in v.items])
        if isinstance(v, (list, tuple)):
            return PList([self.py(x) for x in v])
        if v is NULLOPT:
            return None
        if v is UNINIT:
            raise Thrown(ExcVal('RuntimeError', ('use of an undefined tensor',)))
        return v

    def meth(self, t, name, *a, **k):
        return self.I.call_method(t, name, [self.py(x) for x in a], {n: self.py(x) for n, x in k.items()})

    # --------------------------------------------------------------- calls

    def call_decl(self, d, args, this=None, frame=None, arg_exprs=None):
        """args: references or values, in order"""
        body = self.p.body(d)
        self.depth += 1
        if self.depth > 200:
            raise Incomplete('deep recursion in the C++ sources')
        q = d.get('name', '?')
        o = self.p.owner.get(d['id'])
        q = f"{o['name']}::{q}" if o is not None and o.get('name') else q
        self.calls['csrc:' + q] = self.calls.get('csrc:' + q, 0) + 1
        self.stack.append(q)
        self.decls.append(d['id'])
        try:
            fr = Frame(frame, this)
            self.bind(d, args, fr)
            for c in inner(d):
                if c.get('kind') == 'CXXCtorInitializer':
                    self.ctor_init(c, this, fr)
            ref = self.returns_ref(d)
            try:
                self.st(body, fr)
            except Ret as r:
                return r.v if ref else self.val(r.v)
            return None
        except Exception as e:
            if getattr(e, 'cxx', None) is None:
                e.cxx = list(self.stack)
            raise
        finally:
            self.depth -= 1
            self.stack.pop()
            self.decls.pop()

    @staticmethod
    def returns_ref(d):
        t = d['type']['qualType']
        i = t.find('->')
        r = t[i + 2:] if i >= 0 and t.startswith('auto') else t.split('(')[0]
        return r.strip().endswith('&')

    def bind(self, d, args, fr):
        ps = [c for c in inner(d) if c.get('kind') == 'ParmVarDecl']
        for i, p in enumerate(ps):
            if i < len(args) and args[i] is not None:
                a = args[i]
            else:
                e = self.default_of(d, i)
                if e is None:
                    raise Incomplete(f'missing argument {p.get("name")} of {d.get("name")}')
                a = self.lv(e, fr)
            q = p['type']['qualType']
            if q.rstrip().endswith('&'):
                fr.vars[p['id']] = a if isinstance(a, REFS) else Cell(a)
            else:
                fr.vars[p['id']] = Cell(self.copy(self.val(a)))

    def default_of(self, d, i):
        """default argument i, from whichever declaration states it"""
        same = [d] + [x for x in self.p.by_id.values() if x is not d and 'mangledName' in d and x.get('mangledName') == d['mangledName']]
        for x in same:
            ps = [c for c in inner(x) if c.get('kind') == 'ParmVarDecl']
            if i < len(ps) and inner(ps[i]):
                e = [c for c in inner(ps[i]) if c.get('kind') and not c['kind'].endswith('Attr')]
                if e:
                    return e[0]
        return None

    def ctor_init(self, c, this, fr):
        if 'anyInit' in c:
            fd = c['anyInit']
            e = inner(c)
            if e and e[0].get('kind') == 'CXXDefaultInitExpr':
                f = self.p.by_id.get(fd['id'])
                e = inner(f) if f else []
            if fd['type']['qualType'].rstrip().endswith('&') and e:
                v = self.lv(e[0], fr)
                this.f[fd['name']] = v if isinstance(v, REFS) else Cell(v)
            else:
                this.f[fd['name']] = Cell(self.copy(self.ev(e[0], fr)) if e else self.default_value(fd['type'].get('desugaredQualType', fd['type']['qualType'])))
        elif 'baseInit' in c or 'delegatingInit' in c:
            for e in inner(c):
                self.construct_expr(e, fr, this)

    def construct_expr(self, e, fr, this=None):
        e0 = e
        while e0.get('kind') in ('ExprWithCleanups', 'CXXBindTemporaryExpr', 'MaterializeTemporaryExpr', 'ImplicitCastExpr'):
            e0 = inner(e0)[0]
        return self.construct(ty(e0), [self.lv(a, fr) for a in inner(e0)], e0.get('ctorType', {}).get('qualType'), this)

    def fields(self, rec):
        for c in inner(rec):
            if c.get('kind') == 'FieldDecl':
                yield c

    def construct(self, t, args, ctor=None, this=None):
        rec = self.p.record(t)
        if rec is None:
            raise Incomplete(f'construction of {t}')
        if this is None and len(args) == 1:
            a = self.val(args[0])
            if isinstance(a, CObj) and a.rec is rec:
                return self.copy(a)
        obj = this or CObj(rec, norm_type(t))
        for f in self.fields(rec):
            if f.get('name') and f['name'] not in obj.f:
                e = [c for c in inner(f) if not c['kind'].endswith('Attr')]
                obj.f[f['name']] = Cell(self.copy(self.ev(e[0], Frame(None, obj))) if e else self.default_value(ty(f), True))
        ctors = [c for c in inner(rec) if c.get('kind') == 'CXXConstructorDecl']
        ctors += [v for c in inner(rec) if c.get('kind') == 'FunctionTemplateDecl' for v in inner(c) if v.get('kind') == 'CXXConstructorDecl' and 'mangledName' in v]
        want = re.sub(r'\s*noexcept.*', '', ctor) if ctor else None
        def nreq(c):
            ps = [x for x in inner(c) if x.get('kind') == 'ParmVarDecl']
            return sum(1 for x in ps if not inner(x)), len(ps)
        best = [c for c in ctors if want and re.sub(r'\s*noexcept.*', '', c['type']['qualType']) == want]
        if not best:
            best = [c for c in ctors if nreq(c)[0] <= len(args) <= nreq(c)[1] and not c.get('isImplicit')]
        for c in best:
            d = self.p.definition(c['id'])
            if d is None and any(x.get('kind') == 'CXXCtorInitializer' for x in inner(c)):
                d = c
            if d is not None:
                self.call_decl(d, args, obj)
                return obj
        if args and len(args) <= len(list(self.fields(rec))) and not best:
            for f, a in zip(self.fields(rec), args):     # aggregate
                obj.f[f['name']] = Cell(self.copy(self.val(a)))
            return obj
        if not args:
            return obj
        raise Incomplete(f'constructor of {t} with {len(args)} arguments')

    def default_value(self, t, member=False):
        n = norm_type(t)
        rec = self.p.record(t)
        if rec is not None and not t.rstrip().endswith('*'):
            return self.construct(t, [])
        if t.rstrip().endswith('*'):
            return UNINIT
        for k, f in (('std::vector<', lambda: CVec([], args_of(t)[0])), ('std::array<', lambda: CVec([UNINIT] * int(re.sub(r'\D', '', args_of(t)[1])))),
                     ('std::unordered_map<', lambda: CMap(args_of(t)[1])), ('std::map<', lambda: CMap(args_of(t)[1])),
                     ('std::unique_ptr<', lambda: None), ('std::shared_ptr<', lambda: None), ('std::optional<', lambda: NULLOPT),
                     ('std::basic_string<', lambda: ''), ('std::string', lambda: ''), ('c10::TensorOptions', Opts), ('torch::TensorOptions', Opts),
                     ('std::tuple<', lambda: tuple(self.default_value(a) for a in args_of(t))), ('std::pair<', lambda: tuple(self.default_value(a) for a in args_of(t)))):
            if n.startswith(k.replace(' ', '')) or n == k:
                return f()
        return UNINIT

    def copy(self, v):
        if isinstance(v, CVec):
            return CVec([self.copy(x) for x in v.items], v.elem)
        if isinstance(v, CMap):
            m = CMap(v.elem)
            m.d = {k: self.copy(x) for k, x in v.d.items()}
            return m
        if isinstance(v, CObj):
            o = CObj(v.rec, v.tname)
            o.f = {k: Cell(self.copy(c.get())) for k, c in v.f.items()}
            return o
        if isinstance(v, Opts):
            return Opts(v.dtype, v.device)
        return v

    def val(self, v):
        while isinstance(v, REFS):
            v = v.get()
        return v

    # ---------------------------------------------------------- statements

    def st(self, s, fr):
        k = s['kind']
        f = getattr(self, 's_' + k, None)
        if f is not None:
            return f(s, fr)
        if k in SKIP:
            return None
        self.lv(s, fr)

    def s_CompoundStmt(self, s, fr):
        f = Frame(fr, fr.this)
        for c in inner(s):
            self.st(c, f)

    def s_DeclStmt(self, s, fr):
        for v in inner(s):
            if v['kind'] == 'VarDecl':
                self.declare(v, fr)
            elif v['kind'] == 'DecompositionDecl':
                self.decompose(v, fr)
            elif v['kind'] not in SKIP:
                raise Incomplete(f'declaration {v["kind"]}')

    def declare(self, v, fr):
        if v.get('storageClass') == 'static':
            if v['id'] not in self.statics:
                self.statics[v['id']] = Cell(self.init_of(v, fr))
            fr.vars[v['id']] = self.statics[v['id']]
            return
        e = [c for c in inner(v) if not c['kind'].endswith('Attr')]
        if v['type']['qualType'].rstrip().endswith('&') and e:
            r = self.lv(e[0], fr)
            fr.vars[v['id']] = r if isinstance(r, REFS) else Cell(r)
        else:
            fr.vars[v['id']] = Cell(self.init_of(v, fr))

    def init_of(self, v, fr):
        e = [c for c in inner(v) if not c['kind'].endswith('Attr')]
        if e:
            return self.copy(self.ev(e[0], fr))
        return self.default_value(ty(v))

    def decompose(self, v, fr):
        es = [c for c in inner(v) if c['kind'] not in ('BindingDecl',) and not c['kind'].endswith('Attr')]
        t = self.ev(es[0], fr)
        bs = [c for c in inner(v) if c['kind'] == 'BindingDecl']
        if isinstance(t, CObj):
            items = [t.f[f['name']] for f in self.fields(t.rec)]
        elif isinstance(t, tuple):
            items = [Cell(x) for x in t]
        else:
            raise Incomplete('structured binding')
        for b, x in zip(bs, items):
            fr.vars[b['id']] = x
            for c in inner(b):
                if c['kind'] == 'VarDecl':
                    fr.vars[c['id']] = x

    def s_ReturnStmt(self, s, fr):
        e = inner(s)
        raise Ret(self.lv(e[0], fr) if e else None)

    def test(self, e, fr):
        return self.truth(self.ev(e, fr))

    def truth(self, v):
        if isinstance(v, bool):
            return v
        if v is None or v is NULLOPT:
            return False
        if v is UNINIT:
            raise Thrown(ExcVal('RuntimeError', ('test of an uninitialised value',)))
        if isinstance(v, (int, float, str)):
            return bool(v)
        if isinstance(v, (Ptr, Mem, CObj, Lambda, Handle, Desc)):
            return True
        t = self.I.truth(v)
        if isinstance(t, bool):
            return t
        g = t[1] if isinstance(t, tuple) else t
        self.guards.append(g)
        raise Incomplete(f'condition {t} in the C++ sources is not decided')

    def s_IfStmt(self, s, fr):
        f = Frame(fr, fr.this)
        c = inner(s)
        if s.get('hasInit'):
            self.st(c.pop(0), f)
        if s.get('hasVar'):
            self.st(c.pop(0), f)
        t = self.test(c[0], f)
        if t:
            self.st(c[1], f)
        elif len(c) > 2:
            self.st(c[2], f)

    def loop_body(self, b, fr):
        try:
            self.st(b, fr)
        except Cont:
            pass

    def s_ForStmt(self, s, fr):
        f = Frame(fr, fr.this)
        raw = s.get('inner', [])
        init, _, cond, inc, body = raw
        if init:
            self.st(init, f)
        n = 0
        try:
            while not cond or self.test(cond, f):
                n += 1
                if n > 4000:
                    raise Incomplete('long loop in the C++ sources')
                self.loop_body(body, f)
                if inc:
                    self.lv(inc, f)
        except Brk:
            pass

    def s_WhileStmt(self, s, fr):
        f = Frame(fr, fr.this)
        c = inner(s)
        n = 0
        try:
            while self.test(c[-2], f):
                n += 1
                if n > 4000:
                    raise Incomplete('long loop in the C++ sources')
                self.loop_body(c[-1], f)
        except Brk:
            pass

    def s_DoStmt(self, s, fr):
        b, c = inner(s)
        n = 0
        try:
            while True:
                n += 1
                if n > 4000:
                    raise Incomplete('long loop in the C++ sources')
                self.loop_body(b, fr)
                if not self.test(c, fr):
                    break
        except Brk:
            pass

    def s_CXXForRangeStmt(self, s, fr):
        f = Frame(fr, fr.this)
        c = inner(s)
        ds = [x for x in c if x['kind'] == 'DeclStmt']
        rng = next(v for d in ds for v in inner(d) if v['kind'] == 'VarDecl' and v.get('name', '').startswith('__range'))
        var = [v for d in ds for v in inner(d) if v['kind'] in ('VarDecl', 'DecompositionDecl') and not v.get('name', '').startswith('__')][-1]
        r = self.val(self.lv([x for x in inner(rng)][0], f))
        try:
            for x in self.items(r):
                g = Frame(f, fr.this)
                if var['kind'] == 'DecompositionDecl':
                    for b, y in zip([q for q in inner(var) if q['kind'] == 'BindingDecl'], self.val(x)):
                        g.vars[b['id']] = Cell(y)
                        for q in inner(b):
                            if q['kind'] == 'VarDecl':
                                g.vars[q['id']] = Cell(y)
                elif var['type']['qualType'].rstrip().endswith('&'):
                    g.vars[var['id']] = x if isinstance(x, REFS) else Cell(x)
                else:
                    g.vars[var['id']] = Cell(self.copy(self.val(x)))
                self.loop_body(c[-1], g)
        except Brk:
            pass

    def items(self, r):
        if isinstance(r, str):
            return [ord(x) for x in r]
        if isinstance(r, CVec):
            return [Elem(r, i) for i in range(len(r.items))]
        if isinstance(r, CMap):
            return [(k, v) for k, v in r.d.items()]
        if isinstance(r, (list, tuple)):
            return list(r)
        raise Incomplete(f'loop over {r!r}')

    def s_BreakStmt(self, s, fr):
        raise Brk()

    def s_ContinueStmt(self, s, fr):
        raise Cont()

    def s_SwitchStmt(self, s, fr):
        c = inner(s)
        v = self.ev(c[-2], fr)
        flat = []

        def lay(x):
            if x['kind'] == 'CaseStmt':
                q = inner(x)
                flat.append(('case', q[0]))
                lay(q[-1])
            elif x['kind'] == 'DefaultStmt':
                flat.append(('default', None))
                lay(inner(x)[-1])
            else:
                flat.append(('st', x))
        body = c[-1]
        for x in (inner(body) if body['kind'] == 'CompoundStmt' else [body]):
            lay(x)
        start = next((i for i, (k, e) in enumerate(flat) if k == 'case' and self.same(self.ev(e, fr), v)), None)
        if start is None:
            start = next((i for i, (k, e) in enumerate(flat) if k == 'default'), None)
        if start is None:
            return
        f = Frame(fr, fr.this)
        try:
            for k, e in flat[start:]:
                if k == 'st':
                    self.st(e, f)
        except Brk:
            pass

    def s_CXXTryStmt(self, s, fr):
        c = inner(s)
        try:
            self.st(c[0], fr)
        except (Thrown, PyRaise) as x:
            for h in c[1:]:
                q = inner(h)
                f = Frame(fr, fr.this)
                if q and q[0]['kind'] == 'VarDecl':
                    f.vars[q[0]['id']] = Cell(getattr(x, 'v', None) or getattr(x, 'val', None))
                self.st(q[-1], f)
                return
            raise

    # --------------------------------------------------------- expressions

    def ev(self, e, fr):
        return self.val(self.lv(e, fr))

    def lv(self, e, fr):
        f = getattr(self, 'e_' + e['kind'], None)
        if f is None:
            raise Incomplete(f'C++ construct {e["kind"]}')
        return f(e, fr)

    def _pass(self, e, fr):
        return self.lv(inner(e)[0], fr)

    e_ExprWithCleanups = e_MaterializeTemporaryExpr = e_CXXBindTemporaryExpr = e_ParenExpr = e_ConstantExprInner = _pass
    e_CXXReinterpretCastExpr = e_CXXConstCastExpr = e_CXXStdInitializerListExpr = e_SubstNonTypeTemplateParmExpr = e_CXXRewrittenBinaryOperator = _pass
    e_CXXDynamicCastExpr = e_FullExpr = _pass

    def e_ConstantExpr(self, e, fr):
        if e.get('value') in ('true', 'false'):
            return e['value'] == 'true'
        return self.lv(inner(e)[0], fr)

    def cast(self, e, fr):
        k = e.get('castKind')
        v = self.lv(inner(e)[0], fr)
        if k in ('ToVoid',):
            return None
        if k in ('IntegralToBoolean', 'PointerToBoolean', 'FloatingToBoolean', 'MemberPointerToBoolean'):
            v = self.val(v)
            return self.truth(v)
        if k == 'FloatingToIntegral':
            v = self.val(v)
            if isinstance(v, float):
                return int(v)
            raise Incomplete('integer part of an unknown number')
        if k == 'IntegralToFloating':
            v = self.val(v)
            return float(v) if isinstance(v, int) else v
        if k == 'NullToPointer':
            return None
        return v

    e_ImplicitCastExpr = e_CStyleCastExpr = e_CXXStaticCastExpr = e_CXXFunctionalCastExpr = cast

    def e_DeclRefExpr(self, e, fr):
        r = e['referencedDecl']
        v = fr.find(r['id'])
        if v is not None:
            return v
        if r['kind'] == 'EnumConstantDecl':
            if r['name'] in SCALAR and 'ScalarType' in ty(e):
                return torchlib.DTYPES[SCALAR[r['name']]]
            return Enum(r['name'])
        if r['kind'] in ('FunctionDecl', 'CXXMethodDecl'):
            return Func(r)
        n = r.get('name')
        if n in KNAMES:
            return torchlib.DTYPES[KNAMES[n]]
        if n == 'nullopt':
            return NULLOPT
        if n in ('npos',):
            return -1
        if r['id'] in self.statics:
            return self.statics[r['id']]
        d = self.p.by_id.get(r['id'])
        if d is not None and d['kind'] == 'VarDecl' and inner(d):
            self.statics[r['id']] = Cell(self.init_of(d, Frame()))
            return self.statics[r['id']]
        if n in ('kCUDA', 'kCPU'):
            return torchlib.device('cuda', 0) if n == 'kCUDA' else torchlib.CPU
        if n and n.startswith('CUTENSOR'):
            return Enum(n)
        v = self.trait(e)
        if v is not None:
            return v
        raise Incomplete(f'C++ name {n}')

    def trait(self, e):
        """value of a type trait, from its spelling and the template arguments of the function it stands in"""
        bind = next((self.p.tbind[i] for i in reversed(self.decls) if i in self.p.tbind), {}) if self.decls else {}
        own = self.p.tbind.get(self.decls[-1], {}) if self.decls else {}
        out = set()
        for t in self.p.text(e):
            m = re.fullmatch(r'(?:std::|c10::)?(is_same|is_floating_point|is_complex|is_arithmetic)(?:_v\s*<(.*)>|\s*<(.*)>\s*::\s*value)', t.strip(), re.S)
            if not m:
                continue
            a = [self.subst(x, own or bind) for x in args_of('<' + (m.group(2) or m.group(3)) + '>')]
            if m.group(1) == 'is_same':
                out.add(a[0] == a[1])
            elif m.group(1) == 'is_complex':
                out.add('complex<' in a[0])
            else:
                out.add(a[0] in ('float', 'double') or m.group(1) == 'is_arithmetic' and a[0] in ('int', 'long', 'bool'))
        return out.pop() if len(out) == 1 else None

    @staticmethod
    def subst(t, bind):
        return norm_type(re.sub(r'[A-Za-z_]\w*', lambda m: bind.get(m.group(0), m.group(0)), t))

    def e_IntegerLiteral(self, e, fr):
        return int(e['value'])

    def e_FloatingLiteral(self, e, fr):
        return float(e['value'])

    def e_CXXBoolLiteralExpr(self, e, fr):
        return e['value'] in (True, 'true')

    def e_CharacterLiteral(self, e, fr):
        return int(e['value'])

    def e_StringLiteral(self, e, fr):
        return json.loads(e['value']) if e['value'].startswith('"') else e['value']

    def e_PredefinedExpr(self, e, fr):
        return e.get('name', '')

    def e_CXXNullPtrLiteralExpr(self, e, fr):
        return None

    e_GNUNullExpr = e_CXXNullPtrLiteralExpr

    def e_CXXThisExpr(self, e, fr):
        f = fr
        while f is not None and f.this is None:
            f = f.parent
        return Ptr(Cell(f.this))

    def e_CXXScalarValueInitExpr(self, e, fr):
        return 0

    e_ImplicitValueInitExpr = e_CXXScalarValueInitExpr

    def e_UnaryExprOrTypeTraitExpr(self, e, fr):
        return Handle('sizeof')

    def e_TypeTraitExpr(self, e, fr):
        return bool(e.get('value'))

    def e_CXXDefaultArgExpr(self, e, fr):
        return NotGiven

    def e_CXXThrowExpr(self, e, fr):
        c = inner(e)
        raise Thrown(self.ev(c[0], fr) if c else ExcVal('rethrown', ()))

    def e_InitListExpr(self, e, fr):
        rec = self.p.record(ty(e))
        a = [self.ev(x, fr) for x in inner(e)]
        if rec is not None and not ty(e).rstrip().endswith(']'):
            o = CObj(rec, norm_type(ty(e)))
            for f, x in zip(self.fields(rec), a):
                o.f[f['name']] = Cell(self.copy(x))
            return o
        if len(a) == 1 and not ty(e).rstrip().endswith(']'):
            return a[0]
        return CVec([self.copy(x) for x in a])

    def e_ConditionalOperator(self, e, fr):
        c, a, b = inner(e)
        return self.lv(a if self.test(c, fr) else b, fr)

    def e_LambdaExpr(self, e, fr):
        rec = next(x for x in inner(e) if x['kind'] == 'CXXRecordDecl')
        op = [x for x in inner(rec) if x['kind'] == 'CXXMethodDecl' and x.get('name') == 'operator()']
        for x in inner(rec):
            if x['kind'] == 'FunctionTemplateDecl' and x.get('name') == 'operator()':
                op += [y for y in inner(x) if y['kind'] == 'CXXMethodDecl']
        this = fr
        while this is not None and this.this is None:
            this = this.parent
        return Lambda(op, fr, this.this if this else None)

    def e_UnaryOperator(self, e, fr):
        o = e['opcode']
        c = inner(e)[0]
        if o == '&':
            v = self.lv(c, fr)
            return v if isinstance(v, Func) else Ptr(v if isinstance(v, REFS) else Cell(v))
        if o == '*':
            v = self.ev(c, fr)
            if isinstance(v, Ptr):
                return v.ref
            raise Incomplete('dereference')
        if o == '!':
            return not self.test(c, fr)
        if o in ('++', '--'):
            r = self.lv(c, fr)
            old = r.get()
            r.set(poly.add(old, 1 if o == '++' else -1))
            return old if e.get('isPostfix') else r
        v = self.ev(c, fr)
        if o == '-':
            return self.I.binop(ast.Mult(), -1, v)
        if o == '+':
            return v
        if o == '__extension__':
            return v
        raise Incomplete(f'C++ operator {o}')

    def arith(self, o, a, b, t=''):
        for x in (a, b):
            if x is UNINIT:
                raise Thrown(ExcVal('RuntimeError', ('use of an uninitialised value',)))
        if o == '/' and isinstance(a, int) and isinstance(b, int):
            q = abs(a) // abs(b)
            return q if (a < 0) == (b < 0) else -q
        if o in BINOP:
            if o == '+' and (isinstance(a, str) or isinstance(b, str)):
                return (chr(a) if isinstance(a, int) else str(a)) + (chr(b) if isinstance(b, int) else str(b))
            return self.I.binop(BINOP[o](), a, b)
        if o in ('==', '!='):
            s = self.same(a, b)
            return s if o == '==' else not s if isinstance(s, bool) else NotG(s) if isinstance(s, Guard) else s
        if o in ('<', '>', '<=', '>='):
            return self.I.cmp(o, a, b)
        raise Incomplete(f'C++ operator {o}')

    def same(self, a, b):
        if isinstance(a, (MapIter,)) and isinstance(b, MapIter):
            return a.m is b.m and a.k == b.k
        if isinstance(a, VecIter) and isinstance(b, VecIter):
            return a.v is b.v and a.i == b.i
        if isinstance(a, NUM) and isinstance(b, NUM):
            return self.I.cmp('==', a, b)
        if a is None or b is None:
            return a is b
        if isinstance(a, CVec) and isinstance(b, CVec):
            return len(a.items) == len(b.items) and all(self.truth(self.same(x, y)) for x, y in zip(a.items, b.items))
        if isinstance(a, (str, Enum, Tok, bool)) or isinstance(b, (str, Enum, Tok, bool)):
            if isinstance(a, Enum) and isinstance(b, int) and a.value is not None:
                return a.value == b
            return a == b
        if isinstance(a, TObj) and isinstance(b, TObj):
            return a is b
        raise Incomplete(f'comparison of {a!r} and {b!r}')

    def e_BinaryOperator(self, e, fr):
        o = e['opcode']
        a, b = inner(e)
        if o == '&&':
            return self.test(a, fr) and self.test(b, fr)
        if o == '||':
            return self.test(a, fr) or self.test(b, fr)
        if o == ',':
            self.lv(a, fr)
            return self.lv(b, fr)
        if o == '=':
            v = self.copy(self.ev(b, fr))
            r = self.lv(a, fr)
            r.set(v)
            return r
        return self.arith(o, self.ev(a, fr), self.ev(b, fr), ty(e))

    def e_CompoundAssignOperator(self, e, fr):
        a, b = inner(e)
        v = self.ev(b, fr)
        r = self.lv(a, fr)
        r.set(self.arith(e['opcode'][:-1], r.get(), v))
        return r

    def e_ArraySubscriptExpr(self, e, fr):
        a, b = inner(e)
        return self.element(self.ev(a, fr), self.ev(b, fr))

    def element(self, c, k, t=''):
        if isinstance(c, Ptr) and k == 0:
            return c.ref
        if isinstance(c, CVec):
            if not isinstance(k, int):
                raise Incomplete('unknown subscript')
            if not 0 <= k < len(c.items):
                raise Thrown(ExcVal('IndexError', (f'subscript {k} of {len(c.items)} elements',)))
            return Elem(c, k)
        if isinstance(c, CMap):
            if k not in c.d:
                c.d[k] = self.default_value(c.elem)
            return Elem(c, k)
        if isinstance(c, str) and isinstance(k, int):
            return ord(c[k]) if k < len(c) else 0
        if isinstance(c, TObj):
            return self.lay(self.I.getitem(c, k), None, False)
        raise Incomplete(f'subscript of {c!r}')

    def e_MemberExpr(self, e, fr):
        o = self.ev(inner(e)[0], fr)
        if isinstance(o, Ptr):
            o = self.val(o.ref)
        if isinstance(o, CObj):
            if e['name'] in o.f:
                return o.f[e['name']]
            d = self.p.by_id.get(e.get('referencedMemberDecl'))
            if d is not None and d['kind'] == 'VarDecl':
                if d['id'] not in self.statics:
                    self.statics[d['id']] = Cell(self.init_of(d, Frame()))
                return self.statics[d['id']]
        if isinstance(o, tuple) and e['name'] in ('first', 'second'):
            return o[0 if e['name'] == 'first' else 1]
        raise Incomplete(f'member {e.get("name")} of {o!r}')

    # -------------------------------------------------------- construction

    def e_CXXConstructExpr(self, e, fr):
        t = ty(e)
        a = [self.lv(x, fr) for x in inner(e)]
        a = [x for x in a if x is not NotGiven]
        return self.make(t, a, e.get('ctorType', {}).get('qualType'))

    e_CXXTemporaryObjectExpr = e_CXXUnresolvedConstructExpr = e_CXXConstructExpr

    def e_CXXNewExpr(self, e, fr):
        c = [x for x in inner(e) if x['kind'] in ('CXXConstructExpr', 'InitListExpr')]
        return Ptr(Cell(self.ev(c[0], fr)))

    def e_CXXDeleteExpr(self, e, fr):
        return None

    def make(self, t, a, ctor=None):
        if self.p.record(t) is not None:
            return self.construct(t, a, ctor)
        n = norm_type(t)
        v = [self.val(x) for x in a]
        if n in ('at::Tensor', 'torch::Tensor', 'Tensor'):
            return v[0] if v else UNINIT
        if n.startswith(('c10::ArrayRef', 'at::IntArrayRef', 'c10::IntArrayRef', 'at::ArrayRef', 'c10::OptionalArrayRef')):
            if len(v) == 1:
                return v[0] if isinstance(v[0], CVec) else CVec([v[0]])
            if not v:
                return CVec([])
        if n.startswith(('std::basic_string<', 'std::string', 'std::__cxx11::basic_string')):
            if not v:
                return ''
            if len(v) == 2 and isinstance(v[0], int):
                return chr(v[1]) * v[0]
            if len(v) == 3 and isinstance(v[0], str):
                return v[0][v[1]:v[1] + v[2]]
            if len(v) == 2 and isinstance(v[0], VecIter):
                return ''.join(chr(c) for c in v[0].v.items[v[0].i:v[1].i])
            return chr(v[0]) if isinstance(v[0], int) else v[0]
        if n.startswith(('std::vector<', 'std::array<')):
            el = args_of(t)[0] if args_of(t) else ''
            if not v:
                return CVec([], el)
            if isinstance(v[0], CVec) and len(v) == 1:
                return CVec([self.copy(x) for x in v[0].items], el)
            if isinstance(v[0], VecIter) and len(v) == 2:
                return CVec([self.copy(x) for x in v[0].v.items[v[0].i:v[1].i]], el)
            if isinstance(v[0], int):
                return CVec([self.copy(v[1]) if len(v) > 1 else 0 for _ in range(v[0])], el)
            if isinstance(v[0], Poly):
                raise Incomplete('vector of unknown length')
        if n.startswith(('std::optional<', 'std::nullopt_t')):
            return v[0] if v else NULLOPT
        if n.startswith(('std::unordered_map<', 'std::map<')):
            if not v:
                return CMap(args_of(t)[1])
            if isinstance(v[0], CVec):
                m = CMap(args_of(t)[1])
                for p in v[0].items:
                    m.d[p[0]] = p[1]
                return m
            return self.copy(v[0])
        if n.startswith(('std::unique_ptr<', 'std::shared_ptr<')):
            return v[0] if v else None
        if n.endswith('TensorOptions'):
            o = Opts()
            if v and isinstance(v[0], Tok):
                setattr(o, 'dtype' if v[0].attrs.get('kind') == 'dtype' else 'device', v[0])
            elif v:
                return self.copy(v[0])
            return o
        if n.startswith(('std::tuple<', 'std::pair<')):
            return v[0] if len(v) == 1 and isinstance(v[0], tuple) else tuple(v)
        if 'error' in n or 'exception' in n or 'Error' in n:
            return ExcVal('RuntimeError', tuple(v))
        if n.startswith('c10::complex<') or n.startswith('std::complex<'):
            if len(v) == 2 and v[1] == 0 or len(v) == 1:
                return v[0]
            return self.arith('+', v[0], self.arith('*', v[1], 1j))
        if 'lambda' in n and len(v) == 1:
            return v[0]
        if len(v) == 1:
            return v[0]
        if not v:
            return self.default_value(t)
        raise Incomplete(f'construction of {t}')

    # --------------------------------------------------------------- calls

    def e_CXXOperatorCallExpr(self, e, fr):
        c = inner(e)
        callee, args = c[0], c[1:]
        while callee['kind'] in ('ImplicitCastExpr', 'ParenExpr'):
            callee = inner(callee)[0]
        r = callee.get('referencedDecl', {})
        op = r.get('name', '').replace('operator', '', 1)
        if op == '()':
            f = self.ev(args[0], fr)
            if isinstance(f, Lambda):
                d = next((x for x in f.decl if x['id'] == r['id']), None) or self.p.definition(r['id']) or f.decl[-1]
                d = self.p.definition(d['id']) or d
                return self.call_decl(d, [self.arg(a, fr) for a in args[1:]], f.this, f.frame)
            if isinstance(f, Func):
                return self.function(f.decl, [self.arg(a, fr) for a in args[1:]], ty(e))
        d = self.p.definition(r.get('id'))
        if d is not None:
            a = [self.arg(x, fr) for x in args]
            if d['kind'] == 'CXXMethodDecl':
                o = self.val(a[0])
                return self.call_decl(d, a[1:], o)
            return self.call_decl(d, a)
        if op == '=':
            v = self.copy(self.ev(args[1], fr))
            ref = self.lv(args[0], fr)
            old = self.val(ref)
            if isinstance(old, ArgName):
                old.default = v
                return old
            if not isinstance(ref, REFS):
                if isinstance(old, TObj) and isinstance(v, (TObj,) + NUM):
                    self.meth(old, 'copy_', v) if isinstance(v, TObj) else self.meth(old, 'fill_', v)
                    return old
                return old
            if v is UNINIT and isinstance(old, (CVec, CMap, str)):        # x = {}
                v = '' if isinstance(old, str) else type(old)([], old.elem) if isinstance(old, CVec) else CMap(old.elem)
            if isinstance(old, CVec) and isinstance(v, CVec):
                v.elem = v.elem or old.elem
            if isinstance(old, CMap) and isinstance(v, CMap):
                v.elem = v.elem or old.elem
            if isinstance(v, NUM) and isinstance(old, TObj):
                self.meth(old, 'fill_', v)
                return ref
            ref.set(v)
            return ref
        if op in ('->', '*') and len(args) == 1:
            v = self.ev(args[0], fr)
            if isinstance(v, Ptr):
                return v if op == '->' else v.ref
            if isinstance(v, MapIter):
                p = (v.k, v.m.d[v.k])
                return Ptr(Cell(p)) if op == '->' else p
            if isinstance(v, VecIter):
                return Elem(v.v, v.i)
            if v is None or v is NULLOPT:
                raise Thrown(ExcVal('RuntimeError', ('dereference of nothing',)))
            return v
        if op == '[]':
            return self.element(self.ev(args[0], fr), self.ev(args[1], fr))
        if op == '!':
            return not self.test(args[0], fr)
        if op == '-' and len(args) == 1:
            v = self.ev(args[0], fr)
            return self.res(self.I.binop(ast.Mult(), -1, v), v)
        if op in ('++', '--'):
            ref = self.lv(args[0], fr)
            v = ref.get()
            if isinstance(v, VecIter):
                ref.set(VecIter(v.v, v.i + (1 if op == '++' else -1)))
                return ref
        if op in ('+=', '-=', '*=', '/='):
            ref = self.lv(args[0], fr)
            a, b = self.val(ref), self.ev(args[1], fr)
            if isinstance(a, TObj):
                self.I.inplace(BINOP[op[0]](), a, b)
                return ref
            ref.set(self.arith(op[0], a, b))
            return ref
        if op in BINOP or op in ('==', '!=', '<', '>', '<=', '>='):
            a, b = self.ev(args[0], fr), self.ev(args[1], fr)
            v = self.arith(op, a, b)
            return self.res(v, a, b)
        if op == '<<':
            return self.lv(args[0], fr)
        raise Incomplete(f'C++ operator {op}')

    def res(self, v, *from_):
        """layout of the result of an elementwise operation"""
        if isinstance(v, TObj):
            ts = [x for x in from_ if isinstance(x, TObj) and len(x.shape)]
            l = [self.lay(x)[0] for x in ts]
            how = None
            if l and None not in l:
                how = l[0]
            self.lay(v, how, False)
        return v

    def arg(self, e, fr):
        if e['kind'] == 'CXXDefaultArgExpr':
            return None
        return self.lv(e, fr)

    def e_CallExpr(self, e, fr):
        c = inner(e)
        callee = c[0]
        while callee['kind'] in ('ImplicitCastExpr', 'ParenExpr'):
            callee = inner(callee)[0]
        args = [self.arg(a, fr) for a in c[1:]]
        if callee['kind'] == 'DeclRefExpr' and callee['referencedDecl']['kind'] in ('FunctionDecl', 'CXXMethodDecl'):
            return self.function(callee['referencedDecl'], args, ty(e))
        f = self.ev(callee, fr)
        if isinstance(f, Func):
            return self.function(f.decl, args, ty(e))
        if callee['kind'] == 'MemberExpr':
            d = self.p.definition(callee.get('referencedMemberDecl'))
            if d is not None:
                return self.call_decl(d, args)
        raise Incomplete('call of a computed function')

    def function(self, r, args, t):
        d = self.p.definition(r['id'])
        if d is not None:
            return self.call_decl(d, args)
        n = r.get('name', '')
        keep = list(args)
        args = [self.val(x) for x in args if x is not None]
        f = getattr(self, 'f_' + n, None)
        if f is not None:
            return f(args, t)
        if n in ('move', 'forward', 'as_const'):
            return keep[0]
        if n.startswith(('cusolver', 'cublas', 'cuda')):
            return self.cuda(n, args)
        if n.startswith('cutensor'):
            return self.cutensor(n, args)
        if any(isinstance(a, TObj) for a in args):
            la = n.startswith('linalg_')
            m = self.I.getattr(self.I.load('torch'), 'linalg') if la else self.I.load('torch')
            return self.res(self.I.call(self.I.getattr(m, n[7:] if la else n), [self.py(a) for a in args], {}), *args)
        raise Incomplete(f'C++ function {n}')

    # library functions

    def f_scalar_type(self, a, t):
        return a[0]

    def f___builtin_expect(self, a, t):
        return a[0]

    def f_should_include_kernel_dtype(self, a, t):
        return True

    def f___builtin_unreachable(self, a, t):
        raise Thrown(ExcVal('RuntimeError', ('control reaches a point declared unreachable',)))

    def f_torchCheckFail(self, a, t):
        raise Thrown(ExcVal('RuntimeError', tuple(x for x in a if isinstance(x, str))))

    f___assert_fail = f_torchInternalAssertFail = f_torchCheckFail

    def f_torchCheckMsgImpl(self, a, t):
        return 'check failed'

    def f_str(self, a, t):
        return ''.join(str(x) for x in a)

    f__str_wrapper = f_str

    def f_to_string(self, a, t):
        return str(a[0])

    def f_toString(self, a, t):
        return str(a[0])

    def f_toRealValueType(self, a, t):
        return torchlib.real_dtype(a[0])

    def f_isComplexType(self, a, t):
        return torchlib.is_complex(a[0])

    def f_make_tuple(self, a, t):
        return tuple(a)

    f_make_pair = f_tie = f_make_tuple

    def f_make_unique(self, a, t):
        T = args_of(t)
        if not T:
            raise Incomplete(f'make_unique of {t}')
        return Ptr(Cell(self.make(T[0], a)))

    f_make_shared = f_make_unique

    def f_get(self, a, t):
        raise Incomplete('std::get')

    def f_abs(self, a, t):
        v = self.I.call(self.I.builtins['abs'], [a[0]], {})
        return self.res(v, a[0])

    f_fabs = f_abs

    def f_max(self, a, t):
        if len(a) == 1 and isinstance(a[0], TObj):
            return self.meth(a[0], 'max')
        return self.I.call(self.I.builtins['max'], list(a), {})

    def f_min(self, a, t):
        if len(a) == 1 and isinstance(a[0], TObj):
            return self.meth(a[0], 'min')
        return self.I.call(self.I.builtins['min'], list(a), {})

    def f_real(self, a, t):
        return self.lay(self.I.getattr(a[0], 'real') if isinstance(a[0], TObj) else a[0], None, False)

    def f_matmul(self, a, t):
        return self.lay(self.tor('matmul', *a), 'c', False)

    f_mm = f_matmul

    def f_conj(self, a, t):
        return self.m_conj(a[0])

    def f_einsum(self, a, t):
        eq = a[0]
        return self.lay(self.tor('einsum', eq, *(a[1].items if isinstance(a[1], CVec) else a[1:])), None, False)

    def f_linalg_pinv(self, a, t):
        nums = [x for x in a[1:] if not isinstance(x, bool)]
        herm = any(x is True for x in a[1:])
        if len(nums) == 2:
            k = {'atol': nums[0], 'rtol': nums[1]}
        else:
            k = {'rcond': nums[0]} if nums else {}
        la = self.I.getattr(self.I.load('torch'), 'linalg')
        return self.lay(self.I.call(self.I.getattr(la, 'pinv'), [a[0]], {'hermitian': herm, **{n: self.py(x) for n, x in k.items()}}), None, False)

    def f_linalg_solve(self, a, t):
        la = self.I.getattr(self.I.load('torch'), 'linalg')
        return self.lay(self.I.call(self.I.getattr(la, 'solve'), list(a[:2]), {}), None, False)

    def created(self, name, a):
        o = next((x for x in a if isinstance(x, Opts)), None) or Opts()
        rest = [x for x in a if not isinstance(x, (Opts, Enum)) and x is not NULLOPT]
        if name != 'eye':
            rest = rest[:1]
            if rest and isinstance(rest[0], NUM):
                rest = [CVec([rest[0]])]
        k = {}
        if o.dtype is not None:
            k['dtype'] = o.dtype
        if o.device is not None:
            k['device'] = o.device
        return self.lay(self.tor(name, *rest, **k), 'c', False)

    def f_empty(self, a, t):
        o = next((x for x in a if isinstance(x, Opts)), None)
        if o is not None and o.dtype is not None and torchlib.base(o.dtype) in ('uint8', 'int8') and self.no_room:
            self.no_room -= 1
            raise Thrown(ExcVal('OutOfMemoryError', ('no room for the workspace',)))
        return self.created('empty', a)

    def f_zeros(self, a, t):
        return self.created('zeros', a)

    def f_ones(self, a, t):
        return self.created('ones', a)

    def f_eye(self, a, t):
        return self.created('eye', a)

    def like_(self, name, a):
        return self.lay(self.tor(name, a[0]), self.lay(a[0])[0], False)

    def f_empty_like(self, a, t):
        return self.like_('empty_like', a)

    def f_zeros_like(self, a, t):
        return self.like_('zeros_like', a)

    def f_CUDA(self, a, t):
        return Opts(a[0] if isinstance(a[0], Tok) else None, torchlib.device('cuda', 0))

    def f_dtype(self, a, t):
        return Opts(a[0])

    def f_device(self, a, t):
        return Opts(None, a[0])

    def f_getCurrentCUDAStream(self, a, t):
        return Handle('stream')

    def f_cutensorGetErrorString(self, a, t):
        return 'error'

    # member functions

    def e_CXXMemberCallExpr(self, e, fr):
        c = inner(e)
        m = c[0]
        while m['kind'] in ('ParenExpr', 'ImplicitCastExpr'):
            m = inner(m)[0]
        if m['kind'] != 'MemberExpr':
            raise Incomplete('call of a member pointer')
        ref = self.lv(inner(m)[0], fr)
        o = self.val(ref)
        args = [self.arg(a, fr) for a in c[1:]]
        if isinstance(o, Ptr) and m.get('isArrow'):
            o = self.val(o.ref)
        if o is None and m.get('isArrow'):
            raise Thrown(ExcVal('RuntimeError', ('call through a null pointer',)))
        d = self.p.definition(m.get('referencedMemberDecl'))
        decl = self.p.by_id.get(m.get('referencedMemberDecl'))
        if isinstance(o, CObj) and decl is not None:
            dyn = self.method_of(o, decl)
            if dyn is not None:
                return self.call_decl(dyn, args, o)
        if d is not None:
            return self.call_decl(d, args, o)
        return self.member(ref, o, m['name'], args, ty(e))

    def method_of(self, o, decl):
        """the method an object really has (virtual dispatch)"""
        sig = (decl['name'], decl['type']['qualType'])
        for c in inner(o.rec):
            if c.get('kind') == 'CXXMethodDecl' and (c['name'], re.sub(r'\s*(override|final)', '', c['type']['qualType'])) == sig:
                return self.p.definition(c['id'])
        return None

    def member(self, ref, o, n, args, t):
        args = [self.val(x) for x in args if x is not None]
        args = [x for x in args if x is not NotGiven]
        if n == 'operator=' and isinstance(ref, REFS) and len(args) == 1:
            ref.set(self.copy(args[0]))
            return ref
        if n.startswith('operator '):
            return self.truth(o) if n == 'operator bool' else o
        if isinstance(o, TObj):
            f = getattr(self, 'm_' + n, None)
            return f(o, *args) if f else self.tensor(o, n, args, t)
        if o is UNINIT:
            if n == 'defined':
                return False
            raise Thrown(ExcVal('RuntimeError', (f'{n} of an undefined tensor',)))
        if isinstance(o, Opts):
            if not args:
                return o.dtype if n == 'dtype' else o.device
            r = Opts(o.dtype, o.device)
            if n in ('dtype', 'device'):
                setattr(r, n, args[0])
            return r
        if isinstance(o, str):
            return self.string(ref, o, n, args)
        if isinstance(o, CVec):
            return self.vector(o, n, args)
        if isinstance(o, CMap):
            if n in ('find',):
                return MapIter(o, args[0] if args[0] in o.d else None)
            if n in ('end', 'cend'):
                return MapIter(o, None)
            if n in ('count', 'contains'):
                return args[0] in o.d if n == 'contains' else int(args[0] in o.d)
            if n == 'at':
                if args[0] not in o.d:
                    raise Thrown(ExcVal('IndexError', (f'no entry {args[0]!r}',)))
                return Elem(o, args[0])
            if n in ('size',):
                return len(o.d)
            if n == 'empty':
                return not o.d
            if n == 'clear':
                o.d = {}
                return None
            if n in ('emplace', 'insert', 'insert_or_assign', 'try_emplace'):
                k, v = args[0] if len(args) == 1 else args[:2]
                if n == 'insert_or_assign' or k not in o.d:
                    o.d[k] = self.copy(v)
                return (MapIter(o, k), True)
            if n == 'erase':
                o.d.pop(args[0], None)
                return None
            if n == 'reserve':
                return None
        if n in ('value_or', 'value', 'has_value'):
            if n == 'value_or':
                return args[0] if o is NULLOPT else o
            if n == 'has_value':
                return o is not NULLOPT
            if o is NULLOPT:
                raise Thrown(ExcVal('RuntimeError', ('value of an empty optional',)))
            return o
        if n in ('get',) and (o is None or isinstance(o, Ptr)):
            return o
        if n == 'reset':
            ref.set(None)
            return None
        if isinstance(o, PyMod):
            if n == 'def':
                names = [x for x in args[2:] if isinstance(x, ArgName)]
                o.defs[args[0]] = (args[1], names)
                return o
            return Cell(None) if n == 'doc' else o
        if n in ('toScalarType', 'what', 'stream', 'type', 'device', 'name'):
            return 'error' if n == 'what' else o
        if isinstance(o, NUM) and n == 'real':
            return o
        raise Incomplete(f'C++ member {n} of {type(o).__name__}')

    def string(self, ref, o, n, a):
        if n == 'find':
            x = chr(a[0]) if isinstance(a[0], int) else a[0]
            return o.find(x, *a[1:])
        if n == 'rfind':
            return o.rfind(chr(a[0]) if isinstance(a[0], int) else a[0])
        if n == 'substr':
            return o[a[0]:] if len(a) < 2 or a[1] < 0 else o[a[0]:a[0] + a[1]]
        if n in ('size', 'length'):
            return len(o)
        if n == 'empty':
            return not o
        if n in ('c_str', 'data'):
            return o
        if n in ('at', 'operator[]'):
            return ord(o[a[0]])
        if n in ('push_back', 'append', 'operator+='):
            ref.set(o + (chr(a[0]) if isinstance(a[0], int) else a[0]))
            return ref
        if n == 'compare':
            return (o > a[0]) - (o < a[0])
        if n in ('begin', 'end', 'cbegin', 'cend'):
            return VecIter(CVec([ord(c) for c in o]), 0 if 'begin' in n else len(o))
        if n == 'front':
            return ord(o[0])
        if n == 'back':
            return ord(o[-1])
        raise Incomplete(f'std::string::{n}')

    def vector(self, o, n, a):
        if n == 'size':
            return len(o.items)
        if n == 'empty':
            return not o.items
        if n in ('push_back', 'emplace_back'):
            o.items.append(self.copy(a[0]) if a else self.default_value(o.elem))
            return Elem(o, len(o.items) - 1)
        if n == 'pop_back':
            o.items.pop()
            return None
        if n == 'clear':
            o.items = []
            return None
        if n in ('reserve', 'shrink_to_fit'):
            return None
        if n == 'resize':
            o.items = o.items[:a[0]] + [a[1] if len(a) > 1 else 0] * (a[0] - len(o.items))
            return None
        if n == 'assign':
            o.items = list(a[0].v.items[a[0].i:a[1].i]) if isinstance(a[0], VecIter) else [a[1]] * a[0]
            return None
        if n in ('data', 'vec', 'copy'):
            return o if n == 'data' else self.copy(o)
        if n in ('at',):
            return self.element(o, a[0])
        if n in ('front', 'back'):
            return self.element(o, 0 if n == 'front' else len(o.items) - 1)
        if n in ('begin', 'end', 'cbegin', 'cend'):
            return VecIter(o, 0 if 'begin' in n else len(o.items))
        if n == 'insert' and len(a) == 3 and isinstance(a[0], VecIter) and isinstance(a[1], VecIter):
            o.items[a[0].i:a[0].i] = a[1].v.items[a[1].i:a[2].i]
            return None
        raise Incomplete(f'vector::{n}')

    def m_size(self, o, i):
        return o.shape[i]

    def m_sizes(self, o):
        return CVec(list(o.shape))

    def m_strides(self, o):
        return CVec(self.strides_of(o))

    def strides_of(self, o):
        how, _ = self.lay(o)
        sh = list(o.shape)
        if how is None and len(sh) > 1:
            raise Incomplete('strides of a tensor are not known')
        s, out = 1, [None] * len(sh)
        for i in (range(len(sh)) if how == 'f' else reversed(range(len(sh)))):
            out[i] = s
            s = poly.mul(s, sh[i])
        return out

    def m_stride(self, o, i):
        return self.strides_of(o)[i]

    def m_dim(self, o):
        return len(o.shape)

    m_ndimension = m_dim

    def m_numel(self, o):
        return tnet.prod(o.shape)

    def m_scalar_type(self, o):
        return o.dtype

    m_dtype = m_scalar_type

    def m_device(self, o):
        return o.device

    def m_options(self, o):
        return Opts(o.dtype, o.device)

    def m_is_complex(self, o):
        return torchlib.is_complex(o.dtype)

    def m_is_cuda(self, o):
        return o.device is not None and 'cuda' in o.device.name

    def m_is_contiguous(self, o, *a):
        how = self.lay(o)[0]
        if how is None:
            raise Incomplete('layout of a tensor is not known')
        return how == 'c' or len(o.shape) < 2

    def m_defined(self, o):
        return True

    def m_data_ptr(self, o):
        return Mem(o)

    m_mutable_data_ptr = m_const_data_ptr = m_data_ptr

    def m_contiguous(self, o, *a):
        how, cj = self.lay(o)
        if how == 'c':
            return o
        r = self.meth(o, 'contiguous')
        if r is o:
            r = torchlib.like(o, o.v)
        return self.lay(r, 'c', False)

    def m_clone(self, o, *a):
        how, cj = self.lay(o)
        return self.lay(self.meth(o, 'clone'), how, False)

    def m_detach(self, o):
        how, cj = self.lay(o)
        return self.lay(self.meth(o, 'detach'), how, cj)

    def flip(self, o, r, cj):
        how, c = self.lay(o)
        if len(o.shape) == 2:
            how = {'c': 'f', 'f': 'c'}.get(how)
        elif len(o.shape) > 2:
            how = None
        return self.lay(r, how, c != cj)

    def m_t(self, o):
        return self.flip(o, self.meth(o, 't'), False)

    def m_transpose(self, o, i, j):
        return self.flip(o, self.meth(o, 'transpose', i, j), False)

    def m_mT(self, o):
        return self.flip(o, self.I.getattr(o, 'mT'), False)

    m_numpy_T = m_mT

    def m_mH(self, o):
        return self.flip(o, self.I.getattr(o, 'mH'), torchlib.is_complex(o.dtype))

    m_matrix_H = m_adjoint = m_mH

    def m_conj(self, o):
        how, c = self.lay(o)
        return self.lay(self.meth(o, 'conj'), how, c != torchlib.is_complex(o.dtype))

    def m_resolve_conj(self, o):
        how, c = self.lay(o)
        return self.lay(torchlib.like(o, o.v), how, False) if c else o

    def m_permute(self, o, d):
        return self.lay(self.meth(o, 'permute', *d.items), None, self.lay(o)[1])

    def m_reshape(self, o, d, *a):
        how, c = self.lay(o)
        d = d.items if isinstance(d, CVec) else [d] + list(a)
        return self.lay(self.meth(o, 'reshape', *d), 'c' if how == 'c' else None, c)

    m_view = m_reshape

    def m_flatten(self, o, *a):
        how, c = self.lay(o)
        return self.lay(self.meth(o, 'flatten', *a), 'c' if how == 'c' else None, c)

    def m_matmul(self, o, b):
        return self.f_matmul([o, b], '')

    m_mm = m_matmul

    def m_item(self, o, *a):
        return self.meth(o, 'item')

    def m_to(self, o, *a):
        k = [x for x in a if isinstance(x, Tok)]
        for x in a:
            if isinstance(x, Opts):
                k += [y for y in (x.dtype, x.device) if y is not None]
        how, c = self.lay(o)
        return self.lay(self.meth(o, 'to', *k), how, c)

    def tensor(self, o, n, args, t):
        if n == 'item_':
            raise Incomplete(n)
        if n == 'real':
            return self.f_real([o], t)
        v = self.meth(o, n, *args)
        if n.endswith('_') and not n.endswith('__'):
            return o
        return self.res(v, o, *args)

    # --------------------------------------------------- cuTENSOR, cuSOLVER

    def cuda(self, n, a):
        ok = Enum('CUSOLVER_STATUS_SUCCESS' if n.startswith('cusolver') else 'cudaSuccess')
        if n == 'cusolverDnCreate':
            a[0].ref.set(Handle('cusolver'))
            return ok
        if n in ('cusolverDnDestroy', 'cusolverDnSetStream') or n.startswith('cuda'):
            return ok
        m = re.fullmatch(r'cusolverDn([SDCZ])(potrf_bufferSize|potrf|potrs)', n)
        if not m:
            raise Incomplete(f'C++ function {n}')
        kind = {'S': 'float32', 'D': 'float64', 'C': 'complex64', 'Z': 'complex128'}[m.group(1)]
        if not isinstance(a[0], Handle):
            raise Thrown(ExcVal('RuntimeError', ('cuSOLVER without a handle',)))
        if m.group(2) == 'potrf_bufferSize':
            _, uplo, nn, A, lda, lw = a
            self.matrix(A, nn, nn, lda, kind)
            lw.ref.set(Poly.sym('lwork', True, True))
            return ok
        if m.group(2) == 'potrf':
            _, uplo, nn, A, lda, work, lwork, info = a
            M = self.matrix(A, nn, nn, lda, kind)
            self.need(isinstance(work, Mem) and self.dims(work.t.shape, [lwork]) and self.dims([lwork], [Poly.sym('lwork', True, True)]), 'cuSOLVER workspace of another size')
            self.need(isinstance(info, Mem), 'cuSOLVER without info')
            # the triangle named by uplo of a hermitian matrix is the whole matrix
            self.need(uplo.name in ('CUBLAS_FILL_MODE_LOWER', 'CUBLAS_FILL_MODE_UPPER'), f'potrf with {uplo}')
            self.factors[id(A.t)] = (tnet.vn(A.t.v), M, uplo, A.t)
            return ok
        _, uplo, nn, nrhs, A, lda, B, ldb, info = a
        self.matrix(A, nn, nn, lda, kind)
        f = self.factors.get(id(A.t))
        self.need(f is not None and f[0] == tnet.vn(A.t.v), 'potrs with a matrix that was not factorised')
        self.need(f[2] == uplo, f'potrs reads the triangle {uplo}, potrf wrote {f[2]}')
        X = tnet.matmul(tnet.inverse(f[1]), self.matrix(B, nn, nrhs, ldb, kind))
        self.put(B, X)
        return ok

    def need(self, ok, why):
        if not ok:
            raise Thrown(ExcVal('RuntimeError', (why,)))

    @staticmethod
    def dims(a, b):
        return len(a) == len(b) and all(tnet.dim_eq(x, y) for x, y in zip(a, b))

    def matrix(self, m, rows, cols, ld, kind):
        """the matrix a pointer gives to a column-major library"""
        self.need(isinstance(m, Mem), 'cuSOLVER without a matrix')
        t = m.t
        self.need(torchlib.base(t.dtype) == kind, f'cuSOLVER takes {kind}, the tensor is {torchlib.base(t.dtype)}')
        how, cj = self.lay(t)
        if how is None:
            raise Incomplete('layout of a matrix is not known')
        v = t.v
        if cj:
            v = tnet.conj(v)
        if how == 'c':
            v = tnet.permute(v, (1, 0))
        self.need(self.dims(v.shape, [rows, cols]), f'matrix of {v.shape} taken as {rows} x {cols}')
        self.need(tnet.dim_eq(ld, v.shape[0]), f'leading dimension {ld} of a matrix with {v.shape[0]} rows')
        return v

    def put(self, m, v):
        how, cj = self.lay(m.t)
        if how == 'c':
            v = tnet.permute(v, (1, 0))
        if cj:
            v = tnet.conj(v)
        self.meth(m.t, 'copy_', torchlib.like(m.t, v))

    def cutensor(self, n, a):
        ok = Enum('CUTENSOR_STATUS_SUCCESS')
        if n == 'cutensorCreate':
            a[0].ref.set(Handle('cutensor'))
            return ok
        if n.startswith('cutensorDestroy'):
            return ok
        if n == 'cutensorCreateTensorDescriptor':
            _, out, nm, ext, st, kind, align = a
            if isinstance(ext, CVec):
                self.need(len(ext.items) == nm and (st is None or len(st.items) >= nm), f'descriptor of {nm} modes with {len(ext.items)} extents')
            out.ref.set(Desc('tensor', ext=list(ext.items[:nm]), st=None if st is None else list(st.items[:nm]), dtype=kind))
            return ok
        if n == 'cutensorCreateContraction':
            _, out, dA, mA, oA, dB, mB, oB, dC, mC, oC, dD, mD, cd = a
            out.ref.set(Desc('op', dA=dA, mA=list(mA.items), oA=oA, dB=dB, mB=list(mB.items), oB=oB, dC=dC, mC=list(mC.items), oC=oC, dD=dD, mD=list(mD.items), cd=cd))
            return ok
        if n == 'cutensorCreatePlanPreference':
            a[1].ref.set(Desc('pref'))
            return ok
        if n == 'cutensorEstimateWorkspaceSize':
            # the smallest workspace an operation can be planned with may be another one
            w = Poly.sym('ws_min', True, True) if self.workspace != 0 and a[3].name == 'CUTENSOR_WORKSPACE_MIN' else self.workspace
            self.estimates.append(w)
            a[4].ref.set(w)
            return ok
        if n == 'cutensorCreatePlan':
            _, out, op, pref, size = a
            self.need(isinstance(op, Desc) and op.kind == 'op', 'plan of no operation')
            self.need(size == 0 or any(tnet.dim_eq(size, w) for w in self.estimates), 'plan with a workspace limit that was not estimated')
            out.ref.set(Desc('plan', op=op, size=size))
            return ok
        if n == 'cutensorPlanGetAttribute':
            self.need(a[2].name == 'CUTENSOR_PLAN_REQUIRED_WORKSPACE', f'attribute {a[2]}')
            a[3].ref.set(a[1].size)
            return ok
        if n == 'cutensorContract':
            return self.contract(a) or ok
        if n == 'cutensorGetErrorString':
            return 'error'
        raise Incomplete(f'C++ function {n}')

    def operand(self, d, m, ptr, op, what):
        self.need(isinstance(ptr, Mem), f'contraction without {what}')
        t = ptr.t
        k = torchlib.base(t.dtype)
        self.need(d.dtype.name == DATA.get(k), f'{what} is {k}, its descriptor {d.dtype}')
        self.need(len(d.ext) == len(m), f'{what} has {len(d.ext)} extents and {len(m)} modes')
        self.need(self.dims(d.ext, t.shape), f'{what} has shape {t.shape}, its descriptor {d.ext}')
        self.need(self.lay(t)[0] is not None or len(t.shape) < 2, f'{what} is not known to be laid out row by row')
        st = self.strides_of(t)
        want = d.st
        if want is None:                     # generalised column major
            s, want = 1, []
            for x in d.ext:
                want.append(s)
                s = poly.mul(s, x)
        self.need(self.dims(st, want), f'{what} has strides {st}, its descriptor {want}')
        v = t.v if not self.lay(t)[1] else tnet.conj(t.v)
        self.need(not any(tnet.kind(x.label) == 'empty' for _, n in tnet.simplify_tv(tnet.tv(v)).terms for x in n.atoms), f'{what} is uninitialised memory')
        if op.name == 'CUTENSOR_OP_CONJ':
            v = tnet.conj(v)
        elif op.name != 'CUTENSOR_OP_IDENTITY':
            raise Incomplete(f'operator {op}')
        return v

    def contract(self, a):
        h, plan, alpha, A, B, beta, C, D, ws, wsize, stream = a
        self.need(isinstance(h, Handle), 'cuTENSOR without a handle')
        self.need(isinstance(plan, Desc) and plan.kind == 'plan', 'contraction without a plan')
        o = plan.op
        if plan.size != 0:
            self.need(isinstance(ws, Mem), 'contraction without the workspace its plan needs')
            self.need(self.dims([wsize], [plan.size]) and self.dims(ws.t.shape, [plan.size]), 'workspace of another size than the plan needs')
        dt = o.dA.dtype.name
        self.need(all(x.dtype.name == dt for x in (o.dB, o.dC, o.dD)), 'operands of different types')
        need = 'CUTENSOR_COMPUTE_DESC_64F' if dt.endswith('64F') else 'CUTENSOR_COMPUTE_DESC_32F'
        self.need(isinstance(o.cd, Enum) and o.cd.name == need, f'data of type {dt} computed with {o.cd}')
        letters, names = {}, iter('abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ')

        def lab(m):
            return ''.join(letters.setdefault(x, None) or letters.__setitem__(x, next(names)) or letters[x] for x in m)
        va, vb = self.operand(o.dA, o.mA, A, o.oA, 'operand A'), self.operand(o.dB, o.mB, B, o.oB, 'operand B')
        eq = f'{lab(o.mA)},{lab(o.mB)}->{lab(o.mD)}'
        self.need(set(o.mD) <= set(o.mA) | set(o.mB), 'output mode that no operand has')
        r = tnet.einsum([va, vb], eq)
        al, be = self.val(alpha.ref), self.val(beta.ref)
        if al != 1:
            r = tnet.scale(r, al)
        self.need(isinstance(D, Mem), 'contraction without an output')
        if be != 0:
            vc = self.operand(o.dC, o.mC, C, o.oC, 'operand C')
            r = tnet.add(r, tnet.scale(tnet.einsum([vc], f'{lab(o.mC)}->{lab(o.mD)}'), be))
        self.operand_shape(o.dD, o.mD, D, r)
        self.need(D.t is not A.t and D.t is not B.t, 'the output of a contraction is also its input')
        self.meth(D.t, 'copy_', torchlib.like(D.t, r))
        self.contractions += 1

    def operand_shape(self, d, m, ptr, r):
        t = ptr.t
        self.need(torchlib.base(t.dtype) and d.dtype.name == DATA.get(torchlib.base(t.dtype)), f'output is {t.dtype}, its descriptor {d.dtype}')
        self.need(self.dims(d.ext, t.shape), f'output has shape {t.shape}, its descriptor {d.ext}')
        self.need(self.dims(d.ext, r.shape), f'output of shape {r.shape} described as {d.ext}')
        self.need(d.st is not None and self.dims(self.strides_of(t), d.st), 'strides of the output differ from its descriptor')
        self.need(not self.lay(t)[1], 'output is a conjugated view')

    # ------------------------------------------------------ Python interface

    def module(self):
        """what the extension module defines: name -> callable for the Python interpreter"""
        m = PyMod()
        d = next((x for n, x in self.p.defs.items() if x.get('name', '').startswith('pybind11_init_')), None)
        if d is None:
            raise Incomplete('no extension module')
        self.call_decl(d, [Cell(m)])
        return {n: pylib.fn(n, self.entry(n, f, names)) for n, (f, names) in m.defs.items()}

    def entry(self, name, f, names):
        f = self.val(f.ref) if isinstance(f, Ptr) else f
        if isinstance(f, Lambda):
            d, frame, this = f.decl[-1], f.frame, f.this
        else:
            d, frame, this = self.p.definition(f.decl['id']), None, None
        ps = [c for c in inner(d) if c.get('kind') == 'ParmVarDecl']

        def go(I, a, k):
            a = list(a)
            if len(a) > len(ps):
                raise PyRaise(ExcVal('TypeError', (f'{name}() takes {len(ps)} arguments',)))
            for i in range(len(a), len(ps)):
                n = names[i] if i < len(names) else None
                if n is not None and n.name in k:
                    a.append(k.pop(n.name))
                elif n is not None and n.default is not None:
                    a.append(n.default)
                else:
                    raise PyRaise(ExcVal('TypeError', (f'{name}() lacks argument {i + 1}',)))
            if k:
                raise PyRaise(ExcVal('TypeError', (f'{name}() has no argument {sorted(k)}',)))
            args = []
            for p, x in zip(ps, a):
                x = I.resolve(x)
                n = norm_type(ty(p))
                ok = {'long': isinstance(x, int) and not isinstance(x, bool) or isinstance(x, Poly), 'int': isinstance(x, int) or isinstance(x, Poly),
                      'double': isinstance(x, (int, float, Poly)), 'float': isinstance(x, (int, float, Poly)), 'bool': isinstance(x, bool),
                      'at::Tensor': isinstance(x, TObj)}.get(n, isinstance(x, str) if 'string' in n else True)
                if not ok:
                    raise PyRaise(ExcVal('TypeError', (f'argument {p.get("name")} of {name}() is a {p["type"]["qualType"]}, given {type(x).__name__}',)))
                args.append(Cell(x))
            try:
                r = self.call_decl(d, args, this, frame)
            except Thrown as t:
                if isinstance(t.v, ExcVal):
                    t.v.args = tuple(t.v.args) + (' > '.join(getattr(t, 'cxx', [])[-4:]),)
                raise PyRaise(t.v if isinstance(t.v, ExcVal) else ExcVal('RuntimeError', (repr(t.v),)))
            return self.up(r)
        return go

    def up(self, r):
        r = self.val(r)
        if isinstance(r, (tuple,)):
            return tuple(self.up(x) for x in r)
        if isinstance(r, CVec):
            return PList([self.up(x) for x in r.items])
        return r


class _NotGiven:
    pass


NotGiven = _NotGiven()

