"""Symbolic interpreter for the Python text of /repo (and for the mechanically extracted Cython text)."""
import ast
import os
from fractions import Fraction
import z3

from . import terms as T
from . import arrays as A
from .arrays import Arr, PyRaise
from .ctx import Infeasible, PathDone
from .terms import Unsupported, Cx


class Return(Exception):
    def __init__(self, v):
        self.v = v


class Break(Exception):
    pass


class Continue(Exception):
    pass


class Poison:
    def __repr__(self):
        return 'POISON'


POISON = Poison()


class Frame:
    def __init__(self, mod, parent=None, name='<module>', cls=None):
        self.vars = {}
        self.mod, self.parent, self.name, self.cls = mod, parent, name, cls
        self.nonlocals = set()
        self.globals_ = set()
        self.selfarg = None
        self.ctypes = {}
        self.unchecked = False
        self.fn = None


class Module:
    def __init__(self, name, path=None):
        self.name, self.path = name, path
        self.vars = {}
        self.loaded = False

    def __repr__(self):
        return '<module %s>' % self.name


class Func:
    def __init__(self, node, mod, frame, name, cls=None):
        self.node, self.mod, self.frame, self.name, self.cls = node, mod, frame, name, cls
        self.defaults = []
        self.kwdefaults = {}
        self.ctypes = {}
        self.unchecked = False
        self.attrs = {}

    @property
    def qualname(self):
        return '%s.%s%s' % (self.mod.name, (self.cls.name + '.') if self.cls else '', self.name)

    def __repr__(self):
        return '<function %s>' % self.qualname


class Bound:
    def __init__(self, fn, self_):
        self.fn, self.self_ = fn, self_

    def __eq__(self, o):
        return isinstance(o, Bound) and o.fn is self.fn and o.self_ is self.self_

    def __hash__(self):
        return hash((id(self.fn), id(self.self_)))


class Ext:
    """external (library) object, identified by its dotted name"""

    def __init__(self, name):
        self.name = name

    def __eq__(self, o):
        return isinstance(o, Ext) and o.name == self.name

    def __hash__(self):
        return hash(self.name)

    def __repr__(self):
        return '<ext %s>' % self.name


def mangle(cls):
    """private names of a class body, as the compiler rewrites them"""
    if getattr(cls, 'mangled', False):
        return
    cls.mangled = True
    pre = '_' + cls.name.lstrip('_')

    def m(s):
        return pre + s if isinstance(s, str) and s.startswith('__') and not s.endswith('__') else s

    def walk(n):
        for c in ast.iter_child_nodes(n):
            if isinstance(c, ast.ClassDef):
                mangle(c)
                continue
            for f in ('id', 'attr', 'name', 'arg'):
                if isinstance(getattr(c, f, None), str):
                    setattr(c, f, m(getattr(c, f)))
            walk(c)
    walk(cls)


class PyClass:
    def __init__(self, name, bases, ns, mod):
        self.name, self.bases, self.ns, self.mod = name, bases, ns, mod

    def mro(self):
        # C3 is not needed for this code base: left-to-right depth first, keeping last occurrences
        out = [self]
        for b in self.bases:
            if isinstance(b, PyClass):
                out += b.mro()
            else:
                out.append(b)
        res = []
        for i, c in enumerate(out):
            if c not in out[i + 1:]:
                res.append(c)
        return res

    def find(self, attr, after=None):
        seen = after is None
        for c in self.mro():
            if isinstance(c, PyClass):
                if seen and attr in c.ns:
                    return c.ns[attr], c
                if c is after:
                    seen = True
        return None, None

    def is_sub(self, other):
        return any(c is other or c == other for c in self.mro())

    def __repr__(self):
        return '<class %s>' % self.name


class Prop:
    def __init__(self, fget, fset=None):
        self.fget, self.fset = fget, fset


class ClsMeth:
    def __init__(self, f):
        self.f = f


class StaticMeth:
    def __init__(self, f):
        self.f = f


class Obj:
    _n = 0

    def __init__(self, cls):
        Obj._n += 1
        self.cls = cls
        self.fields = {}
        self.n = Obj._n

    def __repr__(self):
        return '<%s object>' % (self.cls.name if self.cls else '?')


class Super:
    def __init__(self, cls, self_):
        self.cls, self.self_ = cls, self_


class DictObj(dict):
    """instance of a class derived from dict that adds no item protocol of its own"""
    cls = None


def dict_class(cls):
    if any(isinstance(b, PyClass) and dict_class(b) for b in cls.bases):
        return True
    r = any(getattr(b, 'name', '') == 'builtins.dict' for b in cls.bases if not isinstance(b, PyClass))
    if r and any(cls.find(m)[0] is not None for m in ('__getitem__', '__setitem__', '__missing__', '__contains__', '__delitem__')):
        raise Unsupported('dict subclass with its own item protocol')
    return r


class RangeVal:
    def __init__(self, lo, hi, step):
        self.lo, self.hi, self.step = lo, hi, step

    def trip(self):
        lo, hi, s = self.lo, self.hi, self.step
        if s > 0:
            d = T.sub(hi, lo)
            q = d if s == 1 else T.floordiv(T.add(d, s - 1), s)
        else:
            d = T.sub(lo, hi)
            q = d if s == -1 else T.floordiv(T.add(d, -s - 1), -s)
        return T.maxv(q, 0)


class Lambda(Func):
    pass


class Native:
    """a Python implemented callable of the model"""

    def __init__(self, name, f):
        self.name, self.f = name, f

    def __repr__(self):
        return '<native %s>' % self.name


class SymFun:
    """an abstract pure callable supplied by a contract"""

    def __init__(self, name, f):
        self.name, self.f = name, f


class World:
    """source files under verification"""

    def __init__(self, root):
        self.root = root
        self.asts = {}
        self.texts = {}
        self.dropped = {}

    def find(self, dotted):
        p = os.path.join(self.root, *dotted.split('.'))
        for cand in (p + '.pyx', p + '.py', os.path.join(p, '__init__.py')):
            if os.path.exists(cand):
                return cand
        return None

    def parse(self, dotted):
        if dotted not in self.asts:
            path = self.find(dotted)
            if path is None:
                return None
            src = open(path, encoding='utf-8').read()
            types = {}
            if path.endswith('.pyx'):
                from . import pyx
                src, types, dropped = pyx.extract(src)
                self.dropped[dotted] = dropped
            import warnings
            with warnings.catch_warnings():
                warnings.simplefilter('ignore')
                tree = ast.parse(src, path)
            self.asts[dotted] = (tree, path, types)
            self.texts[dotted] = src
        return self.asts[dotted]


class Interp:
    def __init__(self, world, ctx, contracts=None):
        from . import npmodel
        self.world, self.ctx = world, ctx
        self.modules = {}
        self.contracts = contracts or {}
        self.np = npmodel.Model(self)
        self.verifying = None
        self.loopinvs = {}
        self.depth = 0
        self.inlined = set()
        self.used_contracts = set()
        self.lazy_modules = True
        self.loop_log = []

    # ---------------------------------------------------------------- modules
    def module(self, dotted):
        if dotted in self.modules:
            return self.modules[dotted]
        parsed = self.world.parse(dotted)
        if parsed is None:
            return None
        tree, path, types = parsed
        m = Module(dotted, path)
        self.modules[dotted] = m
        m.is_pkg = path.endswith('__init__.py')
        fr = Frame(m, None, '<module>')
        fr.vars = m.vars
        m.frame = fr
        m.vars['__name__'] = dotted
        m.types = types
        m.tree = tree
        # module bodies: execute what is executable; anything the subset does not cover is poisoned
        for st in tree.body:
            try:
                self.ctx.quiet += 1
                self.stmt(st, fr)
            except (Unsupported, PyRaise, KeyError, AttributeError, RecursionError) as e:
                for n in assigned_names([st]):
                    m.vars.setdefault(n, POISON)
                m.vars.setdefault('__unsupported__', []).append((getattr(st, 'lineno', 0), str(e)))
            finally:
                self.ctx.quiet -= 1
        m.loaded = True
        return m

    def import_(self, dotted):
        if dotted.split('.')[0] == 'funpy':
            m = self.module(dotted)
            if m is not None:
                return m
        return Ext(dotted)

    def resolve_from(self, mod, level, name):
        if level == 0:
            return name
        parts = mod.name.split('.')
        if not getattr(mod, 'is_pkg', False):
            parts = parts[:-1]
        if level > 1:
            parts = parts[:-(level - 1)]
        return '.'.join(parts + ([name] if name else []))

    # ---------------------------------------------------------------- lookup
    def lookup(self, name, fr):
        f = fr
        while f is not None:
            if name in f.vars:
                v = f.vars[name]
                if v is POISON:
                    import z3 as _z
                    if self.ctx.solver.check() == _z.unsat:
                        raise Infeasible()
                    raise Unsupported('read of %s, which may be unset here' % name)
                return v
            f = f.parent
        if name in fr.mod.vars:
            v = fr.mod.vars[name]
            if v is POISON:
                raise Unsupported('module name %s is outside the subset' % name)
            return v
        b = self.np.builtin(name)
        if b is not None:
            return b
        raise PyRaise('NameError', name)

    def assign_name(self, name, v, fr):
        tgt = fr
        if name in fr.globals_:
            tgt = fr.mod.frame
        elif name in fr.nonlocals:
            f = fr.parent
            while f is not None and name not in f.vars:
                f = f.parent
            tgt = f
        ct = fr.ctypes.get(name)
        if ct is not None:
            v = self.np.ccoerce(v, ct)
        d = tgt.vars
        had = name in d
        old = d.get(name)

        def undo():
            if had:
                d[name] = old
            else:
                d.pop(name, None)
        self.ctx.log(('local', id(d), name), undo)
        d[name] = v

    def assign_name_raw(self, name, v, fr):
        d = fr.vars
        had, old = name in d, d.get(name)

        def undo():
            if had:
                d[name] = old
            else:
                d.pop(name, None)
        self.ctx.log(('local', id(d), name), undo)
        d[name] = v

    def set_field(self, o, name, v):
        d = o.fields
        had, old = name in d, d.get(name)

        def undo():
            if had:
                d[name] = old
            else:
                d.pop(name, None)
        self.ctx.log(('field', o, name), undo)
        d[name] = v

    # ---------------------------------------------------------------- statements
    def block(self, body, fr):
        for st in body:
            self.stmt(st, fr)

    def stmt(self, st, fr):
        if hasattr(st, 'lineno') and fr.name != '<module>':
            self.ctx.loc = '%s:%d' % (fr.mod.name, st.lineno)
        m = getattr(self, 's_' + type(st).__name__, None)
        if m is None:
            raise Unsupported('statement %s' % type(st).__name__)
        m(st, fr)

    def s_Pass(self, st, fr):
        pass

    def s_Expr(self, st, fr):
        if isinstance(st.value, ast.Constant):
            return
        self.ev(st.value, fr)

    def s_Import(self, st, fr):
        for a in st.names:
            if a.asname:
                self.assign_name(a.asname, self.import_(a.name), fr)
            else:
                top = a.name.split('.')[0]
                self.import_(a.name)
                self.assign_name(top, self.import_(top), fr)

    def s_ImportFrom(self, st, fr):
        base = self.resolve_from(fr.mod, st.level, st.module or '')
        if base.split('.')[0] == 'funpy':
            m = self.module(base)
            for a in st.names:
                sub = self.world.find(base + '.' + a.name)
                if a.name == '*':
                    if m:
                        for k, v in list(m.vars.items()):
                            if not k.startswith('_'):
                                fr.vars[k] = v
                    continue
                if m is not None and a.name in m.vars:
                    v = m.vars[a.name]
                elif sub:
                    v = self.module(base + '.' + a.name)
                else:
                    v = POISON
                if v is POISON and m is not None and not m.loaded:
                    v = LazyName(m, a.name)
                fr.vars[a.asname or a.name] = v
            return
        for a in st.names:
            self.assign_name(a.asname or a.name, self.np.ext(base + '.' + a.name), fr)

    def s_FunctionDef(self, st, fr):
        f = self.make_func(st, fr)
        v = f
        for d in reversed(st.decorator_list):
            name = dotted_name(d if not isinstance(d, ast.Call) else d.func)
            if name.startswith('cython.'):
                if name == 'cython.boundscheck' and isinstance(d, ast.Call) and d.args[0].value is False:
                    f.unchecked = True
                continue
            dv = self.ev(d, fr)
            v = self.call(dv, [v], {})
        self.assign_name(st.name, v, fr)

    def make_func(self, st, fr):
        f = Func(st, fr.mod, fr, st.name, fr.cls if fr.name == '<class>' else None)
        f.defaults = [self.ev(d, fr) for d in st.args.defaults]
        f.kwdefaults = {a.arg: self.ev(d, fr) for a, d in zip(st.args.kwonlyargs, st.args.kw_defaults) if d is not None}
        f.ctypes = fr.mod.types.get(st.name, {}) if getattr(fr.mod, 'types', None) and fr.name == '<module>' else {}
        return f

    def s_ClassDef(self, st, fr):
        mangle(st)
        bases = []
        for b in st.bases:
            bases.append(self.ev(b, fr))
        cfr = Frame(fr.mod, fr, '<class>')
        cls = PyClass(st.name, bases, cfr.vars, fr.mod)
        cfr.cls = cls
        for s in st.body:
            try:
                self.stmt(s, cfr)
            except (Unsupported, PyRaise) as e:
                for n in assigned_names([s]):
                    cfr.vars[n] = POISON
        cls.ns = cfr.vars
        v = cls
        for d in reversed(st.decorator_list):
            v = self.call(self.ev(d, fr), [v], {})
        self.assign_name(st.name, v, fr)

    def s_Return(self, st, fr):
        raise Return(self.ev(st.value, fr) if st.value is not None else None)

    def s_Assign(self, st, fr):
        v = self.ev(st.value, fr)
        for t in st.targets:
            self.assign_to(t, v, fr)

    def s_AnnAssign(self, st, fr):
        if st.value is not None:
            self.assign_to(st.target, self.ev(st.value, fr), fr)

    def assign_to(self, t, v, fr):
        if isinstance(t, ast.Name):
            self.assign_name(t.id, v, fr)
        elif isinstance(t, (ast.Tuple, ast.List)):
            vs = self.np.iterate(v)
            stars = [i for i, e in enumerate(t.elts) if isinstance(e, ast.Starred)]
            if stars:
                i = stars[0]
                after = len(t.elts) - i - 1
                if len(vs) < len(t.elts) - 1:
                    raise PyRaise('ValueError', 'unpack')
                parts = list(vs[:i]) + [list(vs[i:len(vs) - after])] + list(vs[len(vs) - after:])
                for e, x in zip(t.elts, parts):
                    self.assign_to(e.value if isinstance(e, ast.Starred) else e, x, fr)
                return
            if len(vs) != len(t.elts):
                raise PyRaise('ValueError', 'unpack: expected %d values, got %d' % (len(t.elts), len(vs)))
            for e, x in zip(t.elts, vs):
                self.assign_to(e, x, fr)
        elif isinstance(t, ast.Subscript):
            o = self.ev(t.value, fr)
            k = self.key(t.slice, fr)
            self.np.setitem(o, k, v, self.is_unchecked(t.value, fr))
        elif isinstance(t, ast.Attribute):
            o = self.ev(t.value, fr)
            self.np.setattr(o, t.attr, v)
        else:
            raise Unsupported('assignment target %s' % type(t).__name__)

    def is_unchecked(self, node, fr):
        """C-typed array variable in a function with bounds checks disabled"""
        return fr.unchecked and isinstance(node, ast.Name) and node.id in fr.ctypes and \
            fr.ctypes[node.id].get('array', False)

    def s_AugAssign(self, st, fr):
        op = type(st.op).__name__
        if isinstance(st.target, ast.Name):
            cur = self.ev(ast.copy_location(ast.Name(st.target.id, ast.Load()), st.target), fr)
            v = self.ev(st.value, fr)
            r = self.np.inplace(op, cur, v)
            self.assign_name(st.target.id, r, fr)
        elif isinstance(st.target, ast.Subscript):
            o = self.ev(st.target.value, fr)
            k = self.key(st.target.slice, fr)
            un = self.is_unchecked(st.target.value, fr)
            cur = self.np.getitem(o, k, un)
            v = self.ev(st.value, fr)
            r = self.np.inplace(op, cur, v)
            self.np.setitem(o, k, r, un)
        elif isinstance(st.target, ast.Attribute):
            o = self.ev(st.target.value, fr)
            cur = self.np.getattr(o, st.target.attr)
            v = self.ev(st.value, fr)
            self.np.setattr(o, st.target.attr, self.np.inplace(op, cur, v))
        else:
            raise Unsupported('augmented assignment')

    def s_If(self, st, fr):
        if self.truth(self.ev(st.test, fr)):
            self.block(st.body, fr)
        else:
            self.block(st.orelse, fr)

    def s_Assert(self, st, fr):
        if not self.truth(self.ev(st.test, fr)):
            raise PyRaise('AssertionError', ast.unparse(st.test))

    def s_Raise(self, st, fr):
        name = 'Exception'
        if st.exc is None:
            raise PyRaise('reraise', '')
        e = st.exc
        if isinstance(e, ast.Call):
            name = dotted_name(e.func)
        elif isinstance(e, ast.Name):
            v = None
            try:
                v = self.lookup(e.id, fr)
            except PyRaise:
                pass
            name = v.exc if isinstance(v, PyRaise) else e.id
        raise PyRaise(name, ast.unparse(st))

    def s_Delete(self, st, fr):
        for t in st.targets:
            if isinstance(t, ast.Name):
                self.assign_name(t.id, POISON, fr)
            elif isinstance(t, ast.Subscript):
                self.np.delitem(self.ev(t.value, fr), self.key(t.slice, fr))
            else:
                raise Unsupported('del')

    def s_Global(self, st, fr):
        fr.globals_ |= set(st.names)

    def s_Nonlocal(self, st, fr):
        fr.nonlocals |= set(st.names)

    def s_Break(self, st, fr):
        raise Break()

    def s_Continue(self, st, fr):
        raise Continue()

    def s_With(self, st, fr):
        for it in st.items:
            v = self.ev(it.context_expr, fr)
            if it.optional_vars is not None:
                self.assign_to(it.optional_vars, v, fr)
        self.block(st.body, fr)

    EXC = {'ValueError': ['ValueError', 'Exception'], 'KeyError': ['KeyError', 'LookupError', 'Exception'],
           'IndexError': ['IndexError', 'LookupError', 'Exception'], 'LinAlgError': ['LinAlgError', 'ValueError', 'Exception']}

    def s_Try(self, st, fr):
        try:
            try:
                self.block(st.body, fr)
            except PyRaise as e:
                names = self.EXC.get(e.exc.split('.')[-1], [e.exc.split('.')[-1], 'Exception'])
                for h in st.handlers:
                    hn = []
                    if h.type is None:
                        ok = True
                    else:
                        ts = h.type.elts if isinstance(h.type, ast.Tuple) else [h.type]
                        hn = [dotted_name(t).split('.')[-1] for t in ts]
                        ok = any(n in names or n == 'BaseException' for n in hn)
                    if ok:
                        if h.name:
                            self.assign_name(h.name, e, fr)
                        try:
                            self.block(h.body, fr)
                        except PyRaise as e2:
                            if e2.exc == 'reraise':
                                raise e
                            raise
                        break
                else:
                    raise
            else:
                self.block(st.orelse, fr)
        finally:
            if st.finalbody:
                self.block(st.finalbody, fr)

    # ---------------------------------------------------------------- loops
    def s_For(self, st, fr):
        it = self.ev(st.iter, fr)
        from .loops import run_for
        run_for(self, st, fr, it)

    def s_While(self, st, fr):
        from .loops import run_while
        run_while(self, st, fr)

    # ---------------------------------------------------------------- expressions
    def truth(self, v):
        if v is None:
            return False
        if isinstance(v, bool):
            return v
        if T.is_scalar(v):
            if isinstance(v, T.Special):
                return True
            if T.is_bool(v):
                return self.ctx.branch(v)
            return self.ctx.branch(T.ne(v, 0))
        if isinstance(v, (str, tuple, list, dict, set)):
            return len(v) > 0
        if hasattr(v, 'vc_len'):
            return self.truth(T.gt(v.vc_len(self.np), 0))
        if isinstance(v, Arr):
            n = 1
            for d in v.shape:
                n = T.mul(n, d)
            if T.isz3(n) or n != 1:
                if not (T.isz3(n) and self.ctx.prove(T.eq(n, 1))):
                    if not T.isz3(n) or not self.ctx.feasible(T.to_z3(T.eq(n, 1))):
                        raise PyRaise('ValueError', 'The truth value of an array with more than one element is ambiguous')
                    if not self.ctx.branch(T.eq(n, 1)):
                        raise PyRaise('ValueError', 'The truth value of an array is ambiguous')
            return self.truth(v.elem(*[0] * v.ndim))
        if isinstance(v, (Func, Bound, PyClass, Ext, Native, Module, SymFun)):
            return True
        if isinstance(v, Obj):
            for nm in ('__bool__', '__len__'):
                f, _ = v.cls.find(nm)
                if f is not None:
                    return self.truth(self.call(Bound(f, v), [], {}))
            return True
        raise Unsupported('truth of %r' % (v,))

    def ev(self, e, fr):
        m = getattr(self, 'e_' + type(e).__name__, None)
        if m is None:
            raise Unsupported('expression %s' % type(e).__name__)
        return m(e, fr)

    def e_Constant(self, e, fr):
        return T.const(e.value)

    def e_Name(self, e, fr):
        v = self.lookup(e.id, fr)
        if isinstance(v, LazyName):
            v = v.get(self)
        return v

    def e_Tuple(self, e, fr):
        return tuple(self.seq(e.elts, fr))

    def e_List(self, e, fr):
        return list(self.seq(e.elts, fr))

    def e_Set(self, e, fr):
        return set(self.seq(e.elts, fr))

    def seq(self, elts, fr):
        out = []
        for x in elts:
            if isinstance(x, ast.Starred):
                out += list(self.np.iterate(self.ev(x.value, fr)))
            else:
                out.append(self.ev(x, fr))
        return out

    def e_Dict(self, e, fr):
        d = {}
        for k, v in zip(e.keys, e.values):
            if k is None:
                d.update(self.ev(v, fr))
            else:
                d[self.ev(k, fr)] = self.ev(v, fr)
        return d

    def e_BinOp(self, e, fr):
        a = self.ev(e.left, fr)
        b = self.ev(e.right, fr)
        return self.np.binop(type(e.op).__name__, a, b)

    def e_UnaryOp(self, e, fr):
        v = self.ev(e.operand, fr)
        op = type(e.op).__name__
        if op == 'Not':
            if T.is_bool(v):
                return T.lnot(v)
            return not self.truth(v)
        return self.np.unop(op, v)

    def e_BoolOp(self, e, fr):
        isand = isinstance(e.op, ast.And)
        v = None
        for i, x in enumerate(e.values):
            v = self.ev(x, fr)
            if i == len(e.values) - 1:
                return v
            t = self.truth(v)
            if isand and not t:
                return v if not T.isz3(v) else False
            if not isand and t:
                return v if not T.isz3(v) or not T.is_bool(v) else True
        return v

    def e_IfExp(self, e, fr):
        c = self.ev(e.test, fr)
        return self.ev(e.body, fr) if self.truth(c) else self.ev(e.orelse, fr)

    def e_Compare(self, e, fr):
        left = self.ev(e.left, fr)
        res = None
        for op, r in zip(e.ops, e.comparators):
            right = self.ev(r, fr)
            v = self.np.compare(type(op).__name__, left, right)
            if len(e.ops) == 1:
                return v
            if not self.truth(v):
                return False
            left = right
        return True

    def e_Attribute(self, e, fr):
        o = self.ev(e.value, fr)
        return self.np.getattr(o, e.attr)

    def key(self, s, fr):
        if isinstance(s, ast.Slice):
            return slice(*[self.ev(x, fr) if x is not None else None for x in (s.lower, s.upper, s.step)])
        if isinstance(s, ast.Tuple):
            return tuple(self.key(x, fr) for x in s.elts)
        return self.ev(s, fr)

    def e_Slice(self, e, fr):
        return self.key(e, fr)

    def e_Subscript(self, e, fr):
        o = self.ev(e.value, fr)
        k = self.key(e.slice, fr)
        return self.np.getitem(o, k, self.is_unchecked(e.value, fr))

    def e_Lambda(self, e, fr):
        f = Lambda(e, fr.mod, fr, '<lambda>')
        f.defaults = [self.ev(d, fr) for d in e.args.defaults]
        return f

    def e_JoinedStr(self, e, fr):
        return '<fstring>'

    def e_FormattedValue(self, e, fr):
        return '<fstring>'

    def e_Starred(self, e, fr):
        raise Unsupported('starred')

    def comp(self, gens, fr, emit):
        def rec(i, f):
            if i == len(gens):
                emit(f)
                return
            g = gens[i]
            it = self.ev(g.iter, f)
            for x in self.np.iterate(it):
                f2 = Frame(fr.mod, f, '<comp>')
                f2.unchecked, f2.ctypes = fr.unchecked, {}
                self.assign_to(g.target, x, f2)
                if all(self.truth(self.ev(c, f2)) for c in g.ifs):
                    rec(i + 1, f2)
        rec(0, fr)

    def e_ListComp(self, e, fr):
        if len(e.generators) == 1 and not e.generators[0].ifs:
            g = e.generators[0]
            it = self.ev(g.iter, fr)
            if hasattr(it, 'vc_listcomp'):
                def item(x):
                    f2 = Frame(fr.mod, fr, '<comp>')
                    f2.unchecked, f2.ctypes = fr.unchecked, {}
                    self.assign_to(g.target, x, f2)
                    return self.ev(e.elt, f2)
                return it.vc_listcomp(self, item)
        out = []
        self.comp(e.generators, fr, lambda f: out.append(self.ev(e.elt, f)))
        return out

    def e_GeneratorExp(self, e, fr):
        return tuple(self.e_ListComp(e, fr))

    def e_SetComp(self, e, fr):
        return set(self.e_ListComp(e, fr))

    def e_DictComp(self, e, fr):
        if len(e.generators) == 1 and not e.generators[0].ifs:
            g = e.generators[0]
            it = self.ev(g.iter, fr)
            if hasattr(it, 'vc_dictcomp'):
                def pair(x):
                    f2 = Frame(fr.mod, fr, '<comp>')
                    f2.unchecked, f2.ctypes = fr.unchecked, {}
                    self.assign_to(g.target, x, f2)
                    return self.ev(e.key, f2), self.ev(e.value, f2)
                return it.vc_dictcomp(self, pair)
        out = {}

        def emit(f):
            out[self.ev(e.key, f)] = self.ev(e.value, f)
        self.comp(e.generators, fr, emit)
        return out

    def e_NamedExpr(self, e, fr):
        v = self.ev(e.value, fr)
        self.assign_to(e.target, v, fr)
        return v

    # ---------------------------------------------------------------- calls
    def e_Call(self, e, fr):
        if isinstance(e.func, ast.Name) and e.func.id == 'super' and not e.args:
            c = fr
            while c.selfarg is None and c.parent is not None:
                c = c.parent
            return Super(c.fn.cls, c.selfarg)
        if isinstance(e.func, ast.Name) and e.func.id == 'print':
            return None
        f = self.ev(e.func, fr)
        args, kwargs = [], {}
        for a in e.args:
            if isinstance(a, ast.Starred):
                args += list(self.np.iterate(self.ev(a.value, fr)))
            else:
                args.append(self.ev(a, fr))
        for k in e.keywords:
            if k.arg is None:
                kwargs.update(self.ev(k.value, fr))
            else:
                kwargs[k.arg] = self.ev(k.value, fr)
        loc = self.ctx.loc
        if isinstance(f, Ext) and f.name == 'builtins.eval':
            if len(args) != 1 or kwargs or not isinstance(args[0], str) or '<str>' in args[0]:
                raise Unsupported('eval')
            return self.ev(ast.parse(args[0].strip(), mode='eval').body, fr)
        r = self.call(f, args, kwargs)
        self.ctx.loc = loc
        return r

    def call(self, f, args, kwargs=None):
        kwargs = kwargs or {}
        if isinstance(f, LazyName):
            f = f.get(self)
        if isinstance(f, Bound):
            if isinstance(f.fn, Func):
                return self.call_func(f.fn, [f.self_] + list(args), kwargs)
            return self.call(f.fn, [f.self_] + list(args), kwargs)
        if isinstance(f, Func):
            return self.call_func(f, list(args), kwargs)
        if isinstance(f, Native):
            return f.f(*args, **kwargs)
        if isinstance(f, SymFun):
            return f.f(self, *args, **kwargs)
        if isinstance(f, PyClass):
            return self.instantiate(f, args, kwargs)
        if isinstance(f, Ext):
            return self.np.call(f.name, list(args), kwargs)
        if isinstance(f, Obj):
            m, _ = f.cls.find('__call__')
            if m is not None:
                return self.call(Bound(m, f), args, kwargs)
            raise PyRaise('TypeError', 'object is not callable')
        if isinstance(f, StaticMeth):
            return self.call(f.f, args, kwargs)
        if f is None or T.is_scalar(f) or isinstance(f, (str, Arr, list, tuple, dict)):
            raise PyRaise('TypeError', '%r object is not callable' % type(f).__name__)
        raise Unsupported('call of %r' % (f,))

    def blank(self, cls):
        """object of the class without its constructor run"""
        o = Obj(cls)
        self.ctx.counter += 1
        o.born = self.ctx.counter
        self.ctx.reg[o.born] = o
        return o

    def instantiate(self, cls, args, kwargs):
        c = self.contracts.get('%s.%s' % (cls.mod.name, cls.name))
        if c is not None and c is not self.verifying and c.apply is not None:
            self.used_contracts.add(c.name)
            return c.apply(self, *args, **kwargs)
        if dict_class(cls):
            o = DictObj()
            o.cls = cls
            init, _ = cls.find('__init__')
            if init is not None:
                self.call(Bound(init, o), args, kwargs)
            return o
        o = Obj(cls)
        self.ctx.counter += 1
        o.born = self.ctx.counter
        self.ctx.reg[o.born] = o
        init, _ = cls.find('__init__')
        if init is not None:
            self.call(Bound(init, o), args, kwargs)
        return o

    def bind(self, f, args, kwargs):
        a = f.node.args
        names = [x.arg for x in a.posonlyargs + a.args]
        out = {}
        if len(args) > len(names) and a.vararg is None:
            raise PyRaise('TypeError', '%s() takes %d positional arguments but %d were given' % (f.name, len(names), len(args)))
        for n, v in zip(names, args):
            out[n] = v
        if a.vararg is not None:
            out[a.vararg.arg] = tuple(args[len(names):])
        kw = dict(kwargs)
        for n in names[len(args):] + [x.arg for x in a.kwonlyargs]:
            if n in kw:
                out[n] = kw.pop(n)
        for n in names:
            if n in kw:
                raise PyRaise('TypeError', 'multiple values for argument %s' % n)
        nd = len(f.defaults)
        for n, d in zip(names[len(names) - nd:], f.defaults):
            out.setdefault(n, d)
        for n, d in f.kwdefaults.items():
            out.setdefault(n, d)
        for n in names + [x.arg for x in a.kwonlyargs]:
            if n not in out:
                raise PyRaise('TypeError', 'missing argument %s of %s' % (n, f.name))
        if a.kwarg is not None:
            out[a.kwarg.arg] = kw
        elif kw:
            raise PyRaise('TypeError', '%s() got an unexpected keyword argument %s' % (f.name, list(kw)))
        return out

    MAXDEPTH = 60

    def call_func(self, f, args, kwargs):
        c = self.contracts.get(f.qualname)
        if c is not None and c.apply is not None and c is not self.verifying:
            self.used_contracts.add(c.name)
            return c.apply(self, *args, **kwargs)
        if c is not None and c is self.verifying and c.apply is not None and self.depth > 0:
            # recursive call: use the contract
            self.used_contracts.add(c.name)
            return c.apply(self, *args, **kwargs)
        return self.run_func(f, args, kwargs)

    def run_func(self, f, args, kwargs):
        if self.depth > self.MAXDEPTH:
            raise PyRaise('RecursionError', f.qualname)
        fr = Frame(f.mod, f.frame if f.frame.name != '<module>' and f.frame.name != '<class>' else None, f.name)
        fr.fn = f
        fr.unchecked = f.unchecked
        fr.ctypes = f.ctypes
        fr.cls = f.cls
        if f.frame.name == '<class>':
            fr.cls = f.frame.cls
        b = self.bind(f, args, kwargs)
        names = [x.arg for x in f.node.args.posonlyargs + f.node.args.args]
        if f.cls is not None and names:
            fr.selfarg = b.get(names[0])
        elif isinstance(f, Lambda) or f.frame.name not in ('<module>', '<class>'):
            fr.selfarg = None
        for n, v in b.items():
            ct = f.ctypes.get(n)
            fr.vars[n] = self.np.ccoerce(v, ct) if ct is not None else v
        self.inlined.add(f.qualname)
        self.depth += 1
        try:
            if isinstance(f.node, ast.Lambda):
                return self.ev(f.node.body, fr)
            try:
                self.block(f.node.body, fr)
            except Return as r:
                return r.v
            return None
        finally:
            self.depth -= 1


class LazyName:
    """name imported from a module that is still being loaded (import cycles)"""

    def __init__(self, mod, name):
        self.mod, self.name = mod, name

    def get(self, interp):
        v = self.mod.vars.get(self.name, POISON)
        if v is POISON:
            raise Unsupported('import of %s from %s' % (self.name, self.mod.name))
        return v


def dotted_name(n):
    if isinstance(n, ast.Attribute):
        return dotted_name(n.value) + '.' + n.attr
    if isinstance(n, ast.Name):
        return n.id
    return '?'


def assigned_names(body):
    out = []
    for st in body:
        for n in ast.walk(st):
            if isinstance(n, ast.Name) and isinstance(n.ctx, (ast.Store, ast.Del)):
                out.append(n.id)
            elif isinstance(n, (ast.FunctionDef, ast.ClassDef)):
                out.append(n.name)
            elif isinstance(n, (ast.Import, ast.ImportFrom)):
                out += [(a.asname or a.name).split('.')[0] for a in n.names]
    return list(dict.fromkeys(out))
