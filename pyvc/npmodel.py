"""Models of builtins, numpy, scipy and libc used by /repo.  Elementary array semantics are modelled
exactly (over the reals); FFT/DCT, LAPACK and file I/O enter through the assumed contracts in libspec."""
import builtins
from fractions import Fraction
import z3

from . import terms as T
from . import arrays as A
from .arrays import Arr, PyRaise
from .terms import Unsupported, Cx
from .ctx import Infeasible

NOTIMPL = None      # set below


class DType:
    def __init__(self, kind):
        self.kind = kind

    def __eq__(self, o):
        try:
            return dkind(o) == self.kind
        except Unsupported:
            return False

    def __hash__(self):
        return hash(self.kind)


DK = {'float': 'f', 'float64': 'f', 'double': 'f', 'float32': 'f', 'int': 'i', 'int64': 'i', 'int32': 'i', 'intp': 'i',
      'int_': 'i', 'complex': 'c', 'complex128': 'c', 'cdouble': 'c', 'complex_': 'c', 'bool': 'b', 'bool_': 'b',
      'object': 'o', 'object_': 'o', 'float_': 'f', 'd': 'f', 'longdouble': 'f', 'uint8': 'i'}


def dkind(d):
    from .interp import Ext
    if d is None:
        return None
    if isinstance(d, DType):
        return d.kind
    if isinstance(d, Ext):
        n = d.name.split('.')[-1]
        if n in DK:
            return DK[n]
    if isinstance(d, str) and d in DK:
        return DK[d]
    raise Unsupported('dtype %r' % (d,))


UF2 = {}
UF1 = {}


class Model:
    def __init__(self, interp):
        from .interp import Ext, Native
        self.I = interp
        self.ctx = interp.ctx
        self.Ext, self.Native = Ext, Native
        self.NOTIMPL = Ext('builtins.NotImplemented')
        self.libspec = {}
        self.cap = {}
        self.hooks = {}
        self.files = {}

    # ------------------------------------------------------------ names
    BUILTINS = ('range len abs min max sum int float complex bool str list tuple dict set isinstance issubclass '
                'enumerate zip reversed sorted any all map filter hasattr getattr setattr callable type round pow '
                'print repr id iter next slice object ValueError NotImplementedError AttributeError Exception '
                'TypeError IndexError KeyError AssertionError RuntimeError ZeroDivisionError StopIteration property '
                'classmethod staticmethod super divmod locals globals vars hash open format frozenset '
                'ArithmeticError OverflowError Warning UserWarning DeprecationWarning RuntimeWarning LookupError '
                'RecursionError FloatingPointError ImportError').split()

    def builtin(self, name):
        if name in ('NotImplemented',):
            return self.NOTIMPL
        if name == 'Ellipsis':
            return Ellipsis
        if name == '__debug__':
            return True
        if name.startswith('__cast_'):
            return self.Ext('cython.' + name)
        if name in self.BUILTINS or hasattr(builtins, name):
            return self.Ext('builtins.' + name)
        return None

    CONST = {'numpy.newaxis': None, 'numpy.inf': T.INF, 'numpy.Inf': T.INF, 'numpy.nan': T.NAN, 'numpy.NaN': T.NAN}

    def norm(self, d):
        for a, b in (('np.', 'numpy.'), ('numpy.core.multiarray.', 'numpy.')):
            if d.startswith(a):
                d = b + d[len(a):]
        return d

    def ext(self, dotted):
        dotted = self.norm(dotted)
        if dotted in self.CONST:
            return self.CONST[dotted]
        if dotted in ('numpy.pi', 'math.pi', 'scipy.pi'):
            return self.ctx.get_pi()
        return self.Ext(dotted)

    # ------------------------------------------------------------ C coercions
    def ccoerce(self, v, ct):
        if ct.get('array'):
            if isinstance(v, Arr):
                if v.ndim != ct['nd']:
                    raise PyRaise('ValueError', 'Buffer has wrong number of dimensions (expected %d, got %d)' % (ct['nd'], v.ndim))
                want = 'c' if ct['c'] == 'complex' else 'f'
                if v.kind != want:
                    raise PyRaise('ValueError', 'Buffer dtype mismatch')
                return v
            if v is None:
                return v
            if self.isobj(v):
                raise PyRaise('TypeError', 'a bytes-like object is required')
            raise PyRaise('TypeError', 'buffer expected')
        if ct.get('c') == 'int':
            if T.is_int(v) or T.is_bool(v):
                return T.to_int(v)
            if isinstance(v, Arr) and v.ndim == 0 and v.kind == 'i':
                return v.elem()
            if T.is_real(v):
                raise PyRaise('TypeError', "'float' object cannot be interpreted as an integer")
            raise PyRaise('TypeError', 'an integer is required')
        if ct.get('c') == 'double':
            if isinstance(v, Arr):
                v = self.item(v)
            if T.is_scalar(v) and not T.is_cx(v):
                return T.to_real(v)
            raise PyRaise('TypeError', 'must be real number')
        if ct.get('c') == 'complex':
            return T.to_cx(v)
        return v

    def isobj(self, v):
        from .interp import Obj
        return isinstance(v, Obj)

    # ------------------------------------------------------------ attributes
    def getattr(self, o, name, default=Unsupported):
        from .interp import (Obj, PyClass, Module, Super, Bound, Func, Prop, ClsMeth, StaticMeth, POISON, LazyName,
                             Native, Ext, SymFun)
        I = self.I
        if isinstance(o, LazyName):
            o = o.get(I)
        if isinstance(o, Module):
            if name in o.vars:
                v = o.vars[name]
                if v is POISON:
                    raise Unsupported('%s.%s is outside the subset' % (o.name, name))
                return v
            m = I.module(o.name + '.' + name)
            if m is not None:
                return m
            raise PyRaise('AttributeError', '%s.%s' % (o.name, name))
        if isinstance(o, Obj):
            if name in o.fields and not self._data_desc(o.cls, name):
                return o.fields[name]
            v, c = o.cls.find(name)
            if c is None:
                if name == '__class__':
                    return o.cls
                if name == '__dict__':
                    return o.fields
                g, _ = o.cls.find('__getattr__')
                if g is not None:
                    return I.call(Bound(g, o), [name], {})
                for b in o.cls.mro():
                    if isinstance(b, Ext) and b.name.startswith('abstract.'):
                        return Native(name, lambda *a, **k: (_ for _ in ()).throw(Unsupported('abstract ' + name)))
                if default is not Unsupported:
                    return default
                raise PyRaise('AttributeError', '%s has no attribute %s' % (o.cls.name, name))
            return self.bindattr(v, o, o.cls)
        if isinstance(o, PyClass):
            v, c = o.find(name)
            if c is None:
                if name == '__name__':
                    return o.name
                if name == '__init__':
                    return Native('object.__init__', lambda *a, **k: None)
                if name == '__subclasses__':
                    raise Unsupported('__subclasses__')
                for b in o.mro():
                    if isinstance(b, Ext) and b.name in ('enum.Enum', 'enum.IntEnum'):
                        pass
                raise PyRaise('AttributeError', '%s.%s' % (o.name, name))
            if isinstance(v, ClsMeth):
                return Bound(v.f, o)
            if isinstance(v, StaticMeth):
                return v.f
            if v is POISON:
                raise Unsupported('%s.%s is outside the subset' % (o.name, name))
            return v
        if isinstance(o, Super):
            cls = o.self_.cls if isinstance(o.self_, Obj) else o.self_
            v, c = cls.find(name, after=o.cls)
            if c is None:
                if name == '__init__':
                    return Native('object.__init__', lambda *a, **k: None)
                if name == '__setattr__':
                    return Native('object.__setattr__', lambda n, x: I.set_field(o.self_, n, x))
                if name == '__new__':
                    return Native('object.__new__', lambda c2, *a, **k: Obj(c2))
                raise PyRaise('AttributeError', 'super().' + name)
            return self.bindattr(v, o.self_, cls)
        if isinstance(o, Ext):
            return self.extattr(o, name)
        if isinstance(o, Arr):
            return self.arrattr(o, name)
        if T.is_scalar(o):
            return self.scalattr(o, name)
        if isinstance(o, Func):
            if name in o.attrs:
                return o.attrs[name]
            if name == '__name__':
                return o.name
            if name == 'cache_clear':
                return Native('cache_clear', lambda: None)
            if name in ('__doc__', '__module__', '__qualname__'):
                return name
            raise PyRaise('AttributeError', name)
        if isinstance(o, Native):
            if name == '__name__':
                return o.name
        if isinstance(o, Bound):
            if name == '__name__':
                return o.fn.name
            if name == '__self__':
                return o.self_
        if isinstance(o, DType):
            if name == 'kind':
                return {'o': 'O'}.get(o.kind, o.kind)
            if name == 'type':
                return o
            if name == 'name':
                return {'f': 'float64', 'c': 'complex128', 'i': 'int64', 'b': 'bool', 'o': 'object'}[o.kind]
        if isinstance(o, (list, dict, str, tuple, set)):
            return self.pymethod(o, name)
        if isinstance(o, PyRaise):
            return ('x',) if name == 'args' else '<exc>'
        if isinstance(o, slice):
            return {'start': o.start, 'stop': o.stop, 'step': o.step}[name]
        if isinstance(o, SymFun):
            if name in getattr(o, 'attrs', {}):
                return o.attrs[name]
            raise PyRaise('AttributeError', name)
        if hasattr(o, 'vc_getattr'):
            return o.vc_getattr(self, name)
        if o is None:
            raise PyRaise('AttributeError', "'NoneType' object has no attribute " + name)
        raise Unsupported('attribute %s of %r' % (name, o))

    def _data_desc(self, cls, name):
        from .interp import Prop
        v, c = cls.find(name)
        return isinstance(v, Prop)

    def bindattr(self, v, o, cls):
        from .interp import Obj, Bound, Func, Prop, ClsMeth, StaticMeth, POISON, Native
        if v is POISON:
            raise Unsupported('attribute outside the subset')
        if isinstance(v, Prop):
            return self.I.call(v.fget, [o], {})
        if isinstance(v, ClsMeth):
            return Bound(v.f, cls)
        if isinstance(v, StaticMeth):
            return v.f
        if isinstance(v, Func):
            return Bound(v, o)
        if isinstance(v, Native) and getattr(v, 'method', False):
            return Bound(v, o)
        if isinstance(v, Obj):
            g, _ = v.cls.find('__get__')
            if g is not None:
                return self.I.call(Bound(g, v), [o, cls], {})
        return v

    def setattr(self, o, name, v):
        from .interp import Obj, Bound, Func, Prop, PyClass
        if isinstance(o, Obj):
            p, _ = o.cls.find(name)
            if isinstance(p, Prop):
                if p.fset is None:
                    raise PyRaise('AttributeError', "can't set attribute " + name)
                self.I.call(p.fset, [o, v], {})
                return
            s, _ = o.cls.find('__setattr__')
            if s is not None:
                self.I.call(Bound(s, o), [name, v], {})
                return
            self.I.set_field(o, name, v)
            return
        if isinstance(o, Func):
            o.attrs[name] = v
            return
        if isinstance(o, Arr) and name == 'shape' and o.mask is None:
            raise Unsupported('shape assignment')
        if hasattr(o, 'vc_setattr'):
            return o.vc_setattr(self, name, v)
        raise Unsupported('setattr on %r' % (o,))

    def extattr(self, o, name):
        full = self.norm(o.name + '.' + name)
        if name == '__name__':
            return o.name.split('.')[-1]
        if o.name == 'builtins.object' and name == '__setattr__':
            return self.Native('__setattr__', lambda s, n, x: self.I.set_field(s, n, x))
        if o.name == 'numpy.finfo' or o.name.startswith('finfo!'):
            pass
        return self.ext(full)

    def scalattr(self, o, name):
        N = self.Native
        if name == 'real':
            return o.re if T.is_cx(o) else o
        if name == 'imag':
            return o.im if T.is_cx(o) else Fraction(0)
        if name in ('conj', 'conjugate'):
            return N(name, lambda: Cx(o.re, T.neg(o.im)) if T.is_cx(o) else o)
        if name == 'astype':
            def astype(d, **k):
                t = dkind(d)
                if t == 'i' and T.kind(o) not in 'ib':
                    if T.is_cx(o):
                        raise Unsupported('complex to integer')
                    return T.trunc(o)
                return T.cast(o, t)
            return N(name, astype)
        if name in ('squeeze', 'item', 'copy', 'flatten', 'ravel', 'sum', 'max', 'min', 'mean'):
            if name in ('flatten', 'ravel'):
                return N(name, lambda *a, **k: A.full(self.ctx, (1,), o, T.kind(o)))
            return N(name, lambda *a, **k: o)
        if name == 'shape':
            return ()
        if name == 'size':
            return 1
        if name == 'ndim':
            return 0
        if name == 'T':
            return o
        if name == 'dtype':
            return DType(T.kind(o))
        if name == 'any' or name == 'all':
            return N(name, lambda *a, **k: o if T.is_bool(o) else T.ne(o, 0))
        raise PyRaise('AttributeError', 'scalar has no attribute ' + name)

    def pymethod(self, o, name):
        N = self.Native
        ctx = self.ctx
        if isinstance(o, list):
            def mut(f):
                def g(*a, **k):
                    old = list(o)
                    ctx.log(('list', id(o)), lambda: o.__setitem__(slice(None), old))
                    return f(*a, **k)
                return g
            if name in ('append', 'extend', 'insert', 'pop', 'clear', 'reverse'):
                if name == 'extend':
                    return N(name, mut(lambda x: o.extend(self.iterate(x))))
                return N(name, mut(getattr(o, name)))
            if name in ('index', 'count', 'copy'):
                return N(name, getattr(o, name))
            if name == 'sort':
                return N(name, mut(lambda key=None, reverse=False: o.__setitem__(slice(None), self.b_sorted(list(o), key, reverse))))
        if isinstance(o, dict):
            if name in ('get', 'pop', 'setdefault', 'update', 'clear'):
                def g(*a, **k):
                    old = dict(o)
                    if name != 'get':
                        def undo():
                            o.clear()
                            o.update(old)
                        ctx.log(('dict', id(o)), undo)
                    if name == 'pop' and a[0] not in o and len(a) < 2:
                        raise PyRaise('KeyError', str(a[0]))
                    return getattr(o, name)(*a, **k)
                return N(name, g)
            if name in ('keys', 'values', 'items'):
                return N(name, lambda: [tuple(x) if name == 'items' else x for x in getattr(o, name)()])
            if name == 'copy':
                return N(name, lambda: dict(o))
            if hasattr(o, 'cls') and o.cls is not None:
                m, _ = o.cls.find(name)
                if m is not None:
                    from .interp import Bound
                    return Bound(m, o)
        if isinstance(o, str):
            if name in ('lower', 'upper', 'strip', 'format', 'split', 'startswith', 'endswith', 'join', 'replace', 'find',
                        'lstrip', 'rstrip', 'isdigit', 'count', 'capitalize', 'encode', 'rjust', 'ljust', 'islower'):
                def g(*a, **k):
                    if name == 'format':
                        if all(isinstance(x, (str, int)) for x in list(a) + list(k.values())) and '<str>' not in a:
                            return o.format(*a, **k)
                        return '<str>'
                    if any(not isinstance(x, (str, int, tuple, list)) for x in a):
                        return '<str>'
                    return getattr(o, name)(*a, **k)
                return N(name, g)
        if isinstance(o, (set, tuple)) and hasattr(o, name):
            return N(name, getattr(o, name))
        raise PyRaise('AttributeError', '%s has no attribute %s' % (type(o).__name__, name))

    # ------------------------------------------------------------ arrays
    def size(self, a):
        n = 1
        for d in a.shape:
            n = T.mul(n, d)
        return n

    def item(self, a):
        if not isinstance(a, Arr):
            return a
        for d in a.shape:
            if T.isz3(d):
                if not self.ctx.branch(T.eq(d, 1)):
                    raise PyRaise('ValueError', 'can only convert an array of size 1 to a Python scalar')
            elif d != 1:
                raise PyRaise('ValueError', 'can only convert an array of size 1 to a Python scalar')
        return a.elem(*[0] * a.ndim)

    def arrattr(self, a, name):
        N, ctx = self.Native, self.ctx
        f = lambda fn: N(name, fn)
        if a.mask is not None and name in ('shape', 'size') and a.ndim == 1:
            from .nplib import compress
            a = compress(self, a)
        if name == 'shape':
            return tuple(a.shape)
        if name == 'size':
            return self.size(a)
        if name == 'ndim':
            return a.ndim
        if name == 'T':
            return A.transpose(a, list(range(a.ndim))[::-1]) if a.ndim > 1 else a
        if name == 'dtype':
            return DType(a.kind)
        if name == 'nbytes':
            return T.mul(8, self.size(a))
        if name == 'real':
            return self.part(a, 're')
        if name == 'imag':
            return self.part(a, 'im')
        if name == 'flags':
            return Flags(a)
        if name == 'base':
            return None
        if name in ('copy', '__copy__', '__deepcopy__'):
            return f(lambda *x, **k: A.copy(a))
        if name == 'squeeze':
            return f(lambda axis=None: self.squeeze(a, axis))
        if name in ('flatten', 'ravel'):
            return f(lambda order='C': self.flatten(a, order, copy=(name == 'flatten')))
        if name == 'item':
            return f(lambda *i: self.item(a) if not i else self.getitem(a, i[0]))
        if name == 'astype':
            return f(lambda d, **k: A.copy(a, dkind(d)) if dkind(d) != 'i' or a.kind in 'ib' else self.truncarr(a))
        if name == 'view':
            return f(lambda *x: a)
        if name == 'fill':
            return f(lambda v: A.assign(ctx, a, v))
        if name == 'tolist':
            return f(lambda: self.iterate(a))
        if name == 'reshape':
            return f(lambda *s, **k: self.reshape(a, s[0] if len(s) == 1 else s, k.get('order', 'C')))
        if name == 'dot':
            return f(lambda b: self.call('numpy.dot', [a, b], {}))
        if name in ('sum', 'max', 'min', 'any', 'all', 'mean', 'prod', 'argmax', 'argmin', 'cumsum', 'transpose', 'conj',
                    'conjugate', 'round', 'trace', 'diagonal', 'argsort', 'nonzero', 'swapaxes', 'repeat'):
            return f(lambda *x, **k: self.call('numpy.' + name, [a] + list(x), k))
        if name == 'setflags':
            def sf(write=None, **k):
                if write is False:
                    a.buf.readonly = True
            return f(sf)
        if name in ('is_c_contig', 'is_f_contig', 'base', 'strides', 'data', 'itemsize'):
            raise Unsupported('array attribute ' + name)
        if hasattr(a, 'extra') and name in a.extra:
            return a.extra[name]
        raise PyRaise('AttributeError', 'ndarray has no attribute ' + name)

    def truncarr(self, a):
        return A.ufunc(self.ctx, T.trunc, [a], 'i')

    def part(self, a, w):
        if a.kind != 'c':
            if w == 're':
                return a
            r = A.new(self.ctx, a.shape, lambda *i: Fraction(0), 'f')
            r.mask = a.mask
            return r
        # real/imag of a complex array are views: modelled as snapshots (read-only use is checked)
        s = a.snap()
        r = A.new(self.ctx, a.shape, lambda *i: getattr(s(*i), w), 'f')
        r.buf.partof = (a, w)
        r.mask = a.mask
        return r

    def squeeze(self, a, axis=None):
        if not isinstance(a, Arr):
            return a
        r = a
        for ax in reversed(range(a.ndim)):
            d = r.shape[ax]
            if axis is not None and ax != (axis if axis >= 0 else a.ndim + axis):
                continue
            if T.isz3(d):
                if self.ctx.branch(T.eq(d, 1), 'squeeze'):
                    r = A.drop_axis(r, ax)
            elif d == 1:
                r = A.drop_axis(r, ax)
        return r

    def flatten(self, a, order='C', copy=True):
        ctx = self.ctx
        if a.ndim <= 1:
            if a.ndim == 0:
                return A.full(ctx, (1,), a.elem(), a.kind)
            return A.copy(a) if copy else a
        # drop unit axes first
        ones = [ax for ax, d in enumerate(a.shape) if (d == 1 if not T.isz3(d) else ctx.prove(T.eq(d, 1)))]
        if len(ones) >= a.ndim - 1:
            r = a
            keep = [ax for ax in range(a.ndim) if ax not in ones]
            drop = ones if keep else ones[:-1]
            for ax in sorted(drop, reverse=True):
                r = A.drop_axis(r, ax)
            return A.copy(r) if copy else r
        if a.ndim == 2:
            n, m = a.shape
            s = a.snap()
            if order == 'F':
                if not T.isz3(m) and m <= 8:
                    return self._catf([(lambda k: (lambda i: s(i, k)))(k) for k in range(m)], n, a.kind)
                if not T.isz3(n):
                    return A.new(ctx, (T.mul(n, m),), lambda i: A._pick([s(r, T.floordiv(i, n)) for r in range(n)])(T.mod(i, n)), a.kind)
            else:
                if not T.isz3(n) and n <= 8:
                    return self._catf([(lambda k: (lambda i: s(k, i)))(k) for k in range(n)], m, a.kind)
                if not T.isz3(m):
                    return A.new(ctx, (T.mul(n, m),), lambda i: A._pick([s(T.floordiv(i, m), r) for r in range(m)])(T.mod(i, m)), a.kind)
        raise Unsupported('flatten of symbolic shape')

    def _catf(self, fns, n, kind):
        m = len(fns)

        def fn(i):
            r = fns[-1](T.sub(i, T.mul(m - 1, n)))
            for k in range(m - 2, -1, -1):
                r = T.ite(T.lt(i, T.mul(k + 1, n)), fns[k](T.sub(i, T.mul(k, n))), r)
            return r
        return A.new(self.ctx, (T.mul(m, n),), fn, kind)

    def reshape(self, a, shape, order='C'):
        ctx = self.ctx
        if not isinstance(shape, (tuple, list)):
            shape = (shape,)
        shape = list(shape)
        tot = self.size(a)
        neg = [i for i, d in enumerate(shape) if not T.isz3(d) and d == -1]
        if neg:
            rest = 1
            for i, d in enumerate(shape):
                if i != neg[0]:
                    rest = T.mul(rest, d)
            if not T.isz3(rest) and rest == 1:
                shape[neg[0]] = tot
            elif not T.isz3(rest):
                shape[neg[0]] = T.floordiv(tot, rest)
            else:
                for d in a.shape:
                    if A.same_dim(ctx, d, rest):
                        o = [x for x in a.shape if x is not d]
                        shape[neg[0]] = self.size(Shape(o))
                        break
                else:
                    raise Unsupported('reshape -1')
        if len(shape) == a.ndim and all(A.same_dim(ctx, x, y) for x, y in zip(shape, a.shape)):
            return a
        newtot = self.size(Shape(shape))
        e = T.eq(newtot, tot)
        if e is not True and not ctx.prove(e):
            if not ctx.branch(e, 'reshape size'):
                raise PyRaise('ValueError', 'cannot reshape')
        sq = [d for d in shape if T.isz3(d) or d != 1]
        if len(sq) <= 1:
            fl = self.flatten(a, order)
            r = fl
            out = []
            # place unit axes
            ax = next((i for i, d in enumerate(shape) if T.isz3(d) or d != 1), 0)
            r = fl
            for i in range(len(shape)):
                if i < ax:
                    r = A.insert_axis(r, i)
            for i in range(ax + 1, len(shape)):
                r = A.insert_axis(r, i)
            return r
        if a.ndim == 1 and len(shape) == 2:
            s = a.snap()
            n, m = shape
            if order == 'F':
                return A.new(ctx, (n, m), lambda i, j: s(T.add(i, T.mul(n, j))), a.kind)
            return A.new(ctx, (n, m), lambda i, j: s(T.add(T.mul(i, m), j)), a.kind)
        # only unit axes inserted/removed?
        sqa = [d for d in a.shape if T.isz3(d) or d != 1]
        if len(sqa) == len(sq) and all(A.same_dim(ctx, x, y) for x, y in zip(sqa, sq)):
            r = a
            for ax in reversed(range(a.ndim)):
                if not T.isz3(a.shape[ax]) and a.shape[ax] == 1:
                    r = A.drop_axis(r, ax)
            for i, d in enumerate(shape):
                if not T.isz3(d) and d == 1:
                    r = A.insert_axis(r, i)
            return r
        return self.reshape(self.flatten(a, order), shape, order)

    def arr(self, v, kind=None):
        """asarray"""
        if isinstance(v, Arr):
            if kind and v.kind != kind:
                return A.copy(v, kind)
            return v
        if isinstance(v, (list, tuple)):
            r = A.from_list(self.ctx, [self.unwrap(x) for x in v])
            return r if not kind or r.kind == kind else A.copy(r, kind)
        if T.is_scalar(v):
            return A.full(self.ctx, (), v, kind or T.kind(v))
        if self.isobj(v):
            from .interp import Bound
            g, _ = v.cls.find('__array__')
            if g is not None:
                return self.I.call(Bound(g, v), [], {})
        raise Unsupported('array of %r' % (v,))

    def unwrap(self, x):
        if isinstance(x, Arr) and x.ndim == 0:
            return x.elem()
        if isinstance(x, (list, tuple)):
            return [self.unwrap(y) for y in x]
        return x

    # ------------------------------------------------------------ items
    def getitem(self, o, k, unchecked=False):
        from .interp import Obj, Bound
        if isinstance(o, Arr):
            if isinstance(k, Arr) and k.ndim == 0:
                k = k.elem()
            if isinstance(k, Obj):
                raise Unsupported('index by object')
            if isinstance(k, tuple):
                k = tuple(self.unwrap0(x) for x in k)
            if o.mask is not None and not (isinstance(k, Arr) and k.kind == 'b'):
                from .nplib import compress
                o = compress(self, o)
            if isinstance(k, (list,)):
                k = self.arr(k)
            r = A.getitem(self.ctx, o, k, unchecked)
            return r
        if isinstance(o, (list, tuple, str)):
            if isinstance(k, slice):
                k = slice(*[self.conc(x) if x is not None else None for x in (k.start, k.stop, k.step)])
                return o[k]
            if T.isz3(k):
                k = self.concretize(k, len(o))
            if not isinstance(k, int):
                raise PyRaise('TypeError', 'indices must be integers')
            if not -len(o) <= k < len(o):
                raise PyRaise('IndexError', 'index out of range')
            return o[k]
        if isinstance(o, dict):
            if k not in o:
                raise PyRaise('KeyError', str(k))
            return o[k]
        if isinstance(o, Obj):
            g, _ = o.cls.find('__getitem__')
            if g is None:
                raise PyRaise('TypeError', 'not subscriptable')
            return self.I.call(Bound(g, o), [k], {})
        if hasattr(o, 'vc_getitem'):
            return o.vc_getitem(self, k)
        if isinstance(o, self.Ext) and o.name.startswith('numpy.'):
            nm = o.name.split('.')[-1]
            if nm in ('r_', 'c_'):
                ks = list(k) if isinstance(k, tuple) else [k]
                if any(isinstance(x, slice) for x in ks):
                    raise Unsupported('np.r_ with slices')
                return self.call('numpy.hstack' if nm == 'r_' else 'numpy.column_stack', [ks], {})
            if nm in ('s_', 'index_exp'):
                return k
        if T.is_scalar(o):
            raise PyRaise('TypeError', 'scalar is not subscriptable')
        raise Unsupported('subscript of %r' % (o,))

    def unwrap0(self, x):
        return x.elem() if isinstance(x, Arr) and x.ndim == 0 else x

    def conc(self, x):
        if T.isz3(x):
            raise Unsupported('symbolic list bound')
        return x

    def concretize(self, k, n):
        for i in range(n):
            if self.ctx.branch(T.eq(k, i)):
                return i
        raise PyRaise('IndexError', 'index out of range')

    def setitem(self, o, k, v, unchecked=False):
        from .interp import Obj, Bound
        if isinstance(o, Arr):
            if hasattr(o.buf, 'partof'):
                raise Unsupported('write through a real/imag view')
            if isinstance(k, Arr) and k.ndim == 0:
                k = k.elem()
            if isinstance(k, tuple):
                k = tuple(self.unwrap0(x) for x in k)
            if isinstance(v, Arr) and v.ndim == 0:
                v = v.elem()
            if isinstance(v, (list, tuple)):
                v = self.arr(v)
            if not isinstance(v, Arr) and not T.is_scalar(v) and o.kind != 'o':
                if isinstance(v, Obj):
                    raise PyRaise('TypeError', 'float() argument must be a real number')
                raise Unsupported('array item of %r' % (v,))
            A.setitem(self.ctx, o, k, v, unchecked)
            return
        if isinstance(o, list):
            if T.isz3(k):
                k = self.concretize(k, len(o))
            old = list(o)
            self.ctx.log(('list', id(o)), lambda: o.__setitem__(slice(None), old))
            if isinstance(k, slice):
                o[k] = list(self.iterate(v))
            else:
                if not -len(o) <= k < len(o):
                    raise PyRaise('IndexError', 'assignment index out of range')
                o[k] = v
            return
        if isinstance(o, dict):
            had, old = k in o, o.get(k)

            def undo():
                if had:
                    o[k] = old
                else:
                    o.pop(k, None)
            self.ctx.log(('dict', id(o)), undo)
            o[k] = v
            return
        if isinstance(o, Obj):
            g, _ = o.cls.find('__setitem__')
            if g is None:
                raise PyRaise('TypeError', 'object does not support item assignment')
            self.I.call(Bound(g, o), [k, v], {})
            return
        if hasattr(o, 'vc_setitem'):
            return o.vc_setitem(self, k, v)
        raise Unsupported('item assignment on %r' % (o,))

    def delitem(self, o, k):
        if isinstance(o, dict):
            old = dict(o)

            def undo():
                o.clear()
                o.update(old)
            self.ctx.log(('dict', id(o)), undo)
            if k not in o:
                raise PyRaise('KeyError', str(k))
            del o[k]
            return
        if isinstance(o, list):
            old = list(o)
            self.ctx.log(('list', id(o)), lambda: o.__setitem__(slice(None), old))
            del o[k]
            return
        from .interp import Obj, Bound
        if isinstance(o, Obj):
            g, _ = o.cls.find('__delitem__')
            if g is None:
                raise PyRaise('TypeError', 'object does not support item deletion')
            self.I.call(Bound(g, o), [k], {})
            return
        raise Unsupported('del item on %r' % (o,))

    def iterate(self, v):
        from .interp import Obj, Bound, RangeVal
        if isinstance(v, (list, tuple)):
            return list(v)
        if isinstance(v, str):
            return list(v)
        if isinstance(v, dict):
            return list(v.keys())
        if isinstance(v, set):
            return sorted(v, key=str)
        if isinstance(v, RangeVal):
            n = T.simp(v.trip())
            if T.isz3(n):
                raise Unsupported('iteration over a symbolic range here')
            if n > 200:
                raise Unsupported('long unrolled iteration')
            return [T.add(v.lo, T.mul(v.step, i)) for i in range(n)]
        if isinstance(v, Arr):
            n = v.shape[0] if v.ndim else None
            if n is None:
                raise PyRaise('TypeError', 'iteration over a 0-d array')
            if T.isz3(n):
                raise Unsupported('iteration over a symbolic array')
            return [A.view(self.ctx, v, i) for i in range(n)]
        if isinstance(v, Obj):
            g, _ = v.cls.find('__iter__')
            if g is not None:
                return self.iterate(self.I.call(Bound(g, v), [], {}))
            ln, _ = v.cls.find('__len__')
            gi, _ = v.cls.find('__getitem__')
            if ln is not None and gi is not None:
                n = self.I.call(Bound(ln, v), [], {})
                if T.isz3(n):
                    raise Unsupported('iteration over a symbolic object')
                return [self.I.call(Bound(gi, v), [i], {}) for i in range(n)]
        if hasattr(v, 'vc_iterate'):
            return v.vc_iterate(self)
        if v is None or T.is_scalar(v):
            raise PyRaise('TypeError', 'object is not iterable')
        raise Unsupported('iteration over %r' % (v,))

    # ------------------------------------------------------------ operators
    OPN = {'Add': ('add', '__add__', '__radd__', '__iadd__'), 'Sub': ('subtract', '__sub__', '__rsub__', '__isub__'),
           'Mult': ('multiply', '__mul__', '__rmul__', '__imul__'), 'Div': ('true_divide', '__truediv__', '__rtruediv__', '__itruediv__'),
           'FloorDiv': ('floor_divide', '__floordiv__', '__rfloordiv__', '__ifloordiv__'), 'Mod': ('remainder', '__mod__', '__rmod__', '__imod__'),
           'Pow': ('power', '__pow__', '__rpow__', '__ipow__'), 'MatMult': ('matmul', '__matmul__', '__rmatmul__', '__imatmul__'),
           'BitAnd': ('bitwise_and', '__and__', '__rand__', '__iand__'), 'BitOr': ('bitwise_or', '__or__', '__ror__', '__ior__'),
           'BitXor': ('bitwise_xor', '__xor__', '__rxor__', '__ixor__'), 'LShift': ('left_shift', '__lshift__', '__rlshift__', '__ilshift__'),
           'RShift': ('right_shift', '__rshift__', '__rrshift__', '__irshift__')}

    def has_mixin(self, o):
        return any(isinstance(c, self.Ext) and c.name.endswith('NDArrayOperatorsMixin') for c in o.cls.mro())

    def ufunc_override(self, o):
        if self.isobj(o):
            v, c = o.cls.find('__array_ufunc__')
            return v
        return None

    def binop(self, op, a, b):
        from .interp import Obj, Bound
        uf, l, r, _ = self.OPN[op]
        if isinstance(a, Obj) or isinstance(b, Obj):
            if hasattr(a, 'vc_binop') or hasattr(b, 'vc_binop'):
                o = a if hasattr(a, 'vc_binop') else b
                return o.vc_binop(self, op, a, b)
            if isinstance(a, Arr) and isinstance(b, Obj) and self.ufunc_override(b) is not None:
                return self.dispatch_ufunc(uf, [a, b], {})
            if isinstance(a, Obj):
                f, _ = a.cls.find(l)
                if f is not None:
                    v = self.I.call(Bound(f, a), [b], {})
                    if v != self.NOTIMPL if isinstance(v, self.Ext) else True:
                        return v
                elif self.has_mixin(a):
                    return self.dispatch_ufunc(uf, [a, b], {})
            if isinstance(b, Obj):
                f, _ = b.cls.find(r)
                if f is not None:
                    v = self.I.call(Bound(f, b), [a], {})
                    if v != self.NOTIMPL if isinstance(v, self.Ext) else True:
                        return v
                elif self.has_mixin(b):
                    return self.dispatch_ufunc(uf, [a, b], {})
            raise PyRaise('TypeError', 'unsupported operand type(s) for %s' % op)
        for x in (a, b):
            if hasattr(x, 'vc_binop'):
                return x.vc_binop(self, op, a, b)
        if isinstance(a, (list, tuple)) and isinstance(b, (list, tuple)) and op == 'Add' and type(a) is type(b):
            return a + b
        if isinstance(a, str) or isinstance(b, str):
            if op == 'Mult' and '<str>' not in (a, b) and all(type(x) in (str, int) for x in (a, b)):
                return a * b
            if op in ('Mod', 'Add', 'Mult'):
                return '<str>' if not (isinstance(a, str) and isinstance(b, str) and op == 'Add') else a + b
        if isinstance(a, (list, tuple)) and T.is_int(b) and op == 'Mult' and not T.isz3(b):
            return a * b
        if isinstance(b, (list, tuple)) and T.is_int(a) and op == 'Mult' and not T.isz3(a):
            return b * a
        if op == 'Mult' and isinstance(a, list) and len(a) == 1 and T.is_int(b) and isinstance(a[0], Arr):
            a, b = b, a
        if op == 'Mult' and isinstance(b, list) and len(b) == 1 and T.is_int(a) and isinstance(b[0], Arr):
            from .spmodel import Repeated
            return Repeated(b[0], a)
        if isinstance(a, dict) or isinstance(b, dict) or a is None or b is None or isinstance(a, (str,)) or isinstance(b, str):
            raise PyRaise('TypeError', 'unsupported operand type(s) for ' + op)
        if isinstance(a, set) and isinstance(b, set):
            return {'BitAnd': a & b, 'BitOr': a | b, 'Sub': a - b}[op]
        if isinstance(a, (list, tuple)):
            a = self.arr(a)
        if isinstance(b, (list, tuple)):
            b = self.arr(b)
        if not (T.is_scalar(a) or isinstance(a, Arr)) or not (T.is_scalar(b) or isinstance(b, Arr)):
            raise Unsupported('%s of %r and %r' % (op, a, b))
        if op == 'MatMult':
            return self.matmul(a, b)
        if op in ('LShift', 'RShift') and T.isz3(a) and T.is_int(a) and T.is_int(b) and not T.isz3(b) and b >= 0:
            return T.mul(a, 2 ** b) if op == 'LShift' else T.floordiv(a, 2 ** b)
        if op in ('FloorDiv', 'Mod') and T.is_int(a) and T.is_int(b) and T.isz3(T.simp(b) if T.isz3(b) else b):
            q = self.intdiv(a, b)
            return q if op == 'FloorDiv' else T.sub(a, T.mul(q, b))
        if op == 'BitAnd' and T.is_int(a) and T.is_int(b) and not T.is_bool(a) and not T.is_bool(b) and (T.isz3(a) or T.isz3(b)):
            for x, y in ((a, b), (b, a)):
                if not T.isz3(T.simp(T.sub(x, y))) and T.simp(T.sub(x, y)) == 1:
                    return self.clearlow(x)
        return self.ufunc2(uf, a, b)

    def intdiv(self, a, b):
        """a // b for a symbolic b >= 1"""
        ctx = self.ctx
        if not ctx.prove(T.ge(b, 1)):
            raise Unsupported('floor division by a divisor that may not be positive')
        return ctx.intdiv(a, b)

    def clearlow(self, n):
        """n & (n - 1): nothing is known of it for n < 1; n without its lowest set bit; hibit(n): the largest power of two not above n"""
        ctx = self.ctx
        c, h = ctx.func('clearlow', 'i', 'i'), ctx.func('hibit', 'i', 'i')
        if not ctx.schemas.get('clearlow'):
            ctx.schema(h, lambda a: [z3.Implies(a[0] >= 1, z3.And(h(a[0]) >= 1, h(a[0]) <= a[0], a[0] < 2 * h(a[0])))])
            ctx.schema(c, lambda a: [z3.Implies(a[0] >= 1, z3.And(c(a[0]) >= 0, c(a[0]) < a[0], z3.Implies(c(a[0]) == 0, a[0] == h(a[0])),
                                                                 z3.Implies(c(a[0]) > 0, h(c(a[0])) == h(a[0]))))])
        return c(T.to_z3(n))

    def dispatch_ufunc(self, name, inputs, kwargs, method='__call__'):
        from .interp import Bound
        cands = list(inputs) + list(kwargs.get('out', ()) or ())
        seen = []
        for x in cands:
            f = self.ufunc_override(x)
            if f is None or any(x is y for y in seen):
                continue
            if any(self.isobj(y) and y.cls is x.cls for y in seen):
                continue
            seen.append(x)
        for x in seen:
            f = self.ufunc_override(x)
            r = self.I.call(Bound(f, x), [self.Ext('numpy.' + name), method] + list(inputs), dict(kwargs))
            if not (isinstance(r, self.Ext) and r == self.NOTIMPL):
                return r
        raise PyRaise('TypeError', 'operand type(s) all returned NotImplemented from __array_ufunc__')

    def ufunc2(self, name, a, b):
        f, kf = UF2[name]
        if name == 'power':
            return self.power(a, b)
        if f is T.div and (isinstance(a, Arr) or isinstance(b, Arr)):
            f = T.adiv
        r = A.ufunc(self.ctx, f, [a, b], kf)
        if isinstance(r, Arr) and r.ndim == 0:
            return r.elem()
        return r

    def power(self, a, b):
        def f(x, y):
            if T.is_int(y) or T.is_bool(y):
                y = T.to_int(y)
                if T.is_int(x) and T.isz3(y) and T.isz3(x) is False and x == 2:
                    if self.ctx.prove(y >= 0):
                        p = self.ctx.pow2(y)
                        return z3.ToInt(p) if T.isz3(p) else p
                return self.ctx.powi(x, y)
            if isinstance(y, Fraction) and y.denominator == 1:
                return self.ctx.powi(T.to_real(x) if not T.is_cx(x) else x, int(y))
            if isinstance(y, Fraction) and y == Fraction(1, 2):
                return self.ctx.sqrt(x)
            if T.is_cx(x) or T.is_cx(y):
                raise Unsupported('complex power')
            if not T.isz3(x) and T._is1(x):
                return Fraction(1)
            if not T.isz3(x) and x == 2:
                return self.ctx.rpow2(T.to_real(y))
            fr = self.ctx.func('rpow', 'ff', 'f')
            if 'rpow' not in self.ctx.schemas:
                self.ctx.schema(fr, lambda a_: [z3.Implies(a_[0] > 0, fr(*a_) > 0), z3.Implies(a_[1] == 0, fr(*a_) == 1),
                                                z3.Implies(a_[1] == 1, fr(*a_) == a_[0])])
            return fr(T.to_z3(T.to_real(x)), T.to_z3(T.to_real(y)))

        def kf(k1, k2):
            return T.join_kind(k1, k2) if T.join_kind(k1, k2) != 'b' else 'i'
        if not isinstance(a, Arr) and not isinstance(b, Arr):
            return f(a, b)
        if isinstance(b, Arr) and b.kind == 'i' and not isinstance(a, Arr) and T.is_int(a) and a == 2:
            ctx, sh, s = self.ctx, b.shape, b.snap()
            i = [ctx.fresh('pw', 'int') for _ in sh]
            if not ctx.prove(T.to_z3(T.implies(T.land(*[T.land(T.ge(x, 0), T.lt(x, d)) for x, d in zip(i, sh)]), T.ge(s(*i), 0)))):
                raise Unsupported('integer power with an exponent that may be negative')
            return A.new(ctx, sh, lambda *j: T.floor(ctx.pow2(s(*j))), 'i')
        if isinstance(b, Arr) and b.kind == 'f' and not isinstance(a, Arr) and (T.is_cx(a) or not T.isz3(a) and a == -1):
            ctx, s = self.ctx, b.snap()
            i = [ctx.fresh('pw', 'int') for _ in b.shape]
            y = s(*i)
            if not ctx.prove(T.implies(T.land(*[T.land(T.ge(x, 0), T.lt(x, d)) for x, d in zip(i, b.shape)]), T.integral(y))):
                raise Unsupported('power with an exponent that may not be an integer')
            k = 'c' if T.is_cx(a) else 'f'
            return A.new(ctx, b.shape, lambda *j: T.cast(ctx.powi(a, T.floor(s(*j))), k), k)
        r = A.ufunc(self.ctx, lambda x, y: f(x, y), [a, b], kf)
        return r.elem() if isinstance(r, Arr) and r.ndim == 0 else r

    def unop(self, op, v):
        from .interp import Obj, Bound
        if isinstance(v, Obj):
            nm = {'USub': '__neg__', 'UAdd': '__pos__', 'Invert': '__invert__'}[op]
            f, _ = v.cls.find(nm)
            if f is not None:
                return self.I.call(Bound(f, v), [], {})
            if self.has_mixin(v):
                return self.dispatch_ufunc({'USub': 'negative', 'UAdd': 'positive', 'Invert': 'invert'}[op], [v], {})
            raise PyRaise('TypeError', 'bad operand type for unary ' + op)
        if hasattr(v, 'vc_unop'):
            return v.vc_unop(self, op)
        if isinstance(v, self.Ext):
            return self.Ext('%s(%s)' % (op, v.name))     # opaque: any use of it is unsupported
        if op == 'USub':
            return A.ufunc(self.ctx, T.neg, [v], lambda k: k)
        if op == 'UAdd':
            return v
        if op == 'Invert':
            if T.is_bool(v):
                if isinstance(v, bool):
                    return ~int(v)     # ~True == -2 for Python bools
                return T.lnot(v)
            if isinstance(v, Arr) and v.kind == 'b':
                return A.ufunc(self.ctx, T.lnot, [v], 'b')
            return A.ufunc(self.ctx, lambda x: T.sub(T.neg(x), 1), [v], 'i')
        raise Unsupported(op)

    def compare(self, op, a, b):
        from .interp import Obj, Bound
        if op in ('Is', 'IsNot'):
            r = self.same(a, b)
            return r if op == 'Is' else (not r)
        if op in ('In', 'NotIn'):
            if isinstance(b, dict):
                r = a in b
            elif isinstance(b, (list, tuple, set)):
                r = False
                for x in b:
                    if self.same(x, a):
                        r = True
                        break
                    e = self.compare('Eq', a, x)
                    r = T.lor(r, e if T.is_bool(e) else self.I.truth(e))
                    if r is True:
                        break
            elif isinstance(b, str):
                r = a in b
            elif isinstance(b, Obj):
                f, _ = b.cls.find('__contains__')
                if f is None:
                    raise Unsupported('in')
                r = self.I.truth(self.I.call(Bound(f, b), [a], {}))
            elif hasattr(b, 'vc_contains'):
                r = b.vc_contains(self, a)
            else:
                raise Unsupported('in %r' % (b,))
            return r if op == 'In' else T.lnot(r)
        nm = {'Eq': '__eq__', 'NotEq': '__ne__', 'Lt': '__lt__', 'LtE': '__le__', 'Gt': '__gt__', 'GtE': '__ge__'}[op]
        ufn = {'Eq': 'equal', 'NotEq': 'not_equal', 'Lt': 'less', 'LtE': 'less_equal', 'Gt': 'greater', 'GtE': 'greater_equal'}[op]
        if isinstance(a, Obj) or isinstance(b, Obj):
            if isinstance(a, Obj):
                f, _ = a.cls.find(nm)
                if f is not None:
                    return self.I.call(Bound(f, a), [b], {})
                if op == 'NotEq':
                    f, _ = a.cls.find('__eq__')
                    if f is not None:
                        return T.lnot(self.tobool(self.I.call(Bound(f, a), [b], {})))
                if self.has_mixin(a):
                    return self.dispatch_ufunc(ufn, [a, b], {})
            if op in ('Eq', 'NotEq'):
                return (a is b) == (op == 'Eq')
            raise PyRaise('TypeError', 'comparison not supported')
        if a is None or b is None or isinstance(a, str) or isinstance(b, str):
            if op in ('Eq', 'NotEq'):
                r = (a is b) or (isinstance(a, str) and isinstance(b, str) and a == b)
                return r if op == 'Eq' else not r
            raise PyRaise('TypeError', 'comparison not supported')
        if isinstance(a, (tuple, list)) and isinstance(b, (tuple, list)):
            if op in ('Eq', 'NotEq'):
                if len(a) != len(b) or type(a) is not type(b):
                    r = False
                else:
                    r = T.land(*[self.tobool(self.compare('Eq', x, y)) for x, y in zip(a, b)])
                return r if op == 'Eq' else T.lnot(r)
            raise Unsupported('sequence ordering')
        if isinstance(a, (list, tuple)) and isinstance(b, (Arr,)):
            a = self.arr(a)
        if isinstance(b, (list, tuple)) and isinstance(a, (Arr,)):
            b = self.arr(b)
        if (T.is_scalar(a) or isinstance(a, Arr)) and (T.is_scalar(b) or isinstance(b, Arr)):
            r = A.ufunc(self.ctx, UF2[ufn][0], [a, b], 'b')
            return r.elem() if isinstance(r, Arr) and r.ndim == 0 else r
        if op in ('Eq', 'NotEq'):
            r = self.same(a, b) or (isinstance(a, (DType, self.Ext)) and a == b)
            return r if op == 'Eq' else not r
        raise Unsupported('comparison of %r and %r' % (a, b))

    def tobool(self, v):
        if T.is_bool(v):
            return v
        return self.I.truth(v)

    def same(self, a, b):
        if a is b:
            return True
        if a is None or b is None:
            return False
        if isinstance(a, self.Ext) and isinstance(b, self.Ext):
            return a == b
        if isinstance(a, bool) and isinstance(b, bool):
            return a == b
        if isinstance(a, Arr) and isinstance(b, Arr):
            return False
        if isinstance(a, DType) or isinstance(b, DType):
            return a == b
        return False

    def inplace(self, op, a, b):
        from .interp import Obj, Bound
        uf, l, r, i = self.OPN[op]
        if isinstance(a, Arr):
            if isinstance(b, Obj) and self.ufunc_override(b) is not None:
                return self.dispatch_ufunc(uf, [a, b], {'out': (a,)})
            if isinstance(b, (list, tuple)):
                b = self.arr(b)
            if op == 'MatMult':
                raise Unsupported('@=')
            if hasattr(a.buf, 'partof'):
                raise Unsupported('in-place update of a real/imag view')
            res = self.binop(op, a, b)
            rk = res.kind if isinstance(res, Arr) else T.kind(res)
            if T.ORDER[rk] > T.ORDER[a.kind]:
                raise PyRaise('UFuncTypeError', 'Cannot cast ufunc output')
            if a.buf.readonly:
                raise PyRaise('ValueError', 'output array is read-only')
            if isinstance(res, Arr) and not (res.ndim == a.ndim and all(A.same_dim(self.ctx, x, y) for x, y in zip(res.shape, a.shape))):
                for x, y in zip(res.shape, a.shape):
                    if res.ndim != a.ndim or not self.ctx.branch(T.eq(x, y)):
                        raise PyRaise('ValueError', 'non-broadcastable output operand')
            t = Arr(a.buf, a.shape, a.fwd, a.inv, a.whole, a.mask)
            if t.mask is not None and isinstance(res, Arr):
                res.mask = t.mask
            A.assign(self.ctx, t, res)
            return a
        if isinstance(a, Obj):
            f, _ = a.cls.find(i)
            if f is not None:
                v = self.I.call(Bound(f, a), [b], {})
                if not (isinstance(v, self.Ext) and v == self.NOTIMPL):
                    return v
            elif self.has_mixin(a):
                f, _ = a.cls.find(l)
                return self.dispatch_ufunc(uf, [a, b], {'out': (a,)})
        if isinstance(a, list) and op == 'Add':
            old = list(a)
            self.ctx.log(('list', id(a)), lambda: a.__setitem__(slice(None), old))
            a.extend(self.iterate(b))
            return a
        return self.binop(op, a, b)

    # ------------------------------------------------------------ linear algebra basics
    def matmul(self, a, b):
        ctx = self.ctx
        for x in (a, b):
            if self.isobj(x):
                return self.binop('MatMult', a, b)
        a, b = self.arr(a), self.arr(b)
        if a.ndim == 0 or b.ndim == 0:
            raise PyRaise('ValueError', 'matmul: 0-d operand')
        n1, n2 = a.shape[-1], b.shape[0 if b.ndim == 1 else -2]
        if not A.same_dim(ctx, n1, n2):
            if not ctx.branch(T.eq(n1, n2), 'matmul'):
                raise PyRaise('ValueError', 'matmul: mismatch in core dimension')
        k = T.join_kind(a.kind, b.kind)
        if k == 'b':
            k = 'i'
        sa, sb = a.snap(), b.snap()
        hi = T.sub(n1, 1)

        def S(f):
            r = ctx.Sum(0, hi, f)
            return T.cast(r, k) if k != 'i' else r
        kk = 'f' if k == 'i' else k
        if a.ndim == 1 and b.ndim == 1:
            return S(lambda j: T.mul(sa(j), sb(j)))
        if a.ndim == 2 and b.ndim == 1:
            return A.new(ctx, (a.shape[0],), lambda i: S(lambda j: T.mul(sa(i, j), sb(j))), kk)
        if a.ndim == 1 and b.ndim == 2:
            return A.new(ctx, (b.shape[1],), lambda i: S(lambda j: T.mul(sa(j), sb(j, i))), kk)
        if a.ndim == 2 and b.ndim == 2:
            return A.new(ctx, (a.shape[0], b.shape[1]), lambda i, q: S(lambda j: T.mul(sa(i, j), sb(j, q))), kk)
        raise Unsupported('matmul of rank > 2')

    def reduce_axis(self, a, axis, f0):
        """f0(n, elemfn) -> scalar ; apply along axis (None = all, C order)"""
        ctx = self.ctx
        if not isinstance(a, Arr):
            a = self.arr(a)
        if a.mask is not None:
            raise Unsupported('reduction of a masked selection')
        if axis is None:
            if a.ndim == 0:
                return f0(1, lambda i: a.elem())
            s = a.snap()
            dims = a.shape

            def rec(ax, idx):
                if ax == len(dims):
                    return s(*idx)
                return f0(dims[ax], lambda i: rec(ax + 1, idx + (i,)))
            return rec(0, ())
        if isinstance(axis, tuple):
            if len(axis) == a.ndim:
                return self.reduce_axis(a, None, f0)
            raise Unsupported('axis tuple')
        if axis < 0:
            axis += a.ndim
        if axis >= a.ndim:
            raise PyRaise('AxisError', 'axis out of bounds')
        s = a.snap()
        if a.ndim == 1:
            return f0(a.shape[0], lambda i: s(i))
        sh = a.shape[:axis] + a.shape[axis + 1:]
        memo = {}

        def fn(*idx):
            return f0(a.shape[axis], lambda i: s(*(idx[:axis] + (i,) + idx[axis:])))
        z = fn(*[0] * len(sh)) if all(not T.isz3(d) for d in sh) and all(d > 0 for d in sh) else None
        kind = T.kind(z) if z is not None else None
        return sh, fn, kind

    def reduction(self, name, a, axis, keepdims=False):
        ctx = self.ctx
        a = self.arr(a)
        if name in ('max', 'min') and a.ndim:
            n = self.size(a)
            z = T.eq(n, 0)
            if z is not False and ctx.branch(z, 'zero-size reduction'):
                raise PyRaise('ValueError', 'zero-size array to reduction operation which has no identity')

        def f0(n, el):
            hi = T.sub(n, 1)
            if name == 'sum':
                r = ctx.Sum(0, hi, lambda i: el(i) if not T.is_bool(el(i)) else T.to_int(el(i)))
                return r
            if name in ('max', 'min'):
                if not T.isz3(n):
                    r = el(0)
                    for i in range(1, n):
                        r = (T.maxv if name == 'max' else T.minv)(r, el(i))
                    return r
                return ctx.extremum(name, n, el)
            if name in ('all', 'any'):
                tob = lambda v: v if T.is_bool(v) else T.ne(v, 0)
                if not T.isz3(n):
                    vs = [tob(el(i)) for i in range(n)]
                    return T.land(*vs) if name == 'all' else T.lor(*vs)
                return ctx.quant(name, n, lambda i: tob(el(i)))
            if name == 'prod':
                if T.isz3(n):
                    return ctx.prod(n, el)
                r = 1
                for i in range(n):
                    r = T.mul(r, el(i))
                return r
            raise Unsupported(name)
        if axis is None and a.ndim > 1 and a.mask is None and any(T.isz3(d) for d in a.shape) and name in ('max', 'min', 'all', 'any'):
            el, dims = a.snap(), tuple(a.shape)
            if name in ('max', 'min'):
                r = ctx.extremum(name, dims, el)
            else:
                r = ctx.quant(name, dims, lambda *i: el(*i) if T.is_bool(el(*i)) else T.ne(el(*i), 0))
        else:
            r = self.reduce_axis(a, axis, f0)
        if isinstance(r, tuple):
            sh, fn, kind = r
            k = kind or {'sum': a.kind if a.kind in 'fc' else ('i' if False else 'f'), 'max': a.kind, 'min': a.kind, 'all': 'b', 'any': 'b',
                         'prod': a.kind}[name]
            cache = {}
            r = A.new(ctx, sh, lambda *i: T.cast(fn(*i), k), k)
            if keepdims:
                r = A.insert_axis(r, axis if axis >= 0 else a.ndim + axis)
        elif keepdims:
            r = A.full(ctx, (1,) * a.ndim, r, T.kind(r))
        return r

    # ------------------------------------------------------------ calls of library functions
    def call(self, name, args, kw):
        name = self.norm(name)
        if name in self.hooks:
            return self.hooks[name](self, *args, **kw)
        root = name.split('.')[0]
        if root == 'builtins':
            m = getattr(self, 'b_' + name.split('.')[-1], None)
            if m is None:
                n = name.split('.')[-1]
                if n in ('ValueError', 'NotImplementedError', 'Exception', 'TypeError', 'RuntimeError') or n.endswith('Error') or n.endswith('Warning'):
                    return PyRaise(n, '')
                raise Unsupported('builtin ' + n)
            return m(*args, **kw)
        if root == 'cython':
            n = name.split('.')[-1]
            if n.startswith('__cast_'):
                t = n[7:]
                v = args[0]
                if t in ('Py_ssize_t', 'int', 'long'):
                    return T.trunc(v)
                return T.to_real(v)
            raise Unsupported(name)
        # __array_function__ / __array_ufunc__ protocols
        if root == 'numpy':
            fn = name.split('.')[-1]
            objs = []

            def gather(x, d=0):
                if self.isobj(x):
                    objs.append(x)
                elif isinstance(x, (list, tuple)) and d < 2:
                    for y in x:
                        gather(y, d + 1)
            for x in list(args) + list(kw.values()):
                gather(x)
            if objs:
                fnk = {'divide': 'true_divide' if False else 'divide', 'abs': 'absolute', 'conj': 'conjugate' if False else 'conj',
                       'max': 'max', 'min': 'min'}.get(fn, fn)
                if fn in UF1 or fn in UF2 or fn in ('power', 'float_power', 'matmul'):
                    if any(self.ufunc_override(o) is not None for o in objs):
                        k2 = dict(kw)
                        if 'out' in k2 and not isinstance(k2['out'], tuple):
                            k2['out'] = (k2['out'],)
                        un = {'abs': 'absolute', 'true_divide': 'divide', 'conj': 'conjugate', 'conjugate': 'conjugate'}.get(fnk, fnk)
                        from .interp import Bound
                        h = None
                        return self.dispatch_ufunc(un, [self._c(x) for x in args], k2)
                o = next((o for o in objs if o.cls.find('__array_function__')[0] is not None), None)
                if o is not None and fn not in ('asarray', 'array', 'asfortranarray', 'ascontiguousarray', 'asanyarray'):
                    from .interp import Bound
                    f, _ = o.cls.find('__array_function__')
                    types = []
                    for x in objs:
                        if x.cls.find('__array_function__')[0] is not None and x.cls not in types:
                            types.append(x.cls)
                    r = self.I.call(Bound(f, o), [self.Ext('numpy.' + fn), tuple(types), tuple(args), dict(kw)], {})
                    if isinstance(r, self.Ext) and r == self.NOTIMPL:
                        raise PyRaise('TypeError', 'no implementation found for numpy.%s' % fn)
                    return r
        from . import nplib, spmodel
        key = name
        f = nplib.LIB.get(key)
        if f is None and root == 'numpy':
            f = nplib.LIB.get('numpy.' + name.split('.')[-1]) if name.count('.') == 1 else None
            if f is None and name.split('.')[-1] in UF1 and name.count('.') == 1:
                f = lambda M, x, **k: M.uf1(name.split('.')[-1], x, **k)
            if f is None and name.split('.')[-1] in UF2 and name.count('.') == 1:
                f = lambda M, x, y, **k: M.uf2(name.split('.')[-1], x, y, **k)
        if f is None and (root == 'libc' or root == 'math'):
            fn = name.split('.')[-1]
            if fn == 'round':      # C round: half away from zero
                x = args[0]
                x = T.to_real(x)
                return T.to_real(T.ite(T.ge(x, 0), T.floor(T.add(x, Fraction(1, 2))), T.ceil(T.sub(x, Fraction(1, 2)))))
            if root == 'math' and fn in ('ceil', 'floor', 'trunc') and not self.isobj(args[0]):
                return {'ceil': T.ceil, 'floor': T.floor, 'trunc': T.trunc}[fn](self.item(args[0]))
            fn = {'fabs': 'absolute', 'abs': 'absolute', 'fmax': 'maximum', 'fmin': 'minimum', 'pow': 'power', 'acos': 'arccos',
                  'asin': 'arcsin', 'atan': 'arctan', 'copysign': 'copysign'}.get(fn, fn)
            if fn in UF1:
                return self.uf1(fn, self.item(args[0]))
            if fn in UF2:
                return self.uf2(fn, self.item(args[0]), self.item(args[1]))
        if f is None:
            raise Unsupported('library function ' + name)
        return f(self, *args, **kw)

    def _c(self, x):
        return x

    def uf1(self, name, x, out=None, where=None, **k):
        if isinstance(x, (list, tuple)):
            x = self.arr(x)
        if hasattr(x, 'vc_uf1'):
            return x.vc_uf1(self, name)
        if not (T.is_scalar(x) or isinstance(x, Arr)):
            if x is None:
                raise PyRaise('TypeError', 'ufunc on None')
            raise Unsupported('%s of %r' % (name, x))
        f, kf = UF1[name]
        r = A.ufunc(self.ctx, lambda v: f(self.ctx, v), [x], kf)
        if isinstance(r, Arr) and r.ndim == 0:
            r = r.elem()
        return self._out(r, out)

    def uf2(self, name, x, y, out=None, where=None, **k):
        x = self.arr(x) if isinstance(x, (list, tuple)) else x
        y = self.arr(y) if isinstance(y, (list, tuple)) else y
        if name == 'power' or name == 'float_power':
            r = self.power(x, y)
        else:
            for z in (x, y):
                if hasattr(z, 'vc_binop'):
                    return z.vc_binop(self, name, x, y)
                if not (T.is_scalar(z) or isinstance(z, Arr)):
                    raise Unsupported('%s of %r' % (name, z))
            r = self.ufunc2(name, x, y)
        return self._out(r, out)

    def _out(self, r, out):
        if out is None:
            return r
        if isinstance(out, tuple):
            out = out[0]
        A.assign(self.ctx, out, r)
        return out

    # ------------------------------------------------------------ builtins
    def b_range(self, *a):
        from .interp import RangeVal
        a = [self.item(x) if isinstance(x, Arr) else x for x in a]
        for x in a:
            if T.is_real(x):
                raise PyRaise('TypeError', "'float' object cannot be interpreted as an integer")
            if not (T.is_int(x) or T.is_bool(x)):
                raise Unsupported('range(%r)' % (x,))
        a = [T.to_int(x) for x in a]
        if len(a) == 1:
            a = [0] + a
        if len(a) == 2:
            a = a + [1]
        if T.isz3(a[2]):
            raise Unsupported('symbolic range step')
        return RangeVal(*a)

    def b_len(self, x):
        from .interp import Obj, Bound, RangeVal
        if isinstance(x, (list, tuple, dict, str, set)):
            return len(x)
        if isinstance(x, Arr):
            if x.ndim == 0:
                raise PyRaise('TypeError', 'len() of unsized object')
            return x.shape[0]
        if isinstance(x, Obj):
            f, _ = x.cls.find('__len__')
            if f is None:
                raise PyRaise('TypeError', 'object has no len()')
            return self.I.call(Bound(f, x), [], {})
        if isinstance(x, RangeVal):
            return x.trip()
        if T.is_scalar(x) or x is None:
            raise PyRaise('TypeError', 'object has no len()')
        if hasattr(x, 'vc_len'):
            return x.vc_len(self)
        raise Unsupported('len')

    def b_abs(self, x):
        from .interp import Obj, Bound
        if isinstance(x, Obj):
            f, _ = x.cls.find('__abs__')
            if f is not None:
                return self.I.call(Bound(f, x), [], {})
        return self.call('numpy.absolute', [x], {})

    def _mm(self, f, a, k):
        xs = self.iterate(a[0]) if len(a) == 1 else list(a)
        if not xs:
            if 'default' in k:
                return k['default']
            raise PyRaise('ValueError', 'empty sequence')
        xs = [self.item(x) if isinstance(x, Arr) else x for x in xs]
        if 'key' in k and k['key'] is not None:
            ks = [self.I.call(k['key'], [x], {}) for x in xs]
            best = xs[0], ks[0]
            for x, kk in zip(xs[1:], ks[1:]):
                if self.I.truth(T.gt(kk, best[1]) if f is T.maxv else T.lt(kk, best[1])):
                    best = x, kk
            return best[0]
        r = xs[0]
        for x in xs[1:]:
            r = f(r, x)
        return r

    def b_max(self, *a, **k):
        if len(a) == 1 and isinstance(a[0], Arr) and T.isz3(a[0].shape[0]):
            return self.reduction('max', a[0], None)
        return self._mm(T.maxv, a, k)

    def b_min(self, *a, **k):
        if len(a) == 1 and isinstance(a[0], Arr) and T.isz3(a[0].shape[0]):
            return self.reduction('min', a[0], None)
        return self._mm(T.minv, a, k)

    def b_sum(self, xs, start=0):
        r = start
        for x in self.iterate(xs):
            r = self.binop('Add', r, x)
        return r

    def b_int(self, x=0, *a):
        x = self.item(x) if isinstance(x, Arr) else x
        if isinstance(x, str):
            return int(x)
        if T.is_cx(x):
            raise PyRaise('TypeError', 'int() of complex')
        if isinstance(x, T.Special):
            raise PyRaise('OverflowError', 'cannot convert float infinity to integer')
        if not T.is_scalar(x):
            raise PyRaise('TypeError', 'int() argument')
        return T.trunc(x)

    def b_float(self, x=0):
        x = self.item(x) if isinstance(x, Arr) else x
        if isinstance(x, str):
            return T.const(float(x))
        if T.is_cx(x):
            raise PyRaise('TypeError', 'float() of complex')
        from .interp import Obj, Bound
        if isinstance(x, Obj):
            g, _ = x.cls.find('__float__')
            if g is not None:
                return self.I.call(Bound(g, x), [], {})
        if not T.is_scalar(x):
            raise PyRaise('TypeError', 'float() argument')
        return T.to_real(x)

    def b_complex(self, x=0, y=0):
        return T.add(T.to_cx(self.item(x)), T.mul(Cx(Fraction(0), Fraction(1)), T.to_cx(self.item(y))))

    def b_bool(self, x=False):
        if T.is_bool(x):
            return x
        if isinstance(x, Arr) and x.ndim == 0:
            return self.b_bool(x.elem())
        if T.is_scalar(x) and not isinstance(x, T.Special):
            return T.ne(x, 0)
        return self.I.truth(x)

    def b_str(self, *a):
        return a[0] if a and isinstance(a[0], str) else '<str>'

    b_repr = b_str
    b_format = b_str

    def b_list(self, x=()):
        if hasattr(x, 'vc_list'):
            return x.vc_list(self)
        return list(self.iterate(x))

    def b_tuple(self, x=()):
        return tuple(self.iterate(x))

    def b_set(self, x=()):
        xs = [v.elem() if isinstance(v, Arr) and v.ndim == 0 else v for v in self.iterate(x)]
        if any(T.isz3(v) for v in xs):
            if self.ctx.sub is not None or len(xs) > 4 or not all(T.is_int(v) for v in xs):
                raise Unsupported('set of symbolic values')
            out = []
            for v in xs:
                if not any(self.I.truth(T.eq(v, u)) for u in out):
                    out.append(v)
            return set(out)
        return set(xs)

    b_frozenset = b_set

    def b_dict(self, *a, **k):
        if len(a) == 1 and not k and hasattr(a[0], 'vc_dict'):
            return a[0].vc_dict(self)
        d = dict(a[0]) if a and isinstance(a[0], dict) else dict(self.iterate(a[0]) if a else ())
        d.update(k)
        return d

    def isinst(self, x, c):
        from .interp import Obj, PyClass, Func, Bound, Lambda, SymFun, Native, ClsMeth
        if isinstance(c, (tuple, list)):
            return any(self.isinst(x, y) for y in c)
        if isinstance(c, PyClass):
            return isinstance(x, Obj) and x.cls.is_sub(c)
        if isinstance(c, self.Ext):
            n = c.name.split('.')[-1]
            if hasattr(x, 'vc_isinstance'):
                return x.vc_isinstance(c.name)
            if n == 'object':
                return True
            if c.name.startswith('sympy.'):
                raise Unsupported('isinstance with ' + c.name)
            if n == 'ndarray':
                return isinstance(x, Arr) and not hasattr(x, 'spkind')
            if n in ('Number', 'Complex'):
                return T.is_scalar(x)
            if n in ('Real',):
                return T.is_scalar(x) and not T.is_cx(x)
            if n in ('float', 'floating', 'float64', 'double'):
                return T.kind(x) == 'f' if T.is_scalar(x) else False
            if n in ('int', 'integer', 'int64', 'Integral', 'signedinteger'):
                return T.is_scalar(x) and (T.kind(x) == 'i' or (T.kind(x) == 'b' and n in ('int', 'Integral')))
            if n in ('complex', 'complexfloating', 'complex128'):
                return T.is_cx(x)
            if n in ('bool', 'bool_'):
                return T.is_bool(x)
            if n in ('generic',):
                return T.is_scalar(x)
            if n == 'str':
                return isinstance(x, str)
            if n in ('list', 'tuple', 'dict', 'set', 'slice'):
                return type(x).__name__ == n
            if n in ('Iterable', 'Sequence', 'Sized', 'Container', 'Collection'):
                if isinstance(x, (list, tuple, Arr, dict, set, str)):
                    return True
                if isinstance(x, Obj):
                    return x.cls.find('__iter__')[0] is not None
                return False
            if n in ('FunctionType', 'LambdaType', 'Callable'):
                return isinstance(x, (Func, SymFun, Native)) or (n == 'Callable' and (isinstance(x, (Bound, PyClass)) or (isinstance(x, Obj) and x.cls.find('__call__')[0] is not None)))
            if n in ('MethodType',):
                return isinstance(x, Bound)
            if n in ('Mapping',):
                return isinstance(x, dict)
            if n in ('csr_matrix', 'csc_matrix', 'spmatrix', 'csr_array', 'csc_array', 'coo_matrix', 'lil_matrix', 'LinearOperator'):
                return getattr(x, 'spkind', None) in (n, n.split('_')[0]) or (n == 'spmatrix' and hasattr(x, 'spkind'))
            if isinstance(x, Obj):
                return x.cls.is_sub(c)
            if isinstance(x, PyRaise):
                return x.exc == n
        raise Unsupported('isinstance(.., %r)' % (c,))

    def b_isinstance(self, x, c):
        return self.isinst(x, c)

    def b_issubclass(self, x, c):
        from .interp import PyClass
        cs = c if isinstance(c, tuple) else (c,)
        if isinstance(x, PyClass):
            return any(x.is_sub(y) for y in cs)
        if isinstance(x, self.Ext):
            return any(x == y for y in cs)
        if isinstance(x, DType):
            n = [y.name.split('.')[-1] for y in cs]
            return any({'complexfloating': 'c', 'floating': 'f', 'integer': 'i'}.get(y) == x.kind for y in n)
        raise Unsupported('issubclass')

    def b_type(self, x):
        from .interp import Obj, PyClass
        if isinstance(x, Obj):
            return x.cls
        if isinstance(x, Arr):
            return self.Ext('numpy.ndarray')
        if T.is_scalar(x):
            return self.Ext('builtins.' + {'i': 'int', 'f': 'float', 'b': 'bool', 'c': 'complex'}[T.kind(x)])
        if isinstance(x, (list, tuple, dict, str, set)):
            return self.Ext('builtins.' + type(x).__name__)
        if x is None:
            return self.Ext('builtins.NoneType')
        raise Unsupported('type()')

    def b_fromkeys(self, xs, v=None):
        return dict.fromkeys(self.iterate(xs), v)

    def b_id(self, x):
        k = id(x)
        self.ctx.keep.append(x)
        return k

    def b_enumerate(self, x, start=0):
        if isinstance(x, Arr) and x.ndim == 1 and T.isz3(x.shape[0]) and not T.isz3(start) and start == 0:
            from .symdict import Enumerated
            return Enumerated(x)
        return [(T.add(start, i), v) for i, v in enumerate(self.iterate(x))]

    def b_zip(self, *xs):
        return [tuple(t) for t in zip(*[self.iterate(x) for x in xs])]

    def b_reversed(self, x):
        from .interp import RangeVal
        if isinstance(x, RangeVal):
            n = x.trip()
            return RangeVal(T.add(x.lo, T.mul(x.step, T.sub(n, 1))), T.sub(x.lo, x.step), -x.step) if abs(x.step) == 1 else list(reversed(self.iterate(x)))
        return list(reversed(self.iterate(x)))

    def b_sorted(self, x, key=None, reverse=False):
        xs = self.iterate(x)
        ks = [self.I.call(key, [v], {}) if key is not None else v for v in xs]
        if any(T.isz3(k) or isinstance(k, Arr) for k in ks):
            if self.ctx.sub is not None or len(ks) > 4 or not all(T.is_int(k) or T.is_real(k) for k in ks):
                raise Unsupported('symbolic sort')
            out = []
            for k, v in zip(ks, xs):
                p = len(out)
                while p > 0 and self.I.truth(T.gt(k, out[p - 1][0]) if reverse else T.lt(k, out[p - 1][0])):
                    p -= 1
                out.insert(p, (k, v))
            return [v for _, v in out]
        return [v for _, v in sorted(zip(ks, xs), key=lambda t: t[0], reverse=bool(reverse))]

    def b_any(self, x):
        if isinstance(x, Arr):
            return self.reduction('any', x, None)
        r = False
        for v in self.iterate(x):
            r = T.lor(r, v if T.is_bool(v) else self.I.truth(v))
            if r is True:
                return True
        return r

    def b_all(self, x):
        if isinstance(x, Arr):
            return self.reduction('all', x, None)
        r = True
        for v in self.iterate(x):
            r = T.land(r, v if T.is_bool(v) else self.I.truth(v))
            if r is False:
                return False
        return r

    def b_map(self, f, *xs):
        return [self.I.call(f, list(t), {}) for t in zip(*[self.iterate(x) for x in xs])]

    def b_filter(self, f, xs):
        return [x for x in self.iterate(xs) if self.I.truth(self.I.call(f, [x], {}) if f is not None else x)]

    def b_hasattr(self, o, n):
        try:
            self.getattr(o, n)
            return True
        except PyRaise as e:
            if e.exc != 'AttributeError':
                raise
            return False

    def b_getattr(self, o, n, *d):
        try:
            return self.getattr(o, n)
        except PyRaise as e:
            if d and e.exc == 'AttributeError':
                return d[0]
            raise

    def b_setattr(self, o, n, v):
        self.setattr(o, n, v)

    def b_callable(self, o):
        from .interp import Func, Bound, PyClass, Native, SymFun, Obj
        return isinstance(o, (Func, Bound, PyClass, Native, SymFun, self.Ext)) or (isinstance(o, Obj) and o.cls.find('__call__')[0] is not None)

    def b_round(self, x, nd=None):
        return self.call('numpy.rint', [x], {}) if nd is not None else T.trunc(self.uf1('rint', x))

    def b_pow(self, a, b):
        return self.power(a, b)

    def b_print(self, *a, **k):
        return None

    def b_slice(self, *a):
        return slice(*a)

    def b_iter(self, x):
        return list(self.iterate(x))

    def b_next(self, x, *d):
        raise Unsupported('next')

    def b_divmod(self, a, b):
        return (T.floordiv(a, b), T.mod(a, b))

    def b_property(self, f=None, fset=None):
        from .interp import Prop
        return Prop(f, fset)

    def b_classmethod(self, f):
        from .interp import ClsMeth
        return ClsMeth(f)

    def b_staticmethod(self, f):
        from .interp import StaticMeth
        return StaticMeth(f)

    def b_object(self):
        from .interp import Obj, PyClass
        return Obj(PyClass('object', [], {}, None))

    def b_super(self, cls=None, o=None):
        from .interp import Super
        return Super(cls, o)


class Shape:
    def __init__(self, s):
        self.shape = s


class Flags:
    def __init__(self, a):
        self.a = a

    def vc_getattr(self, M, name):
        if name in ('f_contiguous', 'c_contiguous', 'fortran', 'contiguous', 'fnc'):
            return M.ctx.fresh('flag', 'bool')
        if name == 'writeable':
            return not self.a.buf.readonly
        raise Unsupported('flags.' + name)

    def vc_setattr(self, M, name, v):
        if name == 'writeable':
            buf = self.a.buf
            old = buf.readonly
            M.ctx.log(('ro', buf), lambda: setattr(buf, 'readonly', old))
            buf.readonly = not v
            return
        raise Unsupported('flags.' + name)


def _num(a, b):
    k = T.join_kind(a, b)
    return 'i' if k == 'b' else k


def _div(a, b):
    k = T.join_kind(a, b)
    return 'c' if k == 'c' else 'f'


def _logic(f):
    def g(a, b):
        a = a if T.is_bool(a) else T.ne(a, 0)
        b = b if T.is_bool(b) else T.ne(b, 0)
        return f(a, b)
    return g


def _bit(name):
    def g(a, b):
        if T.is_bool(a) and T.is_bool(b):
            if name == 'and':
                return T.land(a, b)
            if name == 'or':
                return T.lor(a, b)
            return T.lor(T.land(a, T.lnot(b)), T.land(T.lnot(a), b))
        if not T.isz3(a) and not T.isz3(b):
            return {'and': a & b, 'or': a | b, 'xor': a ^ b}[name]
        if name == 'and' and T.is_int(a) and not T.isz3(b) and b == 1:
            return T.mod(a, 2)
        if name == 'and' and T.is_int(b) and not T.isz3(a) and a == 1:
            return T.mod(b, 2)
        raise Unsupported('bit operation on symbolic integers')
    return g


def _shift(a, b):
    if not T.isz3(a) and not T.isz3(b):
        return a << b
    if not T.isz3(b):
        return T.mul(a, 2 ** b)
    raise Unsupported('shift')


def _rshift(a, b):
    if not T.isz3(b):
        return T.floordiv(a, 2 ** b)
    raise Unsupported('shift')


UF2.update({
    'add': (T.add, _num), 'subtract': (T.sub, _num), 'multiply': (T.mul, _num), 'true_divide': (T.div, _div),
    'divide': (T.div, _div), 'floor_divide': (T.floordiv, _num), 'remainder': (T.mod, _num), 'mod': (T.mod, _num),
    'power': (None, _num), 'float_power': (None, _div), 'maximum': (T.maxv, _num), 'minimum': (T.minv, _num), 'fmax': (T.maxv, _num), 'fmin': (T.minv, _num),
    'equal': (T.eq, 'b'), 'not_equal': (T.ne, 'b'), 'less': (T.lt, 'b'), 'less_equal': (T.le, 'b'), 'greater': (T.gt, 'b'),
    'greater_equal': (T.ge, 'b'), 'logical_and': (_logic(T.land), 'b'), 'logical_or': (_logic(T.lor), 'b'),
    'bitwise_and': (_bit('and'), lambda a, b: T.join_kind(a, b)), 'bitwise_or': (_bit('or'), lambda a, b: T.join_kind(a, b)),
    'bitwise_xor': (_bit('xor'), lambda a, b: T.join_kind(a, b)), 'left_shift': (_shift, 'i'), 'right_shift': (_rshift, 'i'),
})


def _uf(name, positive=False):
    def f(ctx, x):
        if T.is_cx(x):
            raise Unsupported('complex ' + name)
        x = T.to_real(x)
        g = ctx.func(name, 'f', 'f')
        if name == 'log10' or name == 'log':
            if not T.isz3(x) and x == 1:
                return Fraction(0)
            if name not in ctx.schemas:
                ctx.schema(g, lambda a: [z3.Implies(a[0] > 1, g(a[0]) > 0), z3.Implies(z3.And(a[0] > 0, a[0] < 1), g(a[0]) < 0),
                                         z3.Implies(a[0] == 1, g(a[0]) == 0)])
        if name == 'arccos':
            pi = ctx.get_pi()
            c = ctx.func('cos', 'f', 'f')
            if name not in ctx.schemas:
                ctx.schema(g, lambda a: [z3.Implies(z3.And(a[0] >= -1, a[0] <= 1), z3.And(c(g(a[0])) == a[0], g(a[0]) >= 0, g(a[0]) <= pi))])
        return g(T.to_z3(x))
    return f


def _exp(ctx, x):
    if T.is_cx(x):
        e = _exp(ctx, x.re)
        return Cx(T.mul(e, ctx.trig('cos', x.im)), T.mul(e, ctx.trig('sin', x.im)))
    x = T.to_real(x)
    if not T.isz3(x) and x == 0:
        return Fraction(1)
    g = ctx.func('exp', 'f', 'f')
    if 'exp' not in ctx.schemas:
        ctx.schema(g, lambda a: [g(a[0]) > 0, z3.Implies(a[0] == 0, g(a[0]) == 1)])
    return g(T.to_z3(x))


def _sqrt(ctx, x):
    if T.is_cx(x):
        raise Unsupported('complex sqrt')
    return ctx.sqrt(x)


def _log(ctx, x):
    if not T.is_cx(x):
        return _uf('log')(ctx, x)
    if not T._is0(x.im):
        raise Unsupported('logarithm of a complex number')
    g = ctx.func('arg of real', 'f', 'f')       # 0 for positive, pi for negative numbers
    if 'arg of real' not in ctx.schemas:
        ctx.schema(g, lambda a: [z3.Implies(a[0] > 0, g(a[0]) == 0)])
    return Cx(_uf('log')(ctx, T.absv(x.re)), g(T.to_z3(x.re)))


def _csign(x):
    """sign of the real part, of the imaginary part where that is zero (numpy before 2.0)"""
    s = lambda v: T.ite(T.gt(v, 0), Fraction(1), T.ite(T.lt(v, 0), Fraction(-1), Fraction(0)))
    return Cx(T.ite(T.ne(x.re, 0), s(x.re), s(x.im)) if not T._is0(x.im) else s(x.re), Fraction(0))


def _keep(k):
    return 'i' if k == 'b' else k


def _flt(k):
    return 'c' if k == 'c' else 'f'


UF1.update({
    'negative': (lambda c, x: T.neg(x), _keep), 'positive': (lambda c, x: x, _keep),
    'absolute': (lambda c, x: c.absv(x), lambda k: 'f' if k == 'c' else _keep(k)),
    'abs': (lambda c, x: c.absv(x), lambda k: 'f' if k == 'c' else _keep(k)),
    'fabs': (lambda c, x: T.to_real(c.absv(x)), 'f'),
    'sqrt': (_sqrt, 'f'), 'exp': (_exp, _flt), 'log': (_log, _flt), 'log10': (_uf('log10'), 'f'), 'log2': (lambda c, x: c.log2(T.to_real(x)), 'f'),
    'sin': (lambda c, x: c.trig('sin', x), 'f'), 'cos': (lambda c, x: c.trig('cos', x), 'f'),
    'tan': (_uf('tan'), 'f'), 'arccos': (_uf('arccos'), 'f'), 'arcsin': (_uf('arcsin'), 'f'), 'arctan': (_uf('arctan'), 'f'),
    'sinh': (_uf('sinh'), 'f'), 'cosh': (_uf('cosh'), 'f'), 'tanh': (_uf('tanh'), 'f'),
    'square': (lambda c, x: T.mul(x, x), _keep), 'floor': (lambda c, x: T.to_real(T.floor(x)), 'f'),
    'ceil': (lambda c, x: T.to_real(T.ceil(x)), 'f'), 'trunc': (lambda c, x: T.to_real(T.trunc(x)), 'f'),
    'rint': (lambda c, x: _rint(x), 'f'), 'round': (lambda c, x: _rint(x), 'f'),
    'sign': (lambda c, x: _csign(x) if T.is_cx(x) else T.ite(T.gt(x, 0), T.cast(1, T.kind(x)), T.ite(T.lt(x, 0), T.cast(-1, T.kind(x)), T.cast(0, T.kind(x)))), _keep),
    'conj': (lambda c, x: Cx(x.re, T.neg(x.im)) if T.is_cx(x) else x, _keep),
    'conjugate': (lambda c, x: Cx(x.re, T.neg(x.im)) if T.is_cx(x) else x, _keep),
    'isnan': (lambda c, x: x is T.NAN, 'b'), 'isfinite': (lambda c, x: not isinstance(x, T.Special), 'b'),
    'isinf': (lambda c, x: x in (T.INF, T.NINF) if isinstance(x, T.Special) else False, 'b'),
    'logical_not': (lambda c, x: T.lnot(x if T.is_bool(x) else T.ne(x, 0)), 'b'),
    'invert': (lambda c, x: T.lnot(x) if T.is_bool(x) else T.sub(T.neg(x), 1), lambda k: k),
    'reciprocal': (lambda c, x: T.div(1, x), _flt),
    'exp2': (lambda c, x: c.pow2(x) if T.is_int(x) else (_ for _ in ()).throw(Unsupported('exp2')), 'f'),
})


def _rint(x):
    """round half to even"""
    if T.is_int(x):
        return T.to_real(x)
    x = T.to_real(x)
    f = T.floor(x)
    d = T.sub(x, T.to_real(f))
    h = Fraction(1, 2)
    return T.to_real(T.ite(T.lt(d, h), f, T.ite(T.gt(d, h), T.add(f, 1), T.ite(T.eq(T.mod(f, 2), 0), f, T.add(f, 1)))))
