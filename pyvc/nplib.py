"""numpy / scipy functions by dotted name."""
from fractions import Fraction
import z3

from . import terms as T
from . import arrays as A
from .arrays import Arr, PyRaise
from .terms import Unsupported, Cx
from .npmodel import dkind, DType

LIB = {}


def lib(*names):
    def d(f):
        for n in names:
            LIB[n] = f
        return f
    return d


def shp(s):
    if s is None:
        return ()
    if isinstance(s, (tuple, list)):
        return tuple(T.to_int(x.elem() if isinstance(x, Arr) else x) for x in s)
    if isinstance(s, Arr):
        if s.ndim == 0:
            s = s.elem()
        else:
            raise Unsupported('array shape')
    if T.is_real(s):
        raise PyRaise('TypeError', "'float' object cannot be interpreted as an integer")
    return (T.to_int(s),)


def _const(v):
    def f(M, s, dtype=None, order='C', **k):
        kd = dkind(dtype) or 'f'
        s = shp(s)
        for d in s:
            if not T.isz3(d) and d < 0:
                raise PyRaise('ValueError', 'negative dimensions are not allowed')
            if T.isz3(d) and M.ctx.branch(T.lt(d, 0), 'negative dimension'):
                raise PyRaise('ValueError', 'negative dimensions are not allowed')
        if v is None:
            if kd == 'o':
                return A.new(M.ctx, s, lambda *i: None, 'o', 'empty')
            M.ctx.counter += 1
            return A.symbolic(M.ctx, 'empty!%d' % M.ctx.counter, s, kd)
        return A.full(M.ctx, s, v, kd)
    return f


LIB['numpy.zeros'] = _const(0)
LIB['numpy.ones'] = _const(1)
LIB['numpy.empty'] = _const(None)


@lib('numpy.full')
def full(M, s, v, dtype=None, **k):
    kd = dkind(dtype)
    if isinstance(v, Arr):
        r = A.new(M.ctx, shp(s), lambda *i: Fraction(0), kd or v.kind)
        A.assign(M.ctx, r, v)
        return r
    return A.full(M.ctx, shp(s), v, kd or T.kind(v))


def _like(v):
    def f(M, a, dtype=None, order='K', **k):
        a = M.arr(a)
        kd = dkind(dtype) or a.kind
        if v is None:
            if kd == 'o':
                return A.new(M.ctx, a.shape, lambda *i: None, 'o', 'empty')
            M.ctx.counter += 1
            return A.symbolic(M.ctx, 'empty!%d' % M.ctx.counter, a.shape, kd)
        return A.full(M.ctx, a.shape, v, kd)
    return f


LIB['numpy.zeros_like'] = _like(0)
LIB['numpy.ones_like'] = _like(1)
LIB['numpy.empty_like'] = _like(None)


@lib('numpy.asarray', 'numpy.asanyarray', 'numpy.asfortranarray', 'numpy.ascontiguousarray')
def asarray(M, a, dtype=None, order=None, **k):
    kd = dkind(dtype)
    if isinstance(a, Arr) and (kd is None or kd == a.kind):
        return a
    if hasattr(a, 'vc_asarray'):
        return a.vc_asarray(M)
    return M.arr(a, kd) if kd != 'o' else M.arr(a)


@lib('numpy.array')
def array(M, a, dtype=None, copy=True, order=None, **k):
    kd = dkind(dtype)
    if kd == 'o' and isinstance(a, (list, tuple)):
        return A.new(M.ctx, (len(a),), A._pick(list(a)), 'o')
    r = M.arr(a, kd)
    return A.copy(r) if copy and r is a else r


@lib('numpy.ndindex')
def ndindex(M, *s):
    from .loops import NdIndex
    from .interp import RangeVal
    s = shp(s[0]) if len(s) == 1 and isinstance(s[0], (tuple, list)) else tuple(s)
    return NdIndex([RangeVal(0, d, 1) for d in s])


@lib('itertools.product')
def product(M, *its, **k):
    from .loops import NdIndex
    from .interp import RangeVal
    if k or not all(isinstance(x, RangeVal) for x in its):
        import itertools
        return [tuple(x) for x in itertools.product(*[list(M.iterate(x)) for x in its])]
    return NdIndex(list(its))


@lib('numpy.copy')
def copy(M, a, order='K', **k):
    return A.copy(M.arr(a))


@lib('copy.copy')
def shallow(M, a):
    from .interp import Obj, Bound
    if isinstance(a, Arr):
        return A.copy(a)
    if isinstance(a, Obj):
        f, _ = a.cls.find('__copy__')
        if f is not None:
            return M.I.call(Bound(f, a), [], {})
        o = M.I.blank(a.cls)
        o.fields.update(a.fields)
        return o
    if isinstance(a, list):
        return list(a)
    if isinstance(a, dict):
        return _dict_like(a, dict(a))
    return deepcopy(M, a)


def _dict_like(a, d):
    from .interp import DictObj
    if isinstance(a, DictObj):
        r = DictObj(d)
        r.cls = a.cls
        return r
    return d


@lib('copy.deepcopy')
def deepcopy(M, a, memo=None):
    from .interp import Obj, Bound
    if isinstance(a, Arr) and a.kind == 'o':
        if any(T.isz3(d) for d in a.shape):
            raise Unsupported('deepcopy of an object array of symbolic size')
        import itertools
        cells = {i: deepcopy(M, a.elem(*i), memo) for i in itertools.product(*map(range, a.shape))}

        def pick(*i):
            if all(isinstance(x, int) for x in i):
                return cells[i]
            raise Unsupported('symbolic index into copied objects')
        r = A.new(M.ctx, a.shape, pick, 'o')
        if getattr(a.buf, 'otype', None) is not None:
            r.buf.otype = a.buf.otype
        return r
    if isinstance(a, Arr):
        return A.copy(a)
    if isinstance(a, Obj):
        f, _ = a.cls.find('__deepcopy__')
        if f is not None:
            return M.I.call(Bound(f, a), [memo if memo is not None else {}], {})
        o = M.I.blank(a.cls)
        for k2, v in a.fields.items():
            o.fields[k2] = deepcopy(M, v, memo)
        return o
    if isinstance(a, list):
        return [deepcopy(M, x, memo) for x in a]
    if isinstance(a, tuple):
        return tuple(deepcopy(M, x, memo) for x in a)
    if isinstance(a, dict):
        return _dict_like(a, {k2: deepcopy(M, v, memo) for k2, v in a.items()})
    if T.is_scalar(a) or isinstance(a, str) or a is None:
        return a
    from .interp import Func, PyClass, Native, SymFun
    if isinstance(a, (Func, PyClass, Native, SymFun, M.Ext)):
        return a
    raise Unsupported('deepcopy of %r' % (a,))


@lib('numpy.arange')
def arange(M, *a, dtype=None, **k):
    a = [M.item(x) if isinstance(x, Arr) else x for x in a]
    if len(a) == 1:
        lo, hi, st = 0, a[0], 1
    elif len(a) == 2:
        lo, hi, st = a[0], a[1], 1
    else:
        lo, hi, st = a[:3]
    if 'step' in k:
        st = k['step']
    if T.is_real(lo) or T.is_real(hi) or T.is_real(st):
        n = T.ceil(T.div(T.sub(hi, lo), st))
        n = n if T.isz3(n) and M.ctx.prove(T.ge(n, 0)) else T.maxv(n, 0)
        return A.new(M.ctx, (n,), lambda i: T.add(T.to_real(lo), T.mul(T.to_real(i), T.to_real(st))), 'f')
    if T.isz3(st):
        raise Unsupported('symbolic arange step')
    d = T.sub(hi, lo)
    if st < 0:
        d = T.neg(d)
    m = abs(st)
    if T.isz3(d):
        if M.ctx.branch(T.le(d, 0), 'arange empty'):
            n = 0
        else:
            n = d if m == 1 else T.floordiv(T.add(d, m - 1), m)
    else:
        n = max(0, -(-d // m))
    kd = dkind(dtype) or 'i'
    return A.new(M.ctx, (n,), lambda i: T.cast(T.add(lo, T.mul(st, i)), kd), kd)


@lib('numpy.linspace')
def linspace(M, a, b, num=50, endpoint=True, retstep=False, **k):
    a, b = T.to_real(M.item(a)), T.to_real(M.item(b))
    den = T.sub(num, 1) if endpoint is True else num
    d = T.sub(b, a)

    def fn(i):
        if not T.isz3(den) and den == 0:
            return a
        return T.add(a, T.div(T.mul(T.to_real(i), d), T.to_real(den)))
    r = A.new(M.ctx, (num,), fn, 'f')
    if retstep:
        return (r, T.div(d, T.to_real(den)))
    return r


@lib('numpy.eye', 'numpy.identity')
def eye(M, n, m=None, k=0, dtype=None, **kw):
    kd = dkind(dtype) or 'f'
    m = n if m is None else m
    one, zero = T.cast(1, kd), T.cast(0, kd)
    return A.new(M.ctx, (n, m), lambda i, j: T.ite(T.eq(j, T.add(i, k)), one, zero), kd)


@lib('numpy.diag')
def diag(M, a, k=0):
    a = M.arr(a)
    s = a.snap()
    if a.ndim == 1:
        n = T.add(a.shape[0], T.absv(k))
        zero = T.cast(0, a.kind)
        return A.new(M.ctx, (n, n), lambda i, j: T.ite(T.eq(T.sub(j, i), k), s(i if not T.isz3(k) and k >= 0 else j), zero), a.kind)
    if T.isz3(k) or k != 0:
        raise Unsupported('diag offset')
    n = a.shape[0]
    if not A.same_dim(M.ctx, a.shape[0], a.shape[1]):
        n = T.minv(a.shape[0], a.shape[1])
    return A.new(M.ctx, (n,), lambda i: s(i, i), a.kind)


@lib('numpy.diagonal')
def diagonal(M, a, **k):
    return diag(M, a)


@lib('numpy.trace')
def trace(M, a, **k):
    return M.reduction('sum', diag(M, a), None)


@lib('numpy.expand_dims')
def expand_dims(M, a, axis):
    a = M.arr(a)
    if axis < 0:
        axis += a.ndim + 1
    return A.insert_axis(a, axis)


@lib('numpy.squeeze')
def squeeze(M, a, axis=None):
    return M.squeeze(a, axis)


@lib('numpy.ravel')
def ravel(M, a, order='C'):
    return M.flatten(M.arr(a), order, copy=False)


@lib('numpy.reshape')
def reshape(M, a, s, order='C', **k):
    return M.reshape(M.arr(a), s, order)


@lib('numpy.transpose')
def transpose(M, a, axes=None):
    a = M.arr(a)
    return A.transpose(a, list(axes) if axes is not None else list(range(a.ndim))[::-1])


@lib('numpy.swapaxes')
def swapaxes(M, a, p, q):
    pr = list(range(a.ndim))
    pr[p], pr[q] = pr[q], pr[p]
    return A.transpose(a, pr)


@lib('numpy.atleast_1d')
def atleast_1d(M, *a):
    r = []
    for x in a:
        x = M.arr(x)
        r.append(A.insert_axis(x, 0) if x.ndim == 0 else x)
    return r[0] if len(r) == 1 else r


@lib('numpy.atleast_2d')
def atleast_2d(M, *a):
    r = []
    for x in a:
        x = M.arr(x)
        while x.ndim < 2:
            x = A.insert_axis(x, 0)
        r.append(x)
    return r[0] if len(r) == 1 else r


@lib('numpy.flipud')
def flipud(M, a):
    return A.view(M.ctx, M.arr(a), (slice(None, None, -1),))


@lib('numpy.fliplr')
def fliplr(M, a):
    return A.view(M.ctx, M.arr(a), (slice(None), slice(None, None, -1)))


@lib('numpy.flip')
def flip(M, a, axis=None):
    a = M.arr(a)
    ax = range(a.ndim) if axis is None else [axis % a.ndim]
    return A.view(M.ctx, a, tuple(slice(None, None, -1) if i in ax else slice(None) for i in range(a.ndim)))


@lib('numpy.roll')
def roll(M, a, sh, axis=None):
    a = M.arr(a)
    if axis is None and a.ndim != 1:
        raise Unsupported('roll of flattened array')
    ax = 0 if axis is None else axis % a.ndim
    n = a.shape[ax]
    s = a.snap()

    def fn(*i):
        j = T.sub(i[ax], sh)
        if T.isz3(n):
            # one wrap in either direction is enough for |sh| <= n
            j = T.ite(T.lt(j, 0), T.add(j, n), T.ite(T.ge(j, n), T.sub(j, n), j))
        else:
            j = T.mod(j, n)
        return s(*(i[:ax] + (j,) + i[ax + 1:]))
    if T.isz3(n) and not M.ctx.prove(T.land(T.le(sh, n), T.le(T.neg(sh), n))):
        raise Unsupported('roll amount')
    return A.new(M.ctx, a.shape, fn, a.kind)


def fftshift_amt(n, inverse):
    return T.neg(T.floordiv(n, 2)) if inverse else T.floordiv(n, 2)


@lib('numpy.fft.fftshift', 'scipy.fft.fftshift', 'scipy.fftpack.fftshift')
def fftshift(M, a, axes=None):
    a = M.arr(a)
    axs = range(a.ndim) if axes is None else ([axes] if T.is_int(axes) else list(axes))
    for ax in axs:
        a = roll(M, a, fftshift_amt(a.shape[ax], False), ax)
    return a


@lib('numpy.fft.ifftshift', 'scipy.fft.ifftshift', 'scipy.fftpack.ifftshift')
def ifftshift(M, a, axes=None):
    a = M.arr(a)
    axs = range(a.ndim) if axes is None else ([axes] if T.is_int(axes) else list(axes))
    for ax in axs:
        a = roll(M, a, fftshift_amt(a.shape[ax], True), ax)
    return a


def concat(M, xs, axis):
    ctx = M.ctx
    xs = [M.arr(x) for x in xs]
    if not xs:
        raise PyRaise('ValueError', 'need at least one array to concatenate')
    nd = xs[0].ndim
    if nd == 0:
        raise PyRaise('ValueError', 'zero-dimensional arrays cannot be concatenated')
    if any(x.ndim != nd for x in xs):
        raise PyRaise('ValueError', 'all the input array dimensions must match')
    axis %= nd
    for ax in range(nd):
        if ax != axis:
            for x in xs[1:]:
                if not A.same_dim(ctx, xs[0].shape[ax], x.shape[ax]):
                    if not ctx.branch(T.eq(xs[0].shape[ax], x.shape[ax]), 'concatenate'):
                        raise PyRaise('ValueError', 'all the input array dimensions except for the concatenation axis must match')
    k = xs[0].kind
    for x in xs[1:]:
        k = T.join_kind(k, x.kind)
    snaps = [x.snap() for x in xs]
    offs = [0]
    for x in xs:
        offs.append(T.add(offs[-1], x.shape[axis]))
    tot = offs[-1]

    def fn(*i):
        q = i[axis]
        r = None
        for p in range(len(xs) - 1, -1, -1):
            if not T.isz3(xs[p].shape[axis]) and xs[p].shape[axis] == 0:
                continue
            if r is None:
                c = True
            else:
                c = T.lt(q, offs[p + 1])
            if c is False:
                continue
            j = i[:axis] + (T.sub(q, offs[p]),) + i[axis + 1:]
            v = T.cast(snaps[p](*j), k) if k != 'o' else snaps[p](*j)
            r = v if r is None or c is True else T.ite(c, v, r)
        if r is None:
            return T.cast(0, k)
        return r
    sh = list(xs[0].shape)
    sh[axis] = tot
    return A.new(ctx, sh, fn, k)


@lib('numpy.concatenate')
def concatenate(M, xs, axis=0, **k):
    if axis is None:
        return concat(M, [M.flatten(M.arr(x)) for x in M.iterate(xs)], 0)
    return concat(M, M.iterate(xs), axis)


@lib('numpy.vstack')
def vstack(M, xs, **k):
    ys = []
    for x in M.iterate(xs):
        x = M.arr(x)
        if x.ndim == 0:
            x = A.insert_axis(A.insert_axis(x, 0), 0)
        elif x.ndim == 1:
            x = A.insert_axis(x, 0)
        ys.append(x)
    return concat(M, ys, 0)


@lib('numpy.hstack')
def hstack(M, xs, **k):
    ys = []
    for x in M.iterate(xs):
        x = compress(M, M.arr(x))
        if x.ndim == 0:
            x = A.insert_axis(x, 0)
        ys.append(x)
    return concat(M, ys, 0 if ys[0].ndim == 1 else 1)


@lib('numpy.column_stack')
def column_stack(M, xs):
    ys = []
    for x in M.iterate(xs):
        x = M.arr(x)
        ys.append(A.insert_axis(x, 1) if x.ndim == 1 else x)
    return concat(M, ys, 1)


@lib('numpy.append')
def append(M, a, b, axis=None):
    if axis is None:
        return concat(M, [atleast_1d(M, M.flatten(M.arr(x))) for x in (a, b)], 0)
    return concat(M, [a, b], axis)


@lib('numpy.stack')
def stack(M, xs, axis=0):
    ys = [A.insert_axis(M.arr(x), axis) for x in M.iterate(xs)]
    return concat(M, ys, axis)


@lib('numpy.tile')
def tile(M, a, reps):
    ctx = M.ctx
    a = M.arr(a)
    reps = tuple(reps) if isinstance(reps, (tuple, list)) else (reps,)
    while len(reps) < a.ndim:
        reps = (1,) + reps
    while a.ndim < len(reps):
        a = A.insert_axis(a, 0)
    s = a.snap()
    sh, modes = [], []
    for d, r in zip(a.shape, reps):
        if not T.isz3(r) and r == 1:
            sh.append(d)
            modes.append('id')
        elif not T.isz3(d) and d == 1:
            sh.append(r)
            modes.append('one')
        elif not T.isz3(d):
            sh.append(T.mul(d, r))
            modes.append(('mod', d))
        elif A.dim_is_one(ctx, d):
            sh.append(r)
            modes.append('one')
        else:
            if not T.isz3(r) and r <= 4:
                return concat(M, [tile(M, a, tuple(1 if x is r else x for x in reps))] * r, len(sh))
            sh.append(T.mul(d, r))
            modes.append(('cmod', d))

    def fn(*i):
        return s(*[0 if m == 'one' else (x if m == 'id' else T.sub(x, T.mul(m[1], ctx.intdiv(x, m[1]))) if m[0] == 'cmod' else T.mod(x, m[1]))
                   for m, x in zip(modes, i)])
    return A.new(ctx, sh, fn, a.kind)


@lib('numpy.repeat')
def repeat(M, a, r, axis=None):
    a = M.arr(a)
    if a.ndim <= 1 and not T.isz3(a.shape[0] if a.ndim else 1) and (a.ndim == 0 or a.shape[0] == 1):
        v = a.elem(*[0] * a.ndim)
        return A.full(M.ctx, (r,), v, a.kind)
    if not T.isz3(r) and a.ndim == 1:
        s = a.snap()
        return A.new(M.ctx, (T.mul(a.shape[0], r),), lambda i: s(T.floordiv(i, r)), a.kind)
    raise Unsupported('repeat')


@lib('numpy.split', 'numpy.array_split')
def split(M, a, idx, axis=0):
    a = M.arr(a)
    if isinstance(idx, (list, tuple, Arr)):
        cuts = M.iterate(idx)
        out, prev = [], None
        for c in cuts + [None]:
            key = tuple(slice(prev, c) if i == axis else slice(None) for i in range(a.ndim))
            out.append(A.view(M.ctx, a, key))
            prev = c
        return out
    if T.isz3(idx):
        raise Unsupported('split count')
    n = a.shape[axis]
    w = T.floordiv(n, idx)
    e = T.eq(T.mul(w, idx), n)
    if e is not True and not M.ctx.prove(e):
        if not M.ctx.branch(e, 'even split'):
            raise PyRaise('ValueError', 'array split does not result in an equal division')
    out = []
    for p in range(idx):
        key = tuple(slice(T.mul(p, w), T.mul(p + 1, w)) if i == axis else slice(None) for i in range(a.ndim))
        out.append(A.view(M.ctx, a, key))
    return out


for _n in ('sum', 'max', 'min', 'all', 'any', 'prod'):
    def _mk(n):
        def f(M, a, axis=None, keepdims=False, out=None, dtype=None, **k):
            return M.reduction(n, a, axis, keepdims)
        return f
    LIB['numpy.' + _n] = _mk(_n)
LIB['numpy.amax'] = LIB['numpy.max']
LIB['numpy.amin'] = LIB['numpy.min']
LIB['numpy.product'] = LIB['numpy.prod']


@lib('numpy.mean')
def mean(M, a, axis=None, **k):
    a = M.arr(a)
    n = M.size(a) if axis is None else a.shape[axis]
    s = M.reduction('sum', a, axis)
    return M.ufunc2('true_divide', s, T.to_real(n))


@lib('numpy.argmax', 'numpy.argmin')
def argmax(M, a, axis=None, **k):
    return _arg(M, a, 'max', axis)


def _arg(M, a, which, axis=None):
    ctx = M.ctx
    a = M.arr(a)
    if a.ndim == 2 and axis is None:
        for k in (0, 1):
            if not T.isz3(a.shape[1 - k]) and a.shape[1 - k] == 1:      # one column (row)
                v, s2 = a, a.snap()
                a = A.new(ctx, (v.shape[k],), (lambda i: s2(i, 0)) if k == 0 else (lambda i: s2(0, i)), v.kind)
                break
    if a.ndim != 1:
        raise Unsupported('argmax rank')
    n = a.shape[0]
    z = T.eq(n, 0)
    if z is True or (z is not False and ctx.branch(z, 'argmax of empty')):
        raise PyRaise('ValueError', 'attempt to get argmax of an empty sequence')
    s = a.snap()
    w = ctx.fresh('arg', 'int')
    ctx.assume(z3.And(w >= 0, w < T.to_z3(n)))
    cmp = T.le if which == 'max' else T.ge
    ctx.forall(n, lambda i: cmp(s(i), s(w)))
    ctx.forall(w, lambda i: T.lnot(T.eq(s(i), s(w))))
    for e in (s(0), s(T.sub(n, 1))):
        f = T.fold(cmp(e, s(w)))
        if f is not True:
            ctx.assume(T.to_z3(f))
    return w


LIB['numpy.argmin'] = lambda M, a, axis=None, **k: _arg(M, a, 'min', axis)
LIB['numpy.argmax'] = lambda M, a, axis=None, **k: _arg(M, a, 'max', axis)


@lib('numpy.matmul')
def matmul(M, a, b, out=None, **k):
    return M.matmul(a, b)


@lib('numpy.dot', 'scipy.dot')
def dot(M, a, b, out=None):
    a = M.arr(a) if not T.is_scalar(a) else a
    b = M.arr(b) if not T.is_scalar(b) else b
    if not isinstance(a, Arr) or not isinstance(b, Arr) or a.ndim == 0 or b.ndim == 0:
        return M.ufunc2('multiply', a, b)
    return M.matmul(a, b)


@lib('numpy.vdot')
def vdot(M, a, b):
    a, b = M.flatten(M.arr(a)), M.flatten(M.arr(b))
    return M.matmul(M.uf1('conj', a), b)


@lib('numpy.inner')
def inner(M, a, b):
    a, b = M.arr(a), M.arr(b)
    if a.ndim == 1 and b.ndim == 1:
        return M.matmul(a, b)
    if a.ndim == 0 or b.ndim == 0:
        return M.ufunc2('multiply', a, b)
    return M.matmul(a, A.transpose(b, list(range(b.ndim))[::-1]))


@lib('numpy.outer')
def outer(M, a, b):
    a, b = M.flatten(M.arr(a)), M.flatten(M.arr(b))
    return M.ufunc2('multiply', A.insert_axis(a, 1), A.insert_axis(b, 0))


@lib('numpy.real', 'numpy.imag')
def real(M, a):
    if isinstance(a, (list, tuple)):
        a = M.arr(a)
    return M.part(a, 're') if isinstance(a, Arr) else (a.re if T.is_cx(a) else a)


@lib('numpy.imag')
def imag(M, a):
    if isinstance(a, (list, tuple)):
        a = M.arr(a)
    return M.part(a, 'im') if isinstance(a, Arr) else (a.im if T.is_cx(a) else Fraction(0))


@lib('numpy.isreal')
def isreal(M, a):
    return A.ufunc(M.ctx, lambda x: T.eq(x.im, 0) if T.is_cx(x) else True, [M.arr(a) if not T.is_scalar(a) else a], 'b')


@lib('numpy.isrealobj')
def isrealobj(M, a):
    return (a.kind if isinstance(a, Arr) else T.kind(a)) != 'c'


@lib('numpy.iscomplexobj')
def iscomplexobj(M, a):
    return (a.kind if isinstance(a, Arr) else T.kind(a)) == 'c'


@lib('numpy.isscalar')
def isscalar(M, a):
    return T.is_scalar(a) or isinstance(a, str)


@lib('numpy.shape')
def shape(M, a):
    return tuple(M.arr(a).shape)


@lib('numpy.ndim')
def ndim(M, a):
    return M.arr(a).ndim if not T.is_scalar(a) else 0


@lib('numpy.size')
def size(M, a, axis=None):
    a = M.arr(a)
    return M.size(a) if axis is None else a.shape[axis]


@lib('numpy.diff')
def diff(M, a, n=1, axis=-1):
    a = M.arr(a)
    if n != 1:
        raise Unsupported('diff order')
    axis %= a.ndim
    hi = A.view(M.ctx, a, tuple(slice(1, None) if i == axis else slice(None) for i in range(a.ndim)))
    lo = A.view(M.ctx, a, tuple(slice(None, -1) if i == axis else slice(None) for i in range(a.ndim)))
    return M.ufunc2('subtract', hi, lo)


@lib('numpy.cumsum')
def cumsum(M, a, axis=None, **k):
    a = M.arr(a)
    if a.ndim != 1:
        if axis is None:
            raise Unsupported('cumsum of a matrix without axis')
        ax = axis % a.ndim
        s2 = a.snap()
        return A.new(M.ctx, a.shape, lambda *i: M.ctx.Sum(0, i[ax], lambda q: s2(*(i[:ax] + (q,) + i[ax + 1:]))), a.kind if a.kind in 'fc' else 'f')
    s = a.snap()
    n = a.shape[0]
    if not T.isz3(n):
        vals, r = [], None
        for i in range(n):
            r = s(i) if r is None else T.add(r, s(i))
            vals.append(r)
        return A.new(M.ctx, (n,), A._pick(vals), T.kind(vals[0])) if n else a
    return A.new(M.ctx, a.shape, lambda i: M.ctx.Sum(0, i, s), a.kind if a.kind in 'fc' else 'f')


@lib('numpy.cumprod')
def cumprod(M, a, axis=None, **k):
    a = M.arr(a)
    if a.ndim != 1 or a.kind not in 'if':
        raise Unsupported('cumprod')
    s, n = a.snap(), a.shape[0]
    if not T.isz3(n):
        vals, r = [], None
        for i in range(n):
            r = s(i) if r is None else T.mul(r, s(i))
            vals.append(r)
        return A.new(M.ctx, (n,), A._pick(vals), T.kind(vals[0])) if n else a
    M.ctx.counter += 1
    f = M.ctx.func('cumprod!%d' % M.ctx.counter, 'i', 'f')
    tz = lambda v: T.to_z3(T.to_real(v))
    M.ctx.schema(f, lambda q: [z3.Implies(q[0] == 0, f(q[0]) == tz(s(0))), z3.Implies(q[0] > 0, f(q[0]) == f(q[0] - 1) * tz(s(q[0])))])
    return A.new(M.ctx, (n,), lambda i: f(T.to_z3(i)), 'f')


@lib('numpy.where')
def where(M, c, a=None, b=None):
    if a is None:
        return nonzero(M, c)
    ka = a.kind if isinstance(a, Arr) else T.kind(a)
    kb = b.kind if isinstance(b, Arr) else T.kind(b)
    return A.ufunc(M.ctx, lambda x, y, z: T.ite(x, y, z), [c, a, b], T.join_kind(ka, kb))


@lib('numpy.clip')
def clip(M, a, lo, hi, **k):
    return M.ufunc2('minimum', M.ufunc2('maximum', a, lo), hi)


@lib('numpy.triu')
def triu(M, a, k=0):
    a = M.arr(a)
    s = a.snap()
    z = T.cast(0, a.kind)
    return A.new(M.ctx, a.shape, lambda i, j: T.ite(T.ge(T.sub(j, i), k), s(i, j), z), a.kind)


@lib('numpy.tril')
def tril(M, a, k=0):
    a = M.arr(a)
    s = a.snap()
    z = T.cast(0, a.kind)
    return A.new(M.ctx, a.shape, lambda i, j: T.ite(T.le(T.sub(j, i), k), s(i, j), z), a.kind)


@lib('numpy.array_equal')
def array_equal(M, a, b):
    a, b = M.arr(a), M.arr(b)
    if a.ndim != b.ndim:
        return False
    for x, y in zip(a.shape, b.shape):
        if not A.same_dim(M.ctx, x, y) and not M.ctx.branch(T.eq(x, y)):
            return False
    return M.reduction('all', M.compare('Eq', a, b), None)


@lib('numpy.allclose', 'numpy.isclose')
def allclose(M, a, b, rtol=1e-5, atol=1e-8, **k):
    raise Unsupported('allclose')


@lib('numpy.sort')
def sort(M, a, **k):
    """numpy's contract: a rearrangement in increasing order.  ctx.sorts lists (entries, n, result, place): entry i is result place(i)"""
    ctx = M.ctx
    a = compress(M, M.arr(a))
    if a.ndim != 1 or k or a.kind not in 'if':
        raise Unsupported('sort')
    n, s = a.shape[0], a.snap()
    if not T.isz3(n) and n <= 1:
        return A.new(ctx, (n,), s, a.kind)
    c = ctx.fresh('sort', 'int').decl().name()
    src, dst = ctx.func(c + 'src', 'i', 'i'), ctx.func(c + 'dst', 'i', 'i')
    r = ctx.func(c + 'r', 'i', a.kind)
    inr = lambda t: T.land(T.ge(t, 0), T.lt(t, n))
    ax = lambda f, g: lambda t: [T.to_z3(T.implies(inr(t[0]), T.land(inr(f(t[0])), T.eq(g(f(t[0])), t[0]))))]
    ctx.schema(src, ax(src, dst))
    ctx.schema(dst, ax(dst, src))
    ctx.schema(dst, lambda t: [T.to_z3(T.implies(inr(t[0]), T.eq(r(dst(t[0])), s(t[0]))))])
    ctx.schema(r, lambda t: [T.to_z3(T.implies(inr(t[0]), T.land(T.eq(r(t[0]), s(src(t[0]))), T.le(r(0), r(t[0])), T.le(r(t[0]), r(T.to_z3(T.sub(n, 1))))))),
                             T.to_z3(T.implies(T.land(inr(t[0]), inr(T.add(t[0], 1))), T.le(r(t[0]), r(t[0] + 1))))])
    ctx.__dict__.setdefault('sorts', []).append((s, n, r, dst))
    return A.new(ctx, (n,), lambda j: r(T.to_z3(j)), a.kind)


@lib('numpy.unique')
def unique(M, a):
    """numpy's contract: the distinct entries in increasing order.  ctx.uniq lists (entries, n, result, m, where): entry i is result where(i)"""
    ctx = M.ctx
    a = M.arr(a)
    if a.kind not in 'if':
        raise Unsupported('unique of complex numbers')
    n = a.shape[0] if a.ndim == 1 else M.method(a, 'flatten').shape[0]
    if a.ndim != 1:
        a = M.method(a, 'flatten')
    s = a.snap()
    if not T.isz3(n) and n <= 1:
        return A.new(ctx, (n,), s, a.kind)
    c = ctx.fresh('uniq', 'int').decl().name()
    m = ctx.fresh('nuniq', 'int')
    r, w, wh = ctx.func(c + 'r', 'i', a.kind), ctx.func(c + 'w', 'i', 'i'), ctx.func(c + 'i', 'i', 'i')
    ctx.assume(T.land(T.ge(m, 0), T.le(m, n), T.implies(T.ge(n, 1), T.ge(m, 1))))
    ctx.schema(r, lambda t: [z3.Implies(z3.And(t[0] >= 0, t[0] < m), T.to_z3(T.land(T.eq(r(t[0]), s(w(t[0]))), T.ge(w(t[0]), 0), T.lt(w(t[0]), n)))),
                             z3.Implies(z3.And(t[0] >= 0, t[0] + 1 < m), r(t[0]) < r(t[0] + 1))])
    ctx.schema(wh, lambda t: [T.to_z3(T.implies(T.land(T.ge(t[0], 0), T.lt(t[0], n)), T.land(T.ge(wh(t[0]), 0), T.lt(wh(t[0]), m), T.eq(r(wh(t[0])), s(t[0])))))])
    ctx.__dict__.setdefault('uniq', []).append((s, n, r, m, wh))
    return A.new(ctx, (m,), lambda j: r(T.to_z3(j)), a.kind)


@lib('numpy.argsort')
def argsort(M, a, axis=-1, kind=None, **k):
    """of a permutation: its inverse"""
    a = M.arr(a)
    for n, p, q in M.ctx.__dict__.get('perms', ()):
        if a.ndim == 1 and M.ctx.prove(T.eq(a.shape[0], n)) and same_entries(M.ctx, a.snap(), p, (n,)):
            return A.new(M.ctx, (n,), q, 'i')
    raise Unsupported('argsort')


@lib('numpy.finfo')
def finfo(M, t=None):
    return FInfo()


class FInfo:
    def vc_getattr(self, M, name):
        v = {'eps': Fraction(1, 2 ** 52), 'tiny': Fraction(2) ** -1022, 'max': Fraction(2) ** 1023, 'epsneg': Fraction(1, 2 ** 53)}
        if name in v:
            return v[name]
        raise Unsupported('finfo.' + name)


@lib('numpy.iinfo')
def iinfo(M, t=None):
    return IInfo()


class IInfo:
    def vc_getattr(self, M, name):
        return {'max': 2 ** 63 - 1, 'min': -2 ** 63}[name]


@lib('numpy.normalize_axis_index', 'numpy.core.multiarray.normalize_axis_index')
def normalize_axis_index(M, ax, n):
    return ax % n


@lib('numpy.errstate', 'numpy.seterr', 'warnings.warn', 'warnings.simplefilter', 'warnings.filterwarnings', 'warnings.catch_warnings',
     'numpy.set_printoptions', 'logging.getLogger', 'logging.warning')
def nothing(M, *a, **k):
    return None


for _t, _k in (('float64', 'f'), ('double', 'f'), ('complex128', 'c'), ('int64', 'i'), ('bool_', 'b'), ('float_', 'f')):
    def _mk2(k):
        def f(M, x=0):
            if isinstance(x, (list, tuple)):
                return M.arr(x, k)
            if isinstance(x, Arr):
                return A.copy(x, k)
            if k == 'i':
                return T.trunc(x)
            return T.cast(x, k)
        return f
    LIB['numpy.' + _t] = _mk2(_k)


@lib('numpy.dtype')
def dtype_(M, d):
    return DType(dkind(d))


@lib('numpy.result_type', 'numpy.promote_types', 'numpy.find_common_type')
def result_type(M, *a):
    k = 'b'
    for x in a:
        if isinstance(x, Arr):
            k = T.join_kind(k, x.kind)
        elif T.is_scalar(x):
            k = T.join_kind(k, T.kind(x))
        elif isinstance(x, (list, tuple)):
            for y in x:
                k = T.join_kind(k, dkind(y))
        else:
            k = T.join_kind(k, dkind(x))
    return DType(k)


@lib('functools.lru_cache', 'functools.cache')
def lru_cache(M, *a, **k):
    from .interp import Func, Native
    if a and isinstance(a[0], Func):
        return _cached(M, a[0])
    return Native('lru_cache', lambda f: _cached(M, f))


def _cached(M, f):
    """identity for values; every array handed out is shared with the cache (ghost field of the buffer)"""
    from .interp import Native

    def mark(r):
        if isinstance(r, Arr):
            r.buf.shared = f.qualname
        elif isinstance(r, (list, tuple)):
            for x in r:
                mark(x)

    def call(*a, **k):
        r = M.I.call(f, list(a), k)
        mark(r)
        return r
    n = Native(f.name, call)
    n.func = f
    n.method = True
    n.cached = True
    return n


@lib('functools.wraps')
def wraps(M, f):
    from .interp import Native
    return Native('wraps', lambda g: g)


@lib('functools.partial')
def partial(M, f, *a, **k):
    from .interp import Native
    return Native('partial', lambda *b, **k2: M.I.call(f, list(a) + list(b), {**k, **k2}))


@lib('functools.reduce')
def reduce_(M, f, xs, *init):
    xs = M.iterate(xs)
    if init:
        r = init[0]
    else:
        if not xs:
            raise PyRaise('TypeError', 'reduce() of empty iterable')
        r, xs = xs[0], xs[1:]
    for x in xs:
        r = M.I.call(f, [r, x], {})
    return r


for _on, _op in (('mul', 'Mult'), ('add', 'Add'), ('sub', 'Sub'), ('truediv', 'Div')):
    LIB['operator.' + _on] = (lambda op: (lambda M, a, b: M.binop(op, a, b)))(_op)


@lib('itertools.chain', 'itertools.chain.from_iterable')
def chain(M, *xs):
    out = []
    for x in xs:
        out += M.iterate(x)
    return out


@lib('abc.abstractmethod', 'contextlib.contextmanager', 'numba.jit', 'numba.njit')
def ident(M, f=None, **k):
    return f


@lib('numpy.linalg.norm', 'scipy.linalg.norm')
def norm(M, a, ord=None, axis=None, keepdims=False, **k):
    ctx = M.ctx
    a = M.arr(a)
    if axis is None and a.ndim > 1 and ord not in (None, 'fro'):
        raise Unsupported('matrix norm')

    def f(red):
        return red
    if ord is None or ord == 2 or ord == 'fro':
        sq = A.ufunc(ctx, lambda x: T.add(T.mul(x.re, x.re), T.mul(x.im, x.im)) if T.is_cx(x) else T.mul(T.to_real(x), T.to_real(x)), [a], 'f')
        return M.uf1('sqrt', M.reduction('sum', sq, axis))
    ab = M.uf1('absolute', a)
    if ord is T.INF:
        return M.reduction('max', ab, axis)
    if ord == 1:
        return M.reduction('sum', ab, axis)
    raise Unsupported('norm order')


@lib('numpy.sum_of_squares')
def _sq(M, a):
    raise Unsupported('x')


@lib('time.time', 'time.process_time', 'time.perf_counter', 'timeit.default_timer')
def time_(M):
    return M.ctx.fresh('time', 'real')


@lib('numpy.block')
def block(M, rows):
    if isinstance(rows, list) and rows and isinstance(rows[0], list):
        return concat(M, [hstack2(M, r) for r in rows], 0)
    return hstack2(M, rows)


def hstack2(M, r):
    return concat(M, [atleast_2d(M, M.arr(x)) for x in r], 1)


@lib('numpy.fill_diagonal')
def fill_diagonal(M, a, v):
    s = a.snap()
    k = a.kind
    A.assign(M.ctx, a, A.new(M.ctx, a.shape, lambda i, j: T.ite(T.eq(i, j), T.cast(v, k), s(i, j)), k))


@lib('numpy.put', 'numpy.take')
def take(M, a, idx, axis=None):
    if axis is None or axis == 0:
        return A.getitem(M.ctx, M.arr(a), (M.arr(idx),))
    raise Unsupported('take')


class Support:
    """positions of the nonzero entries of a vector: their number cnt, idx(t) increasing in t, and its inverse rank"""

    def __init__(self, ctx, N, el):
        self.ctx, self.N, self.el = ctx, N, el
        ctx.counter += 1
        q = ctx.counter
        self.cnt = ctx.fresh('nonzeros', 'int')
        I, R = self.I, self.R = ctx.func('nz!%d' % q, 'i', 'i'), ctx.func('nzr!%d' % q, 'i', 'i')
        tz, nz = T.to_z3, lambda v: T.to_z3(v if T.is_bool(v) else T.ne(v, 0))
        c, n = self.cnt, tz(N)
        ctx.assume(z3.And(c >= 0, c <= n))
        ctx.schema(I, lambda a: [z3.Implies(z3.And(a[0] >= 0, a[0] < c), z3.And(I(a[0]) >= 0, I(a[0]) < n, R(I(a[0])) == a[0], nz(el(I(a[0])))))])
        ctx.schema(R, lambda a: [z3.Implies(z3.And(a[0] >= 0, a[0] < n, nz(el(a[0]))), z3.And(R(a[0]) >= 0, R(a[0]) < c, I(R(a[0])) == a[0]))])
        ctx.forall(N, lambda i: T.implies(nz(el(i)), z3.And(R(tz(i)) >= 0, R(tz(i)) < c, I(R(tz(i))) == tz(i))))
        ctx.__dict__.setdefault('supports', []).append(self)

    def array(self):
        n = 1 if self.ctx.prove(self.cnt == 1) else self.cnt
        return A.new(self.ctx, (n,), lambda t: self.I(T.to_z3(t)), 'i')


def support(M, a):
    ctx = M.ctx
    n, el = flat1(a)
    key, _ = ctx._bodykey((n,), lambda i: T.to_z3(el(i) if T.is_bool(el(i)) else T.ne(el(i), 0)), 'support')
    tab = ctx.__dict__.setdefault('_supports', {})
    if key not in tab and not T.isz3(n):
        for o in ctx.__dict__.get('supports', ()):
            if ctx.prove(T.eq(o.N, n)) and all(ctx.prove(T.eq(o.el(i), el(i))) for i in range(n)):
                tab[key] = o
                break
    if key not in tab:
        tab[key] = Support(ctx, n, el)
    return tab[key]


def flat1(a):
    s = a.snap()
    if a.ndim == 0:
        return 1, lambda i: s()
    if a.ndim == 1:
        return a.shape[0], s
    if a.ndim == 2 and not T.isz3(a.shape[1]) and a.shape[1] == 1:
        return a.shape[0], lambda i: s(i, 0)
    raise Unsupported('nonzero entries of a matrix')


@lib('numpy.nonzero')
def nonzero(M, a):
    a = M.arr(a)
    s = support(M, a)
    return (s.array(),) if a.ndim < 2 else (s.array(), A.full(M.ctx, s.array().shape, 0, 'i'))


@lib('numpy.flatnonzero')
def flatnonzero(M, a):
    return support(M, M.arr(a)).array()


@lib('numpy.longdouble')
def longdouble(M, x=0):
    return T.to_real(M.item(x) if isinstance(x, Arr) else x)


@lib('numpy.count_nonzero')
def count_nonzero(M, a, **k):
    a = M.arr(a)
    if a.ndim == 1 and T.isz3(a.shape[0]) or a.ndim == 2 and T.isz3(a.shape[0]) and not T.isz3(a.shape[1]) and a.shape[1] == 1:
        return support(M, a).cnt
    return M.reduction('sum', A.ufunc(M.ctx, lambda x: T.to_int(x if T.is_bool(x) else T.ne(x, 0)), [a], 'i'), None)


def compress(M, x):
    """a selection by a boolean mask as an array of its own"""
    if x.mask is None:
        return x
    if x.ndim != 1 or x.mask[0] not in (0, 'all'):
        raise Unsupported('selection by a mask')
    s = support(M, x.mask[1])
    f = Arr(x.buf, x.shape, x.fwd, x.inv).snap()
    return A.new(M.ctx, (s.cnt,), lambda t: f(s.I(T.to_z3(t))), x.kind)


@lib('numpy.meshgrid')
def meshgrid(M, *a, **k):
    raise Unsupported('meshgrid')


@lib('numpy.hypot')
def hypot(M, a, b, **k):
    return A.ufunc(M.ctx, lambda x, y: M.ctx.hypot(x, y), [a, b], 'f')


@lib('math.hypot', 'libc.math.hypot')
def hypot2(M, a, b):
    return M.ctx.hypot(a, b)


@lib('numpy.copysign', 'math.copysign')
def copysign(M, a, b):
    return A.ufunc(M.ctx, lambda x, y: T.ite(T.ge(y, 0), T.absv(T.to_real(x)), T.neg(T.absv(T.to_real(x)))), [a, b], 'f')


@lib('numpy.vectorize')
def vectorize(M, f, **k):
    raise Unsupported('vectorize')


# ------------------------------------------------------------------ transforms (assumed contracts on scipy)
@lib('scipy.fft._pocketfft.pypocketfft.dct')
def dct1(M, a, type=2, axes=None, inorm=0, out=None, nthreads=1, **k):
    """DCT-I along axis 0, unnormalised"""
    ctx = M.ctx
    if type != 1 or (axes is not None and tuple(axes) != (0,)) or (inorm != 0):
        raise Unsupported('dct variant')
    ctx.__dict__.setdefault('assumed', set()).add('scipy pypocketfft.dct type 1: y_k = a_0 + (-1)^k a_{N-1} + 2 sum_{0<n<N-1} a_n cos(pi k n/(N-1))')
    n = a.shape[0]
    s = a.snap()
    r = A.new(ctx, a.shape, lambda k, *j: dct1_elem(ctx, s, n, k, j), 'f')
    if out is not None:
        if a.kind != 'f':
            raise Unsupported('dct of non-real data into out')
        A.assign(ctx, out, r)
        return out
    return r


def costab(ctx):
    """C(j, k, N) = cos(pi j k / N) for integers: basic exact facts only"""
    f = ctx.func('cosjk', 'iii', 'f')
    if 'cosjk' not in ctx.schemas:
        def ax(args):
            j, k, N = args
            sg = lambda m: z3.If(m % 2 == 0, z3.RealVal(1), z3.RealVal(-1))
            out = [z3.Implies(j == 0, f(j, k, N) == 1), z3.Implies(k == 0, f(j, k, N) == 1),
                   z3.Implies(k == N, f(j, k, N) == sg(j)), z3.Implies(j == N, f(j, k, N) == sg(k))]
            return out
        ctx.schema(f, ax)
    return lambda j, k, N: f(T.to_z3(j), T.to_z3(k), T.to_z3(N))


def dct1_elem(ctx, s, n, k, j=()):
    C = costab(ctx)
    N = T.sub(n, 1)
    sg = T.ite(T.eq(T.mod(k, 2), 0), Fraction(1), Fraction(-1))
    mid = ctx.Sum(1, T.sub(n, 2), lambda i: T.mul(s(i, *j), C(i, k, N)))
    return T.add(T.add(s(0, *j), T.mul(sg, s(T.sub(n, 1), *j))), T.mul(2, mid))


class Spectrum:
    """transform of an array: opaque entries, known source"""

    def __init__(self, inv, shape, axis, src, kind, re, im):
        self.inv, self.shape, self.axis, self.src, self.kind, self.re, self.im = inv, shape, axis, src, kind, re, im

    def elem(self, *i):
        i = [T.to_z3(x) for x in i]
        return T.Cx(self.re(*i), self.im(*i))


def same_entries(ctx, f, g, shape):
    """f(i) = g(i) for every index of the shape (proved now, or unknown)"""
    n = ctx.push()
    try:
        idx = A.fresh_index(ctx, shape)
        r = A.in_shape(idx, shape)
        if r is False:
            return True
        if r is not True:
            ctx.assume(T.to_z3(r))
        m = ctx.mark()
        ok = ctx.prove(T.eq(f(*idx), g(*idx)))
        ctx.rollback(m)
        return ok
    finally:
        ctx.pop(n)


def dft(M, x, axis, inv):
    """discrete Fourier transform along an axis. Equal input gives equal output; the inverse transform of a transform is the
    original, that of the product of two transforms their circular convolution (assumed contract of scipy.fft / numpy.fft)"""
    ctx = M.ctx
    x = M.arr(x)
    if x.ndim == 0:
        raise Unsupported('transform of a scalar')
    if axis < 0:
        axis += x.ndim
    if x.mask is not None:
        raise Unsupported('transform of a selection')
    ctx.__dict__.setdefault('assumed', set()).add('fft / ifft: functions of their input, inverse to each other, product of transforms <-> circular convolution (convolution theorem)')
    shape = tuple(x.shape)
    N = shape[axis]
    s = x.snap()
    tab = ctx.__dict__.setdefault('_spectra', [])
    cand = [t for t in tab if t.axis == axis and len(t.shape) == len(shape) and all(ctx.prove(T.eq(p, q)) for p, q in zip(t.shape, shape))]
    for t in cand:
        if t.inv == inv and same_entries(ctx, s, t.src, shape):
            return A.new(ctx, shape, t.elem, 'c')
    other = [t for t in cand if t.inv != inv]
    for t in other:
        if same_entries(ctx, s, t.elem, shape):
            return A.new(ctx, shape, t.src, 'c')
    if inv:
        for p in range(len(other)):
            for q in range(p, len(other)):
                a, b = other[p], other[q]
                if not (a.kind in 'fi' and b.kind in 'fi'):
                    continue
                if same_entries(ctx, s, lambda *i: T.mul(a.elem(*i), b.elem(*i)), shape):
                    def conv(*i):
                        k = i[axis]

                        def at(f, l):
                            return T.to_real(f(*(i[:axis] + (l,) + i[axis + 1:])))

                        def wrap(l):
                            d = T.sub(k, l)
                            return T.ite(T.lt(d, 0), T.add(d, N), d)
                        r = ctx.Sum(0, T.sub(N, 1), lambda l: T.mul(at(a.src, l), at(b.src, wrap(l))))
                        if a is not b:
                            r2 = ctx.Sum(0, T.sub(N, 1), lambda l: T.mul(at(a.src, wrap(l)), at(b.src, l)))
                            e = T.implies(T.land(T.le(0, k), T.lt(k, N)), T.eq(r, r2))
                            if e is not True:
                                ctx.axiom(T.to_z3(e))
                        return T.Cx(r, Fraction(0))
                    return A.new(ctx, shape, conv, 'c')
    k = len(tab)
    t = Spectrum(inv, shape, axis, s, x.kind, ctx.func('dft%d.re' % k, 'i' * len(shape), 'f'), ctx.func('dft%d.im' % k, 'i' * len(shape), 'f'))
    tab.append(t)
    return A.new(ctx, shape, t.elem, 'c')


def _fftlib(inv):
    def f(M, x, n=None, axis=-1, norm=None, overwrite_x=False, workers=None, **k):
        if n is not None or norm not in (None, 'backward') or k:
            raise Unsupported('fft variant')
        return dft(M, x, axis, inv)
    return f


for _p in ('scipy.fft.', 'numpy.fft.', 'scipy.fftpack.'):
    LIB[_p + 'fft'] = _fftlib(False)
    LIB[_p + 'ifft'] = _fftlib(True)


@lib('numpy.kron')
def kron(M, a, b):
    """second factor with known dimensions"""
    a, b = M.arr(a), M.arr(b)
    if a.ndim != b.ndim or any(T.isz3(d) for d in b.shape):
        raise Unsupported('kron')
    s, t, bs = a.snap(), b.snap(), b.shape

    def fn(*i):
        def pick(j, ax):
            if ax == len(bs):
                return t(*j)
            if bs[ax] == 1:
                return pick(j + [0], ax + 1)
            r = pick(j + [bs[ax] - 1], ax + 1)
            for k in range(bs[ax] - 2, -1, -1):
                r = T.ite(T.eq(T.mod(i[ax], bs[ax]), k), pick(j + [k], ax + 1), r)
            return r
        return T.mul(s(*[x if d == 1 else T.floordiv(x, d) for x, d in zip(i, bs)]), pick([], 0))
    return A.new(M.ctx, [T.mul(x, y) for x, y in zip(a.shape, bs)], fn, T.join_kind(a.kind, b.kind))
