"""Symbolic numpy arrays: mutable buffers with element functions, and views on them."""
from fractions import Fraction
import z3

from . import terms as T
from .terms import Unsupported


class PyRaise(Exception):
    """the program under verification raises"""

    def __init__(self, exc, msg=''):
        super().__init__(exc, msg)
        self.exc, self.msg = exc, msg


class Buf:
    _n = 0

    def __init__(self, ctx, shape, fn, kind, name='a'):
        Buf._n += 1
        self.id = Buf._n
        ctx.counter += 1
        self.born = ctx.counter
        ctx.reg[self.born] = self
        self.ctx, self.shape, self.kind, self.name = ctx, tuple(shape), kind, name
        self._fn = fn
        self.readonly = False
        self.valueonly = False
        self.shared = None          # ghost: name of the cache / owner that also holds this buffer

    @property
    def fn(self):
        return self._fn

    def set(self, fn):
        if self.valueonly:
            raise Unsupported('in-place change of an object seen through a symbolic index')
        old = self._fn
        self.ctx.log(('buf', self), lambda: setattr(self, '_fn', old))
        self._fn = fn


def memo(fn):
    cache = {}
    keep = []

    def g(*idx):
        key = tuple(i.get_id() if T.isz3(i) else ('c', i) for i in idx)
        if key not in cache:
            cache[key] = fn(*idx)
            keep.append(idx)
        return cache[key]
    return g


class Arr:
    """view on a buffer.  fwd: view index -> buffer index; inv: buffer index -> (cond, view index)"""

    def __init__(self, buf, shape, fwd, inv, whole=False, mask=None):
        self.buf, self.shape, self.fwd, self.inv, self.whole = buf, tuple(shape), fwd, inv, whole
        self.mask = mask            # (axis, mask array): boolean selection along an axis

    @property
    def kind(self):
        return self.buf.kind

    @property
    def ndim(self):
        return len(self.shape)

    @property
    def ctx(self):
        return self.buf.ctx

    def elem(self, *idx):
        return self.buf.fn(*self.fwd(*idx))

    def snap(self):
        fn, fwd = self.buf.fn, self.fwd
        if self.whole:
            return fn
        return lambda *idx: fn(*fwd(*idx))

    def __repr__(self):
        return 'Arr(%s, %s%s)' % (self.buf.name, self.shape, '' if self.whole else ' view')


def new(ctx, shape, fn, kind, name='t'):
    shape = tuple(shape)
    b = Buf(ctx, shape, memo(fn), kind, name)
    return Arr(b, shape, lambda *i: i, lambda *i: (True, i), whole=True)


def full(ctx, shape, val, kind, name='t'):
    v = T.cast(val, kind)
    return new(ctx, shape, lambda *i: v, kind, name)


def symbolic(ctx, name, shape, kind='f', order=None):
    """fresh symbolic array"""
    dom = 'i' * len(shape)
    if kind == 'c':
        fr, fi = ctx.func(name + '.re', dom, 'f'), ctx.func(name + '.im', dom, 'f')
        if dom == '':
            return new(ctx, shape, lambda: T.Cx(z3.Real(name + '.re'), z3.Real(name + '.im')), 'c', name)
        return new(ctx, shape, lambda *i: T.Cx(fr(*map(T.to_z3, i)), fi(*map(T.to_z3, i))), 'c', name)
    if dom == '':
        c = ctx.fresh(name, kind)
        return new(ctx, shape, lambda: c, kind, name)
    f = ctx.func(name, dom, kind)
    return new(ctx, shape, lambda *i: f(*map(T.to_z3, i)), kind, name)


def same_dim(ctx, a, b):
    if not T.isz3(a) and not T.isz3(b):
        return a == b
    e = T.eq(a, b)
    if isinstance(e, bool):
        return e
    return ctx.prove(e)


def dim_is_one(ctx, d):
    if not T.isz3(d):
        return d == 1
    return ctx.branch(T.eq(d, 1), 'dimension is one')


def broadcast_shapes(ctx, shapes):
    n = max(len(s) for s in shapes)
    out = []
    modes = [[] for _ in shapes]
    for ax in range(n):
        dims = []
        for j, s in enumerate(shapes):
            p = ax - (n - len(s))
            dims.append(s[p] if p >= 0 else None)
        res = None
        cand = [d for d in dims if d is not None]
        nonone = [d for d in cand if T.isz3(d) or d != 1]
        if not nonone:
            res = 1
            one = [False] * len(dims)
        else:
            first = nonone[0]
            if all(same_dim(ctx, first, d) for d in nonone[1:]):
                res = first
                one = [(d is not None and not T.isz3(d) and d == 1) for d in dims]
            else:
                # split on which are one
                res = 1
                one = []
                for d in dims:
                    if d is None:
                        one.append(False)
                        continue
                    if dim_is_one(ctx, d):
                        one.append(True)
                    else:
                        one.append(False)
                        if not T.isz3(res) and res == 1:
                            res = d
                        elif not ctx.branch(T.eq(res, d), 'broadcast'):
                            raise PyRaise('ValueError', 'operands could not be broadcast together')
                if res == 1 and not T.isz3(res):
                    one = [False] * len(dims)
        out.append(res)
        for j, d in enumerate(dims):
            modes[j].append(None if d is None else ('one' if one[j] else 'id'))
    maps = []
    for m in modes:
        def mk(m):
            def f(idx):
                return tuple(0 if mode == 'one' else i for mode, i in zip(m, idx) if mode is not None)
            return f
        maps.append(mk(m))
    return tuple(out), maps


def mask_of(args):
    m = None
    for a in args:
        if isinstance(a, Arr) and a.mask is not None:
            m = a.mask
    return m


def ufunc(ctx, f, args, kindf):
    """elementwise application; returns scalar if all arguments are scalars"""
    if not any(isinstance(a, Arr) for a in args):
        return f(*args)
    shapes = [a.shape if isinstance(a, Arr) else () for a in args]
    shape, maps = broadcast_shapes(ctx, shapes)
    snaps = [a.snap() if isinstance(a, Arr) else None for a in args]
    kinds = [a.kind if isinstance(a, Arr) else T.kind(a) for a in args]
    k = kindf(*kinds) if callable(kindf) else kindf

    def fn(*idx):
        vals = [s(*m(idx)) if s is not None else a for s, m, a in zip(snaps, maps, args)]
        return T.cast(f(*vals), k) if k != 'o' else f(*vals)
    r = new(ctx, shape, fn, k)
    r.mask = mask_of(args)
    return r


def norm_bound(ctx, b, n, default):
    """Python slice bound for a positive step -> value in [0, n]"""
    if b is None:
        return default
    if T.is_real(b):
        raise PyRaise('TypeError', 'slice indices must be integers')
    b = T.to_int(b)
    if not T.isz3(b) and not T.isz3(n):
        if b < 0:
            b += n
        return min(max(b, 0), n)
    if ctx.branch(T.lt(b, 0), 'slice bound negative'):
        b = T.add(b, n)
        if ctx.branch(T.lt(b, 0), 'slice bound underflow'):
            return 0
        return b
    if ctx.branch(T.gt(b, n), 'slice bound overflow'):
        return n
    return b


def slice_spec(ctx, s, n):
    """-> (start, step, length)"""
    step = s.step if s.step is not None else 1
    if T.isz3(step):
        raise Unsupported('symbolic slice step')
    if step > 0:
        lo = norm_bound(ctx, s.start, n, 0)
        hi = norm_bound(ctx, s.stop, n, n)
        if not T.isz3(lo) and not T.isz3(hi):
            return lo, step, max(0, -((lo - hi) // step)) if hi > lo else 0
        d = T.sub(hi, lo)
        if ctx.branch(T.le(d, 0), 'empty slice'):
            return lo, step, 0
        return lo, step, (d if step == 1 else T.floordiv(T.add(d, step - 1), step))
    # negative step
    def nb(b, default):
        if b is None:
            return default
        b = T.to_int(b)
        if ctx.branch(T.lt(b, 0), 'slice bound negative'):
            b = T.add(b, n)
            if ctx.branch(T.lt(b, 0), 'slice bound underflow'):
                return -1
            return b
        if ctx.branch(T.ge(b, n), 'slice bound overflow'):
            return T.sub(n, 1)
        return b
    lo = nb(s.start, T.sub(n, 1))
    hi = nb(s.stop, -1)
    d = T.sub(lo, hi)
    if ctx.branch(T.le(d, 0), 'empty slice'):
        return lo, step, 0
    m = -step
    return lo, step, (d if m == 1 else T.floordiv(T.add(d, m - 1), m))


def check_index(ctx, i, n, unchecked):
    """index -> nonnegative index; emits bounds obligations for unchecked (C) accesses"""
    i = T.to_int(i)
    if unchecked:
        ctx.oblige(T.land(T.le(0, i), T.lt(i, n)), 'index in bounds (bounds checking is disabled)', 'bounds')
        if not ctx.quiet and T.isz3(T.land(T.le(0, i), T.lt(i, n))):
            ctx.assume(T.to_z3(T.land(T.le(0, i), T.lt(i, n))))
        return i
    if not T.isz3(i) and not T.isz3(n):
        if not -n <= i < n:
            raise PyRaise('IndexError', 'index out of bounds')
        return i + n if i < 0 else i
    if ctx.branch(T.lt(i, 0), 'negative index'):
        i = T.add(i, n)
    if not ctx.branch(T.land(T.le(0, i), T.lt(i, n)), 'index in range'):
        raise PyRaise('IndexError', 'index out of bounds')
    return i


def is_basic(k):
    return k is None or k is Ellipsis or isinstance(k, slice) or T.is_int(k)


def view(ctx, a, key, unchecked=False):
    """basic indexing; returns Arr (or scalar when fully indexed)"""
    if not isinstance(key, tuple):
        key = (key,)
    ncons = sum(1 for k in key if k is not None and k is not Ellipsis)
    if Ellipsis in [k for k in key if not T.isz3(k)]:
        p = [i for i, k in enumerate(key) if k is Ellipsis][0]
        key = key[:p] + (slice(None),) * (a.ndim - ncons) + key[p + 1:]
    elif ncons < a.ndim:
        key = key + (slice(None),) * (a.ndim - ncons)
    if ncons > a.ndim:
        raise PyRaise('IndexError', 'too many indices for array')
    specs = []       # per parent axis: ('i', idx) or ('s', start, step, n)
    shape = []
    order = []       # per view axis: parent axis or None
    ax = 0
    for k in key:
        if k is None:
            order.append(None)
            shape.append(1)
            continue
        n = a.shape[ax]
        if isinstance(k, slice):
            st, step, ln = slice_spec(ctx, k, n)
            specs.append(('s', st, step, ln, n))
            order.append(ax)
            shape.append(ln)
        else:
            specs.append(('i', check_index(ctx, k, n, unchecked)))
        ax += 1
    pos = {p: v for v, p in enumerate(order) if p is not None}

    def fwd(*v):
        out = []
        for p, s in enumerate(specs):
            if s[0] == 'i':
                out.append(s[1])
            else:
                out.append(T.add(s[1], T.mul(s[2], v[pos[p]])))
        return a.fwd(*out)

    def inv(*b):
        c, pi = a.inv(*b)
        conds = [c]
        vi = [0] * len(order)
        for p, s in enumerate(specs):
            x = pi[p]
            if s[0] == 'i':
                conds.append(T.eq(x, s[1]))
            else:
                _, st, step, ln, n = s
                if not T.isz3(st) and st == 0 and step == 1:
                    q = x
                    if not (ln is n or same_dim(ctx, ln, n)):
                        conds.append(T.lt(q, ln))
                else:
                    d = T.sub(x, st)
                    if step == 1:
                        q = d
                    elif step == -1:
                        q = T.neg(d)
                    else:
                        if step < 0:
                            d = T.neg(d)
                        m = abs(step)
                        conds.append(T.eq(T.mod(d, m), 0))
                        q = T.floordiv(d, m)
                    conds.append(T.le(0, q))
                    conds.append(T.lt(q, ln))
                vi[pos[p]] = q
        return T.land(*conds), tuple(vi)
    r = Arr(a.buf, shape, fwd, inv)
    if not shape:
        return r.elem()
    return r


def getitem(ctx, a, key, unchecked=False):
    ks = key if isinstance(key, tuple) else (key,)
    if all(is_basic(k) for k in ks):
        return view(ctx, a, key, unchecked)
    ks = [tuple(k) if isinstance(k, list) else k for k in ks]
    # boolean mask along one axis, everything else a full slice
    masks = [(i, k) for i, k in enumerate(ks) if isinstance(k, Arr) and k.kind == 'b' or T.is_bool(k)]
    if len(masks) == 1:
        i, m = masks[0]
        others = [k for j, k in enumerate(ks) if j != i]
        if a.mask is not None and a.ndim == 1:
            # a selection of a selection: both conditions on the same entries
            if not (isinstance(m, Arr) and m.mask is not None and m.ndim == 1 and m.mask[1] is a.mask[1]):
                raise Unsupported('boolean mask of a selection')
            p, q = a.mask[1].snap(), m.snap()
            both = new(ctx, a.shape, lambda t: T.land(p(t), T.to_bool(q(t)) if hasattr(T, 'to_bool') else q(t)), 'b')
            return Arr(a.buf, a.shape, a.fwd, a.inv, mask=(0, both))
        if T.isz3(m):
            ctx.keep.append(m)
        src = (m.buf, m.buf.fn, m.whole) if isinstance(m, Arr) else ('scalar', m.get_id() if T.isz3(m) else m, True)
        if not isinstance(m, Arr):
            m = full(ctx, (a.shape[i],), m, 'b')
        if isinstance(m, Arr) and m.ndim == 1 or m.ndim == 0:
            if m.ndim == 0:
                v0 = m.elem()
                m = full(ctx, (a.shape[i],), v0, 'b')
            base = view(ctx, a, tuple(slice(None) if j == i else k for j, k in enumerate(ks)))
            axis = sum(1 for j in range(i) if not T.is_int(ks[j]))
            m.masksrc = src
            r = Arr(base.buf, base.shape, base.fwd, base.inv, mask=(axis, m))
            return r
        if m.ndim == a.ndim and not others:
            r = Arr(a.buf, a.shape, a.fwd, a.inv, mask=('all', m))
            return r
        raise Unsupported('boolean mask index')
    # integer array index along one axis
    ints = [(i, k) for i, k in enumerate(ks) if isinstance(k, (Arr, tuple))]
    if len(ints) == 1:
        i, m = ints[0]
        if isinstance(m, tuple):
            m = from_list(ctx, list(m))
        if m.kind == 'i' and m.ndim == 1:
            n = a.shape[i]
            ks2 = [slice(None) if j == i else k for j, k in enumerate(ks)]
            base = view(ctx, a, tuple(ks2))
            axis = sum(1 for j in range(i) if not T.is_int(ks[j]))
            ms, bs = m.snap(), base.snap()

            def wrap(x):
                return T.ite(T.lt(x, 0), T.add(x, n), x)

            def fn(*idx):
                idx = list(idx)
                idx[axis] = wrap(ms(idx[axis]))
                return bs(*idx)
            shape = list(base.shape)
            shape[axis] = m.shape[0]
            q = ctx.fresh('fi', 'int')
            inr = T.land(T.le(0, q), T.lt(q, m.shape[0]))
            j = wrap(ms(q))
            if not ctx.prove(T.implies(inr, T.land(T.le(0, j), T.lt(j, n)))):
                ctx.notes.add('fancy index assumed in range')
            return new(ctx, shape, fn, a.kind)
    if len(ints) == len(ks) == a.ndim and all(isinstance(k, Arr) and k.kind == 'i' and k.ndim == 1 for k in ks):
        L = ks[0].shape[0]
        if all(same_dim(ctx, L, k.shape[0]) for k in ks):
            ms, bs = [k.snap() for k in ks], a.snap()
            wr = lambda x, n: T.ite(T.lt(x, 0), T.add(x, n), x)
            q = ctx.fresh('fi', 'int')
            ok = [T.land(T.le(0, wr(m(q), n)), T.lt(wr(m(q), n), n)) for m, n in zip(ms, a.shape)]
            if not ctx.prove(T.implies(T.land(T.le(0, q), T.lt(q, L)), T.land(*ok))):
                ctx.notes.add('fancy index assumed in range')
            return new(ctx, (L,), lambda t: bs(*[wr(m(t), n) for m, n in zip(ms, a.shape)]), a.kind)
    raise Unsupported('advanced indexing')


def from_list(ctx, xs):
    from .ctx import Unsupported as U
    if not xs:
        return new(ctx, (0,), lambda i: Fraction(0), 'f')
    if all(isinstance(x, (list, tuple)) for x in xs):
        rows = [from_list(ctx, list(x)) for x in xs]
        return stack_new_axis(ctx, rows)
    if all(isinstance(x, Arr) for x in xs):
        return stack_new_axis(ctx, xs)
    if not all(T.is_scalar(x) for x in xs):
        return new(ctx, (len(xs),), _pick(xs), 'o')
    k = 'b'
    for x in xs:
        k = T.join_kind(k, T.kind(x))
    vals = [T.cast(x, k) for x in xs]
    return new(ctx, (len(xs),), _pick(vals), k)


def _pick(vals):
    def fn(i):
        if not T.isz3(i):
            return vals[i]
        r = vals[-1]
        for j in range(len(vals) - 2, -1, -1):
            r = T.ite(T.eq(i, j), vals[j], r)
        return r
    return fn


def stack_new_axis(ctx, rows):
    sh = rows[0].shape
    for r in rows[1:]:
        if len(r.shape) != len(sh) or not all(same_dim(ctx, a, b) for a, b in zip(sh, r.shape)):
            raise PyRaise('ValueError', 'inhomogeneous shape')
    k = 'b'
    for r in rows:
        k = T.join_kind(k, r.kind)
    snaps = [r.snap() for r in rows]

    def fn(i, *rest):
        vals = [T.cast(s(*rest), k) for s in snaps]
        return _pick(vals)(i)
    return new(ctx, (len(rows),) + tuple(sh), fn, k)


def setitem(ctx, a, key, val, unchecked=False):
    ks = key if isinstance(key, tuple) else (key,)
    if a.buf.readonly:
        raise PyRaise('ValueError', 'assignment destination is read-only')
    if all(is_basic(k) for k in ks):
        ncons = sum(1 for k in ks if k is not None and k is not Ellipsis)
        if ncons == a.ndim and all(T.is_int(k) for k in ks):
            idx = [check_index(ctx, k, n, unchecked) for k, n in zip(ks, a.shape)]
            if isinstance(val, Arr) and a.kind != 'o':
                if any(T.isz3(d) or d != 1 for d in val.shape):
                    raise PyRaise('ValueError', 'setting an array element with a sequence')
                val = val.elem(*[0] * val.ndim)
            tgt = a.fwd(*idx)
            v = T.cast(val, a.kind) if a.kind != 'o' else val
            old = a.buf.fn
            if a.kind == 'o':
                note_otype(ctx, a.buf, val)
            a.buf.set(memo(lambda *b: T.ite(T.land(*[T.eq(x, y) for x, y in zip(b, tgt)]), v, old(*b))
                           if a.kind != 'o' else _objite(ctx, b, tgt, v, old)))
            return
        w = view(ctx, a, key, unchecked)
        assign(ctx, w, val)
        return
    if a.ndim == 1 and len(ks) == 1:
        k = ks[0]
        xs = list(k) if isinstance(k, list) else [k.elem(q) for q in range(k.shape[0])] if isinstance(k, Arr) and k.ndim == 1 and k.kind == 'i' and not T.isz3(k.shape[0]) else None
        if xs is not None and len(xs) <= 8 and all(T.is_int(x) and not T.is_bool(x) for x in xs):
            vs = val.snap() if isinstance(val, Arr) and val.ndim == 1 and val.shape[0] == len(xs) and val.kind != 'o' else None
            if isinstance(val, Arr) and vs is None:
                raise Unsupported('assignment of an array through an index list')
            for q, x in enumerate(xs):
                setitem(ctx, a, x, val if vs is None else vs(q), unchecked)
            return
    if isinstance(ks[0], list):
        raise Unsupported('assignment through an index list')
    g = getitem(ctx, a, key)
    if g.mask is not None:
        assign(ctx, g, val)
        return
    raise Unsupported('assignment through an integer array index')


def note_otype(ctx, buf, val):
    """what kind of objects an object array holds: scalars, or arrays of one shape"""
    if T.is_scalar(val) and not isinstance(val, (T.Special, T.Cx)):
        t = ('s', 'f' if T.kind(val) in 'if' else T.kind(val))
    elif isinstance(val, Arr):
        t = ('v', val.shape, val.kind)
    else:
        t = 'mixed'
    o = getattr(buf, 'otype', None)
    if o is None:
        buf.otype = t
    elif o != 'mixed' and t != 'mixed' and o[0] == t[0] == 'v':
        same = len(o[1]) == len(t[1]) and all(same_dim(ctx, x, y) for x, y in zip(o[1], t[1]))
        buf.otype = ('v', o[1], T.join_kind(o[2], t[2])) if same else 'mixed'
    elif o != t:
        buf.otype = 'mixed'


def frozen(ctx, shape, fn, kind):
    """value of an object seen through a symbolic index: may be read, not written"""
    a = new(ctx, shape, fn, kind)
    a.buf.valueonly = True
    return a


def _objite(ctx, b, tgt, v, old):
    c = T.land(*[T.eq(x, y) for x, y in zip(b, tgt)])
    if c is True:
        return v
    if c is False:
        return old(*b)
    o = old(*b)
    if isinstance(v, Arr):
        vs = v.snap()
        if o is None:
            ctx.counter += 1
            f = ctx.func('unset!%d' % ctx.counter, 'i' * len(v.shape), v.kind)
            return frozen(ctx, v.shape, lambda *j: T.ite(c, vs(*j), f(*map(T.to_z3, j))), v.kind)
        if isinstance(o, Arr) and len(o.shape) == len(v.shape) and all(same_dim(ctx, x, y) for x, y in zip(o.shape, v.shape)):
            os_ = o.snap()
            k = T.join_kind(o.kind, v.kind)
            return frozen(ctx, v.shape, lambda *j: T.ite(c, T.cast(vs(*j), k), T.cast(os_(*j), k)), k)
    elif T.is_scalar(v):
        if o is None:
            o = ctx.fresh('unset', {'i': 'int', 'f': 'real', 'b': 'bool'}[T.kind(v)])
        if T.is_scalar(o):
            return T.ite(c, v, o)
    raise Unsupported('symbolic write into an object array')


def assign(ctx, w, val):
    """w[...] = val with broadcasting"""
    old = w.buf.fn
    k = w.kind
    mask = w.mask
    if mask is not None:
        axis, m = mask
        ms = m.snap()
        if isinstance(val, Arr) and val.mask is None and val.ndim == w.ndim and axis != 'all':
            raise Unsupported('masked assignment of an unmasked array')
        if isinstance(val, Arr) and val.mask is not None and not (val.mask[0] == axis and (val.mask[1] is m or (
                getattr(m, 'masksrc', None) is not None and getattr(val.mask[1], 'masksrc', None) == m.masksrc and m.masksrc[2]))):
            raise Unsupported('masked assignment under another mask')
    if isinstance(val, Arr):
        if val.kind == 'c' and k in 'fib':
            k = k  # numpy: ComplexWarning, drops the imaginary part
            snap0 = val.snap()
            vs = lambda *i: snap0(*i).re
            ctx.warn.append('complex assigned into real array')
        else:
            vs = val.snap()
        if val.ndim > w.ndim:
            # leading ones may be dropped
            extra = val.ndim - w.ndim
            if any(T.isz3(d) or d != 1 for d in val.shape[:extra]):
                raise PyRaise('ValueError', 'could not broadcast input array')
            vs0 = vs
            vs = lambda *i: vs0(*([0] * extra + list(i)))
            vshape = val.shape[extra:]
        else:
            vshape = val.shape
        modes = []
        off = w.ndim - len(vshape)
        for j, d in enumerate(vshape):
            t = w.shape[j + off]
            if same_dim(ctx, d, t):
                modes.append('id')
            elif dim_is_one(ctx, d):
                modes.append('one')
            elif ctx.branch(T.eq(d, t), 'assignment shapes match'):
                modes.append('id')
            else:
                raise PyRaise('ValueError', 'could not broadcast input array into shape')

        def value(v):
            idx = [0 if m_ == 'one' else x for m_, x in zip(modes, v[off:])]
            return conv(vs(*idx), k)
    else:
        if not T.is_scalar(val):
            if isinstance(val, (list, tuple)):
                return assign(ctx, w, from_list(ctx, list(val)))
            raise Unsupported('assigning %r into an array' % type(val))

        def value(v):
            return conv(val, k)

    def fn(*b):
        c, v = w.inv(*b)
        if mask is not None:
            c = T.land(c, ms(*v) if axis == 'all' else ms(v[axis]))
        if c is False:
            return old(*b)
        return T.ite(c, value(v), old(*b))
    w.buf.set(memo(fn))


def conv(x, k):
    if k == 'i' and (T.is_real(x)):
        return T.trunc(x)
    if k in 'fi' and T.is_cx(x):
        return x.re
    return T.cast(x, k)


def transpose(a, perm):
    def fwd(*v):
        p = [None] * len(perm)
        for vi, pa in enumerate(perm):
            p[pa] = v[vi]
        return a.fwd(*p)

    def inv(*b):
        c, p = a.inv(*b)
        return c, tuple(p[pa] for pa in perm)
    return Arr(a.buf, [a.shape[p] for p in perm], fwd, inv)


def drop_axis(a, ax):
    def fwd(*v):
        return a.fwd(*(v[:ax] + (0,) + v[ax:]))

    def inv(*b):
        c, p = a.inv(*b)
        return c, p[:ax] + p[ax + 1:]
    return Arr(a.buf, a.shape[:ax] + a.shape[ax + 1:], fwd, inv, mask=None)


def insert_axis(a, ax):
    def fwd(*v):
        return a.fwd(*(v[:ax] + v[ax + 1:]))

    def inv(*b):
        c, p = a.inv(*b)
        return c, p[:ax] + (0,) + p[ax:]
    return Arr(a.buf, a.shape[:ax] + (1,) + a.shape[ax:], fwd, inv)


def copy(a, kind=None):
    k = kind or a.kind
    s = a.snap()
    return new(a.ctx, a.shape, (lambda *i: T.cast(s(*i), k)) if k != a.kind else (lambda *i: s(*i)), k, a.buf.name + "'")


def in_shape(idx, shape):
    cs = []
    for i, d in zip(idx, shape):
        cs.append(T.le(0, i))
        cs.append(T.lt(i, d))
    return T.land(*cs)


def fresh_index(ctx, shape, name='i'):
    return tuple(0 if (not T.isz3(d) and d == 1) else ctx.fresh(name, 'int') for d in shape)


def oblige_equal(ctx, a, b, name, kind='post'):
    """obligation: two arrays (or scalars) are equal"""
    if not isinstance(a, Arr) and not isinstance(b, Arr):
        ctx.oblige(T.eq(a, b), name, kind)
        return
    if not isinstance(a, Arr) or not isinstance(b, Arr) or a.ndim != b.ndim:
        ctx.oblige(False, name + ' [rank]', kind)
        return
    for p, (x, y) in enumerate(zip(a.shape, b.shape)):
        ctx.oblige(T.eq(x, y), name + ' [shape axis %d]' % p, kind)
    n = ctx.push()
    try:
        idx = fresh_index(ctx, a.shape)
        ctx.assume(in_shape(idx, a.shape)) if in_shape(idx, a.shape) is not True else None
        ctx.oblige(T.eq(a.elem(*idx), b.elem(*idx)), name, kind)
    except Exception as e:
        from .ctx import Infeasible
        if not isinstance(e, Infeasible):
            raise
    finally:
        ctx.pop(n)
