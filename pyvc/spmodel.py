"""scipy.sparse matrices as their entries (assumed contracts of scipy): a matrix is its shape and either a list of bands (offset, g),
entry (i, i + offset) = g(i), or a function of row and column.  Storage formats are not modelled, only whether the product operator
is the matrix product (matrices) or elementwise (arrays)."""
import z3

from . import terms as T
from . import arrays as A
from .arrays import Arr
from .ctx import Unsupported
from .nplib import lib

MATRIX = ('eye', 'spdiags', 'diags', 'csr_matrix', 'csc_matrix', 'lil_matrix')


def note(ctx, t):
    ctx.__dict__.setdefault('assumed', set()).add('scipy.sparse: ' + t)


class Sp:
    _n = 0

    def __init__(self, ctx, shape, bands=None, el=None, arr=False):
        self.ctx, self.shape, self.bands, self.arr = ctx, tuple(shape), bands, arr
        self._el = el
        Sp._n += 1
        self.n = Sp._n

    def el(self, i, j):
        if self._el is not None:
            return self._el(i, j)
        r = 0
        for off, g in self.bands:
            r = T.add(r, T.ite(T.eq(j, T.add(i, off)), g(i), T.to_real(0)))
        return T.to_real(r)

    def inside(self, i, j):
        return T.land(T.le(0, i), T.lt(i, self.shape[0]), T.le(0, j), T.lt(j, self.shape[1]))

    # ---------------------------------------------------------------- operations
    def scaled(self, s):
        s = T.to_real(s) if T.kind(s) != 'c' else s
        if self.bands is not None:
            return Sp(self.ctx, self.shape, [(o, (lambda g: lambda i: T.mul(s, g(i)))(g)) for o, g in self.bands], arr=self.arr)
        return Sp(self.ctx, self.shape, el=lambda i, j: T.mul(s, self.el(i, j)), arr=self.arr)

    def plus(self, o, sign=1):
        for x, y in zip(self.shape, o.shape):
            self.ctx.oblige(T.eq(x, y), 'shapes of the summands', 'call')
        p = o if sign == 1 else o.scaled(-1)
        if self.bands is not None and p.bands is not None:
            return Sp(self.ctx, self.shape, self.bands + p.bands, arr=self.arr)
        a, b = self.el if self._el is None else self._el, p.el if p._el is None else p._el
        return Sp(self.ctx, self.shape, el=lambda i, j: T.add(a(i, j), b(i, j)), arr=self.arr)

    def times(self, o):
        ctx = self.ctx
        ctx.oblige(T.eq(self.shape[1], o.shape[0]), 'shapes of the factors', 'call')
        N, sh = self.shape[1], (self.shape[0], o.shape[1])
        inn = lambda l: T.land(T.le(0, l), T.lt(l, N))
        if self.bands is not None and o.bands is not None:
            out = []
            for a, g in self.bands:
                for b, h in o.bands:
                    out.append((T.add(a, b), (lambda a, g, b, h: lambda i: T.ite(inn(T.add(i, a)), T.mul(g(i), h(T.add(i, a))), T.to_real(0)))(a, g, b, h)))
            return Sp(ctx, sh, out, arr=self.arr)
        if self.bands is not None:
            B = o.el

            def el(i, j):
                r = 0
                for a, g in self.bands:
                    r = T.add(r, T.ite(inn(T.add(i, a)), T.mul(g(i), B(T.add(i, a), j)), T.to_real(0)))
                return T.to_real(r)
            return Sp(ctx, sh, el=el, arr=self.arr)
        if o.bands is not None:
            L = self.el

            def el(i, j):
                r = 0
                for b, h in o.bands:
                    l = T.sub(j, b)
                    r = T.add(r, T.ite(inn(l), T.mul(L(i, l), h(l)), T.to_real(0)))
                return T.to_real(r)
            return Sp(ctx, sh, el=el, arr=self.arr)
        L, B = self.el, o.el
        return Sp(ctx, sh, el=lambda i, j: ctx.Sum(0, T.sub(N, 1), lambda l: T.mul(L(i, l), B(l, j))), arr=self.arr)

    def vec(self, v):
        ctx = self.ctx
        ctx.oblige(T.eq(self.shape[1], v.shape[0]), 'shapes of matrix and vector', 'call')
        N, x = self.shape[1], v.snap()
        inn = lambda l: T.land(T.le(0, l), T.lt(l, N))

        def one(i, *c):
            if self.bands is None:
                L = self.el
                return ctx.Sum(0, T.sub(N, 1), lambda l: T.mul(L(i, l), x(l, *c)))
            r = 0
            for a, g in self.bands:
                r = T.add(r, T.ite(inn(T.add(i, a)), T.mul(g(i), x(T.ite(inn(T.add(i, a)), T.add(i, a), 0), *c)), T.to_real(0)))
            return r if T.kind(r) == 'c' else T.to_real(r)
        return A.new(ctx, (self.shape[0],) + v.shape[1:], one, 'c' if v.kind == 'c' else 'f')

    # ---------------------------------------------------------------- engine hooks
    def vc_binop(self, M, op, a, b):
        note(self.ctx, 'sums, scalings, slices and products of matrices are those of their entries')
        if op in ('Add', 'Sub', 'add', 'subtract') and isinstance(a, Sp) and isinstance(b, Sp):
            return a.plus(b, 1 if op in ('Add', 'add') else -1)
        for z in (a, b):
            if hasattr(z, 'vc_lift'):
                return z.vc_binop(M, op, a, b)
        sc = lambda v: T.is_scalar(v) or (isinstance(v, Arr) and v.ndim == 0)
        val = lambda v: v.elem() if isinstance(v, Arr) else v
        if op in ('Mult', 'multiply'):
            if isinstance(a, Sp) and sc(b):
                return a.scaled(val(b))
            if isinstance(b, Sp) and sc(a):
                return b.scaled(val(a))
            if isinstance(a, Sp) and a.arr or isinstance(b, Sp) and b.arr:
                raise Unsupported('elementwise product of sparse arrays')
        if op in ('Div', 'true_divide', 'divide') and isinstance(a, Sp) and sc(b):
            return a.scaled(T.div(T.to_real(1), T.to_real(val(b))))
        if op in ('Mult', 'MatMult', 'multiply', 'matmul') and isinstance(a, Sp):
            if isinstance(b, Sp):
                return a.times(b)
            if isinstance(b, Arr):
                return a.vec(b)
        raise Unsupported('%s with a sparse matrix' % op)

    def vc_unop(self, M, op):
        if op == 'USub':
            return self.scaled(-1)
        raise Unsupported(op + ' of a sparse matrix')

    def vc_getattr(self, M, name):
        from .interp import Native
        N = lambda f: Native(name, f)
        if name == 'shape':
            return self.shape
        if name == 'ndim':
            return 2
        if name in ('tocsr', 'tocsc', 'tolil', 'todia', 'tocoo', 'asformat', 'copy', 'todense', 'eliminate_zeros', 'sum_duplicates', 'sort_indices'):
            return N(lambda *a, **k: Sp(self.ctx, self.shape, self.bands, self._el, self.arr) if name not in ('eliminate_zeros', 'sum_duplicates', 'sort_indices') else None)
        if name == 'toarray':
            return N(lambda *a, **k: A.new(self.ctx, self.shape, self.el, 'f'))
        if name == 'dot':
            return N(lambda o: self.times(o) if isinstance(o, Sp) else self.vec(o))
        if name in ('T', 'transpose'):
            e = self.el
            r = Sp(self.ctx, self.shape[::-1], el=lambda i, j: e(j, i), arr=self.arr)
            return r if name == 'T' else N(lambda *a, **k: r)
        if name == 'diagonal':
            return N(lambda *a: A.new(self.ctx, (T.minv(*self.shape),), lambda i: self.el(i, i), 'f'))
        raise Unsupported('attribute %s of a sparse matrix' % name)

    def region(self, M, k):
        """row and column maps of an index made of slices and numbers: [(start, step, length or None)]"""
        k = k if isinstance(k, tuple) else (k,)
        k = k + (slice(None),) * (2 - len(k))
        if len(k) != 2:
            raise Unsupported('index of a sparse matrix')
        out = []
        for s, n in zip(k, self.shape):
            if isinstance(s, slice):
                st, sp, ln = A.slice_bounds(self.ctx, s, n) if hasattr(A, 'slice_bounds') else slice_of(self.ctx, s, n)
                out.append((st, sp, ln))
            elif T.is_scalar(s):
                i = T.ite(T.lt(s, 0), T.add(s, n), s) if T.isz3(s) or s < 0 else s
                self.ctx.oblige(T.land(T.le(0, i), T.lt(i, n)), 'index of a sparse matrix in range', 'bounds')
                out.append((i, 1, None))
            else:
                raise Unsupported('index of a sparse matrix')
        return out

    def vc_getitem(self, M, k):
        (r, rs, rn), (c, cs, cn) = self.region(M, k)
        at = lambda s, st, i: T.add(s, T.mul(st, i)) if st != 1 else T.add(s, i)
        if rn is None and cn is None:
            return self.el(r, c)
        e = self.el
        if rn is not None and cn is not None and self.bands is not None and rs == 1 and cs == 1:
            return Sp(self.ctx, (rn, cn), [(T.sub(T.add(o, r), c), (lambda g: lambda i: g(T.add(i, r)))(g)) for o, g in self.bands], arr=self.arr)
        return Sp(self.ctx, (1 if rn is None else rn, 1 if cn is None else cn), el=lambda i, j: e(at(r, rs, i), at(c, cs, j)), arr=self.arr)

    def vc_setitem(self, M, k, v):
        (r, rs, rn), (c, cs, cn) = self.region(M, k)
        if rs != 1 or cs != 1:
            raise Unsupported('assignment to a strided part of a sparse matrix')
        rl, cl = 1 if rn is None else rn, 1 if cn is None else cn
        old = self.el if self._el is None else self._el
        if self._el is None:
            b = list(self.bands)
            o_ = Sp(self.ctx, self.shape, b)
            old = o_.el
        if isinstance(v, Sp):
            sh, val = v.shape, v.el
        elif isinstance(v, Arr):
            s = v.snap()
            sh = v.shape if v.ndim == 2 else (1,) + v.shape
            val = s if v.ndim == 2 else lambda i, j: s(j)
        elif T.is_scalar(v):
            sh, val = (rl, cl), lambda i, j: T.to_real(v)
        else:
            raise Unsupported('assignment to a sparse matrix')
        for x, y in zip(sh, (rl, cl)):
            self.ctx.oblige(T.eq(x, y), 'shape assigned to a part of a sparse matrix', 'call')
        ins = lambda i, j: T.land(T.le(r, i), T.lt(i, T.add(r, rl)), T.le(c, j), T.lt(j, T.add(c, cl)))
        before = (self.bands, self._el)

        def undo():
            self.bands, self._el = before
        self.ctx.log(('list', id(self)), undo)
        self.bands = None

        def el(i, j):
            w = ins(i, j)
            if w is False:
                return old(i, j)
            return T.ite(w, T.to_real(val(T.sub(i, r), T.sub(j, c))), old(i, j))
        self._el = el


def slice_of(ctx, s, n):
    """(start, step, length) of a slice of an axis of length n"""
    step = 1 if s.step is None else s.step
    if T.isz3(step) or step not in (1, -1):
        raise Unsupported('step of a slice')
    norm = lambda v, d: d if v is None else T.minv(T.maxv(T.add(v, n), 0), n) if not T.isz3(v) and v < 0 else T.minv(v, n)
    if step == -1:
        if s.start is not None or s.stop is not None:
            raise Unsupported('reversed part')
        return T.sub(n, 1), -1, n
    a, b = norm(s.start, 0), norm(s.stop, n)
    a, b = simp(ctx, a), simp(ctx, b)
    ln = T.sub(b, a)
    if not (not T.isz3(ln) and ln >= 0) and not ctx.prove(T.ge(ln, 0)):
        ln = T.maxv(ln, 0)
    return a, 1, ln


def simp(ctx, v):
    """a minimum or maximum whose outcome is known"""
    import z3
    if not T.isz3(v):
        return v
    if z3.is_app(v) and v.decl().kind() == z3.Z3_OP_ITE:
        c, x, y = v.children()
        if ctx.prove(c):
            return simp(ctx, x)
        if ctx.prove(z3.Not(c)):
            return simp(ctx, y)
    return v


def bands_of(M, data, offs, m, n, first):
    """first: data[k, i] belongs to row i of a superdiagonal (diags), else to column j (spdiags)"""
    ctx = M.ctx
    out = []
    for g, L, off in zip(data, [None] * len(data), offs):
        out.append((off, g))
    return Sp(ctx, (m, n), out)


@lib('scipy.sparse.spdiags')
def spdiags(M, data, diags, m=None, n=None, format=None):
    ctx = M.ctx
    note(ctx, 'spdiags(data, d, m, n) has data[k, j] at (j - d[k], j) and zeros elsewhere')
    data, diags = M.arr(data), M.arr(diags)
    d = data.snap()
    K, L = (1, data.shape[0]) if data.ndim == 1 else data.shape
    row = (lambda k, j: d(j)) if data.ndim == 1 else d
    offs = [diags.elem()] if diags.ndim == 0 else None
    if offs is None:
        kk = diags.shape[0]
        if T.isz3(kk):
            return many(M, row, diags, K, L, kk, m, n)
        offs = [diags.elem(q) for q in range(kk)]
    ctx.oblige(T.eq(K, len(offs)), 'one row of data per diagonal', 'call')
    for a in range(len(offs)):
        for b in range(a):
            ctx.oblige(T.ne(offs[a], offs[b]), 'diagonals are distinct', 'call')
    out = []
    for k, off in enumerate(offs):
        def g(i, k=k, off=off):
            j = T.add(i, off)
            ok = T.land(T.le(0, j), T.lt(j, L))
            return T.to_real(T.ite(ok, T.to_real(row(k, T.ite(ok, j, 0))), T.to_real(0)))
        out.append((off, g))
    return Sp(ctx, (m, n), out)


def many(M, row, diags, K, L, kk, m, n):
    """any number of diagonals: pos(off) is the place of the diagonal with this offset, -1 when there is none"""
    ctx = M.ctx
    ctx.oblige(T.eq(K, kk), 'one row of data per diagonal', 'call')
    o = diags.snap()
    a, b = ctx.fresh('q', 'int'), ctx.fresh('q', 'int')
    ctx.oblige(T.implies(T.land(T.le(0, a), T.lt(a, b), T.lt(b, kk)), T.ne(o(a), o(b))), 'diagonals are distinct', 'call')
    ctx.counter += 1
    pos = ctx.func('pos!%d' % ctx.counter, 'i', 'i')
    k3 = T.to_z3(kk)
    sup = list(ctx.__dict__.get('supports', ()))

    def ax(args):
        off, = args
        p = pos(off)
        cand = []
        for s in sup:
            for q in (s.R(off), s.R(-off)):
                cand.append(q)
                for u in sup:
                    cand += [q + u.cnt, u.R(q), u.R(q) + s.cnt, u.R(q) + u.cnt]
        none = [z3.Not(z3.And(c >= 0, c < k3, T.to_z3(T.eq(o(c), off)))) for c in cand]
        return [z3.Or(z3.And(p >= 0, p < k3, T.to_z3(T.eq(o(p), off))), z3.And(p == -1, *none))]
    ctx.schema(pos, ax)

    def el(i, j):
        p = pos(T.to_z3(T.sub(j, i)))
        ok = T.land(T.ge(p, 0), T.lt(j, L))
        return T.ite(ok, T.to_real(row(T.ite(ok, p, 0), T.ite(ok, j, 0))), T.to_real(0))
    return Sp(ctx, (m, n), el=el)


@lib('scipy.sparse.diags')
def diags(M, diagonals, offsets=0, shape=None, format=None, dtype=None):
    """a family of diagonals sharing one array, or a list of arrays"""
    ctx = M.ctx
    note(ctx, 'diags(ds, offsets) has ds[k][i] at (i, i + offsets[k]) for offsets >= 0, square of the size of the first diagonal plus its offset')
    offs = M.arr(offsets)
    if isinstance(diagonals, Repeated):
        g, cnt, L = diagonals.g, diagonals.n, diagonals.size
        ctx.oblige(T.eq(cnt, offs.shape[0]), 'one diagonal per offset', 'call')
        o = offs.snap()
        ctx.oblige(T.gt(cnt, 0), 'some diagonal', 'call')
        N = T.add(L, T.absv(o(0)))
        # offsets must be an arithmetic progression 0, s, 2 s, ...
        q = ctx.fresh('q', 'int')
        s = diagonals.step(o)
        ctx.oblige(T.implies(T.land(T.le(0, q), T.lt(q, cnt)), T.eq(o(q), T.mul(s, q))), 'offsets 0, s, 2 s, ...', 'call')

        def el(i, j):
            k = T.sub(j, i)
            return T.ite(T.land(T.ge(k, 0), T.eq(T.mod(k, s), 0), T.lt(T.floordiv(k, s), cnt)), T.to_real(g(i)), T.to_real(0))
        return Sp(ctx, (N, N), el=el)
    raise Unsupported('diags')


class Repeated:
    """[d] * n for a symbolic n"""

    def __init__(self, arr, n):
        s = arr.snap()
        self.g, self.n, self.size = s, n, arr.shape[0]

    def step(self, o):
        return T.fold(T.sub(o(1), o(0)))


@lib('scipy.sparse.eye', 'scipy.sparse.identity', 'scipy.sparse.eye_array')
def eye(M, m, n=None, k=0, dtype=None, format=None):
    n = m if n is None else n
    note(M.ctx, 'eye(n) is the identity')
    return Sp(M.ctx, (m, n), [(k, lambda i: T.to_real(1))])


def fresh(arr):
    def f(M, x, shape=None, dtype=None, copy=False):
        if isinstance(x, Sp):
            return Sp(M.ctx, x.shape, x.bands, x._el, arr)
        if isinstance(x, tuple) and len(x) == 2 and all(T.is_scalar(v) for v in x):
            return Sp(M.ctx, x, [], arr=arr)
        if isinstance(x, (Arr, list)):
            x = M.arr(x)
            s = x.snap()
            return Sp(M.ctx, x.shape if x.ndim == 2 else (1,) + x.shape, el=s if x.ndim == 2 else lambda i, j: s(j), arr=arr)
        raise Unsupported('construction of a sparse matrix')
    return f


for _f in ('csr', 'csc', 'lil', 'dia', 'coo'):
    lib('scipy.sparse.%s_matrix' % _f)(fresh(False))
    lib('scipy.sparse.%s_array' % _f)(fresh(True))


@lib('scipy.sparse.issparse', 'scipy.sparse.isspmatrix')
def issparse(M, x):
    return isinstance(x, Sp)


@lib('scipy.linalg.toeplitz')
def toeplitz(M, c, r=None):
    c = M.arr(c)
    r = c if r is None else M.arr(r)
    note(M.ctx, 'scipy.linalg.toeplitz(c, r) has c[i - j] on and below, r[j - i] above the diagonal')

    def flat(a):
        s = a.snap()
        if a.ndim == 1:
            return s, a.shape[0]
        if a.ndim == 2 and a.shape[1] == 1:
            return (lambda i: s(i, 0)), a.shape[0]
        raise Unsupported('toeplitz of a matrix')
    (f, n), (g, m) = flat(c), flat(r)
    return A.new(M.ctx, (n, m), lambda i, j: T.ite(T.ge(i, j), f(T.ite(T.ge(i, j), T.sub(i, j), 0)), g(T.ite(T.ge(i, j), 0, T.sub(j, i)))), 'f')
