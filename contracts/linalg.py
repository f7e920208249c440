"""Bordered linear systems (C12): matrices, borders and right-hand sides of any size, exact inner solvers."""
from .lib import *
from pyvc.interp import PyClass, Native

BE = 'funpy.linalg.bem_solve.BEM'


def meth(name, f):
    n = Native(name, f)
    n.method = True
    return n


def one_d(ctx, v, n):
    if not isinstance(v, Arr) or v.ndim != 1:
        ctx.oblige(False, 'a vector is solved for', 'call')
        raise PathDone()
    ctx.oblige(T.eq(v.shape[0], n), 'as many entries as the matrix has rows', 'call')


class Inner:
    """an inner solver exact for the n x n matrix A and its transpose: A solve(v) = v, A^T solve_adj(v) = v; the solver of a singular
    matrix gives the null vectors (A phi = 0, A^T psi = 0) and solutions for right-hand sides orthogonal to them"""

    def __init__(self, V, n, singular=False):
        ctx = self.ctx = V.ctx
        self.V, self.n, self.singular = V, n, singular
        self.A = ctx.func('A', 'ii', 'f')
        self.log = []               # (kind, solution, right-hand side)
        if singular:
            self.phi, self.psi = V.arr('phi', (n,), 'f'), V.arr('psi', (n,), 'f')
            self.sphi, self.spsi = self.phi.snap(), self.psi.snap()
        self.obj = Obj(PyClass('Solver', [], {
            'solve': meth('solve', lambda o, v: self.solve(v, False)), 'solve_adj': meth('solve_adj', lambda o, v: self.solve(v, True)),
            'particular': meth('particular', lambda o, v: self.solve(v, False, True)),
            'particular_adj': meth('particular_adj', lambda o, v: self.solve(v, True, True)),
            'null': meth('null', lambda o: (self.phi, self.psi)), 'det': meth('det', lambda o: ctx.func('det', 'i', 'f')(T.to_z3(n)))}, None))
        self.obj.fields.update(shape=(n, n), is_singular=singular)

    def dot(self, x, y):
        return self.ctx.Sum(0, T.sub(self.n, 1), lambda l: T.mul(x(l), y(l)))

    def a(self, i, l, adj=False):
        i, l = T.to_z3(i), T.to_z3(l)
        return self.A(l, i) if adj else self.A(i, l)

    def times(self, i, x, adj=False):
        """row i of A x or A^T x"""
        return self.ctx.Sum(0, T.sub(self.n, 1), lambda l: T.mul(self.a(i, l, adj), x(l)))

    def solve(self, v, adj, particular=False):
        ctx, n = self.ctx, self.n
        one_d(ctx, v, n)
        ctx.oblige(particular == self.singular, 'particular solutions exactly for a singular matrix', 'call')
        s = v.snap()
        if particular:
            ctx.oblige(T.eq(self.dot(self.sphi if adj else self.spsi, s), 0), 'right-hand side in the range', 'call')
        else:
            for kind, f, w in self.log:
                if kind == adj and self.same(s, w):
                    return A.new(ctx, (n,), f, 'f')
        ctx.counter += 1
        f = ctx.func('sol!%d' % ctx.counter, 'i', 'f')
        g = lambda i: f(T.to_z3(i))
        self.log.append((adj, g, s))
        return A.new(ctx, (n,), g, 'f')

    def same(self, s, w):
        i = self.ctx.fresh('i', 'int')
        return self.ctx.prove(T.implies(T.land(T.ge(i, 0), T.lt(i, self.n)), T.eq(s(i), w(i))))

    def row(self, i):
        """what is known of row i of the products with A and A^T"""
        out = []
        for adj, x, v in self.log:
            out.append(T.eq(self.times(i, x, adj), v(i)))
        if self.singular:
            out += [T.eq(self.times(i, self.sphi), 0), T.eq(self.times(i, self.spsi, True), 0)]
        return T.land(*out)

    def nonsingular(self, b, c, d):
        """the bordered matrix is nonsingular: nonzero Schur complement d - b A^-1 c, or borders not orthogonal to the null vectors"""
        if self.singular:
            return T.land(T.ne(self.dot(b, self.sphi), 0), T.ne(self.dot(c, self.spsi), 0))
        out = []
        for adj, x, v in self.log:
            if self.same(v, b if adj else c):
                out.append(T.ne(T.sub(d, self.dot(c if adj else b, x)), 0))
        return T.land(True, *out)


class Bordered:
    """an arbitrary bordered matrix and the object of the real constructor"""

    def __init__(self, V, singular=None):
        self.V = V
        self.singular = V.choose(False, True) if singular is None else singular
        n = self.n = V.int('n', 1)
        self.inner = Inner(V, n, self.singular)
        self.b, self.c, self.d = V.arr('b', (n,), 'f'), V.arr('c', (n,), 'f'), V.real('d')
        self.fz = [('row', V.freeze(self.b)), ('column', V.freeze(self.c))]
        self.obj = V.call(BE, self.inner.obj, self.b, self.c, self.d)
        self.transversal()

    def transversal(self):
        if self.singular:
            self.V.assume(self.inner.nonsingular(self.b.snap(), self.c.snap(), self.d))

    def update(self, kind):
        V, n = self.V, self.n
        d = self.d = V.real('d.' + kind)
        v = V.arr('new ' + kind, (n,), 'f')
        self.fz.append(('new ' + kind, V.freeze(v)))
        if kind == 'row':
            self.b = v
        else:
            self.c = v
        V.method(self.obj, 'update_row' if kind == 'row' else 'update_col', v, d)
        self.transversal()

    def rhs(self, name='f'):
        f = self.V.arr(name, (T.add(self.n, 1),), 'f')
        self.fz.append(('right-hand side', self.V.freeze(f)))
        return f

    def ensure_solution(self, r, f, adj=False, name='', bottom=True):
        """(A c; b d) r = f, row by row"""
        V, n = self.V, self.n
        b, c = (self.c, self.b) if adj else (self.b, self.c)
        b, c = b.snap(), c.snap()
        V.assume(self.inner.nonsingular(self.b.snap(), self.c.snap(), self.d))
        V.ensure_shape(name + 'shape', r, (T.add(n, 1),))
        x = r.snap()
        i = V.ctx.fresh('i', 'int')
        V.assume(T.land(T.ge(i, 0), T.lt(i, n)))
        V.assume(self.inner.row(i))
        V.ensure(name + 'first block row', T.eq(T.add(self.inner.times(i, x, adj), T.mul(c(i), x(n))), f(i)))
        if bottom:
            V.ensure(name + 'last row', T.eq(T.add(self.inner.dot(b, x), T.mul(self.d, x(n))), f(n)))

    def frozen(self):
        for nm, fz in self.fz:
            self.V.ensure_frozen(nm, fz)


@contract(BE + '.solve', 'C12')
def bem_solve(V):
    """both block rows hold for the matrix, borders and right-hand side given, for singular and nonsingular A; nothing given is changed"""
    B = Bordered(V)
    f = B.rhs()
    s = f.snap()
    B.ensure_solution(V.method(B.obj, 'solve', f), s)
    B.frozen()


@contract(BE + '.solve_adj', 'C12')
def bem_solve_adj(V):
    """the same for the transposed system"""
    B = Bordered(V)
    f = B.rhs()
    s = f.snap()
    B.ensure_solution(V.method(B.obj, 'solve_adj', f), s, adj=True)
    B.frozen()


def padded(V, B, name):
    """(f, 0) and (0, 1)"""
    n = B.n
    f = V.arr('g', (n,), 'f')
    B.fz.append(('right-hand side', V.freeze(f)))
    s = f.snap()
    return f, lambda i: T.ite(T.lt(i, n), s(i), F0)


@contract(BE + '.solve_zero', 'C12')
def bem_solve_zero(V):
    """right-hand side (f, 0)"""
    B = Bordered(V)
    f, g = padded(V, B, 'f')
    B.ensure_solution(V.method(B.obj, 'solve_zero', f), g)
    B.frozen()


def null_spec(adj):
    def spec(V):
        """right-hand side (0, 1); for singular A a nonzero multiple: the null space of the first block row"""
        B = Bordered(V)
        n = B.n
        unit = lambda i: T.ite(T.lt(i, n), F0, F1)
        r = V.method(B.obj, 'solve_null_adj' if adj else 'solve_null')
        B.ensure_solution(r, unit, adj=adj, bottom=not B.singular)
        if B.singular:
            b = (B.c if adj else B.b).snap()
            x = r.snap()
            V.ensure('last entry not zero', T.ne(T.add(B.inner.dot(b, x), T.mul(B.d, x(n))), 0))
        B.frozen()
    spec.__doc__ = spec.__doc__ or 'null vector of the first block row'
    return spec


contract(BE + '.solve_null', 'C12')(null_spec(False))
contract(BE + '.solve_null_adj', 'C12')(null_spec(True))


@contract(BE + '.min_norm', 'C12', uses=(BE + '.solve_zero', BE + '.solve_null'))
def bem_min_norm(V):
    """solves the first block row and is orthogonal to its null vector: the solution of smallest norm"""
    ctx = V.ctx
    n = V.int('n', 1)
    inner = Inner(V, n)
    c, f = V.arr('c', (n,), 'f'), V.arr('f', (n,), 'f')
    fz = V.freeze(f)
    N = T.add(n, 1)
    x, t = V.arr('x', (N,), 'f'), V.arr('t', (N,), 'f')
    xs, ts, fs, cs = x.snap(), t.snap(), f.snap(), c.snap()
    o = V.new(BE, solver=inner.obj, c=c)

    def zero(I, s, g):
        ctx.oblige(isinstance(g, Arr) and g.ndim == 1, 'a vector', 'call')
        V.ensure_all('right-hand side', (n,), lambda i: T.eq(g.elem(i), fs(i)))
        return x
    V.stub(BE + '.solve_zero', zero, BE + '.solve_zero')
    V.stub(BE + '.solve_null', lambda I, s: t, BE + '.solve_null')
    r = V.method(o, 'min_norm', f)
    V.ensure_shape('shape', r, (N,))
    y = r.snap()
    dot = lambda u, v: ctx.Sum(0, n, lambda l: T.mul(u(l), v(l)))
    V.assume(T.gt(dot(ts, ts), 0))
    V.ensure('orthogonal to the null vector', T.eq(dot(y, ts), 0))
    i = V.int('i', 0)
    V.assume(T.lt(i, n))
    row = lambda u, j: T.add(inner.times(j, u), T.mul(cs(j), u(n)))
    V.assume(T.land(T.eq(row(xs, i), fs(i)), T.eq(row(ts, i), 0)))
    V.ensure('first block row', T.eq(row(y, i), fs(i)))
    V.ensure_frozen('right-hand side', fz)


def same_state(V, a, b):
    """the two objects hold the same borders and the same preprocessed data"""
    for k in sorted(set(a.fields) | set(b.fields)):
        u, v = a.fields.get(k), b.fields.get(k)
        if isinstance(u, Arr) and isinstance(v, Arr):
            V.ensure_array(k, u, v.shape, v.snap())
        elif T.is_scalar(u) and T.is_scalar(v):
            V.ensure(k, T.eq(u, v))
        else:
            V.ensure(k, u is v)


@contract(BE + '.update_row', 'C12')
def bem_update_row(V):
    """afterwards the state is the one of an object made with the new borders (hence also after any history of changes)"""
    B = Bordered(V)
    B.update(V.choose('row'))
    same_state(V, B.obj, V.call(BE, B.inner.obj, B.b, B.c, B.d))
    B.frozen()


@contract(BE + '.update_col', 'C12')
def bem_update_col(V):
    """afterwards the state is the one of an object made with the new borders (hence also after any history of changes)"""
    B = Bordered(V)
    B.update(V.choose('column'))
    same_state(V, B.obj, V.call(BE, B.inner.obj, B.b, B.c, B.d))
    B.frozen()


@contract(BE + '.det', 'C12')
def bem_det(V):
    """det A times the Schur complement d - b A^-1 c"""
    B = Bordered(V, False)
    r = V.method(B.obj, 'det')
    x = [x for adj, x, v in B.inner.log if not adj and B.inner.same(v, B.c.snap())]
    V.ensure('solved for the column', bool(x))
    b = B.b.snap()
    V.ensure('determinant', T.eq(r, T.mul(V.ctx.func('det', 'i', 'f')(T.to_z3(B.n)), T.sub(B.d, B.inner.dot(b, x[0])))))
