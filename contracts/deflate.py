"""Deflation (C17): factor, derivative, rank-one updates"""
from .lib import *
from pyvc.interp import PyClass, Native
from pyvc.symdict import SymSeq
from .factor import meth

NW = 'funpy.newton.'
DF = NW + 'deflation.'

CHAIN = ('derivative of the factor: d/du prod_k (shift + |u - u_k|^-p) applied to v is the H1 inner product of v with '
         '-p eta sum_k (u - u_k) / ((shift + |u - u_k|^-p) |u - u_k|^(p+2)) (chain and product rule, not proved here)')


def rpow(ctx):
    f = ctx.func('rpow', 'ff', 'f')
    return lambda a, b: f(T.to_z3(T.to_real(a)), T.to_z3(T.to_real(b)))


class Known:
    """any number of known solutions in a vector space (coordinates of any number), with positive distances to u"""

    def __init__(self, V):
        ctx = self.ctx = V.ctx
        self.V = V
        self.n, self.L = V.int('N', 1), V.int('known', 0)
        ks, nr = ctx.func('ks', 'ii', 'f'), ctx.func('distance', 'i', 'f')
        self.ks = lambda k, i: ks(T.to_z3(k), T.to_z3(i))
        self.nr = lambda k: nr(T.to_z3(k))
        ctx.schema(nr, lambda a: [nr(a[0]) > 0])
        self.u = V.arr('u', (self.n,), 'f')
        self.us = self.u.snap()
        self.cur = None
        self.shift, self.power = V.real('shift', F0), V.real('power', Fraction(1, 100))
        self.rp = rpow(ctx)

        def item(k):
            self.cur = k
            return A.new(ctx, (self.n,), lambda i: self.ks(k, i), 'f')
        self.seq = SymSeq(ctx, self.L, item)

        def norm(I, f, *a, **kw):
            if kw or a:
                raise Unsupported('another norm')
            q = ctx.fresh('q', 'int')
            ctx.oblige(isinstance(f, Arr) and f.ndim == 1, 'distance of two functions', 'call')
            d = f.elem(q)
            k = self.cur
            w = self.diff(k, q)
            ok = T.implies(T.land(T.le(0, q), T.lt(q, self.n)), T.lor(T.eq(d, w)))
            neg = T.implies(T.land(T.le(0, q), T.lt(q, self.n)), T.lor(T.eq(d, T.neg(w))))
            if not ctx.prove(ok):
                if ctx.prove(neg):
                    return self.nr(k)
                ctx.oblige(ok, 'norm of the distance to the known solution', 'call')
            return self.nr(k)
        V.stub('funpy.fun.h1norm', norm)

    def diff(self, k, i):
        return T.sub(self.us(i), self.ks(k, i))

    def factor(self, k, shift, power):
        return T.add(shift, T.div(F1, self.rp(self.nr(k), power)))

    def eta(self, n, shift, power):
        return self.ctx.prod(n, lambda k: self.factor(k, shift, power))


@contract(DF + 'deflation', 'C17')
def deflation(V):
    """prod_k (shift + 1 / distance_k^power), one when nothing is known"""
    ctx = V.ctx
    K = Known(V)
    z = V.freeze(K.u)
    r = V.call(DF + 'deflation', K.u, K.seq, K.shift, K.power)
    if not T.is_scalar(r):
        V.ensure('a number', False)
        return
    V.ensure('factor', T.eq(r, K.eta(K.L, K.shift, K.power)))
    V.ensure('one when nothing is known', T.implies(T.eq(K.L, 0), T.eq(r, 1)))
    V.ensure_frozen('function', z)


@contract(DF + 'deflation#defaults', 'C17')
def deflation_defaults(V):
    """shift one and squared distance"""
    K = Known(V)
    r = V.call(DF + 'deflation', K.u, K.seq)
    if not T.is_scalar(r):
        V.ensure('a number', False)
        return
    K.rp = lambda a, b: T.mul(a, a)
    V.ensure('factor', T.eq(r, K.eta(K.L, F1, 2)))


def defl_inv(I, fr, st, o, loops):
    ctx = I.ctx
    K = ctx.known
    mem = {}

    def inv(env):
        if 'eta' not in mem:
            s = [x for x, w in env.fr.vars.items() if T.is_scalar(w) and not T.isz3(w) and not isinstance(w, bool) and not T.is_int(w) and w == 1]
            if len(s) != 1:
                raise Unsupported('the factor')
            mem['eta'] = s[0]
        gs = [v for _, v in env.arrays() if v.whole and v.ndim == 1]
        if len(gs) != 1:
            raise Unsupported('the sum of the differences')
        sh, p = ctx.par
        return [('factor', T.eq(env.fr.vars[mem['eta']], K.eta(env.k, sh, p))),
                ('sum', lambda i: T.eq(gs[0].elem(i), grad(K, env.k, i, sh, p)), K.n)]
    return inv


def grad(K, n, i, sh, p):
    """sum_{k<n} (u - u_k)_i / (factor_k distance_k^(2+p))"""
    return K.ctx.Sum(0, T.sub(n, 1), lambda k: T.div(K.diff(k, i), T.mul(K.factor(k, sh, p), K.rp(K.nr(k), T.add(2, p)))))


@contract(DF + 'deflation_linearization', 'C17', inv={DF + 'deflation_linearization': defl_inv})
def linearization(V):
    """the factor and the functional of its derivative, nothing to differentiate when nothing is known"""
    ctx = V.ctx
    assumed(ctx, CHAIN)
    K = ctx.known = Known(V)
    sh, p = ctx.par = (K.shift, K.power)
    basis = V.choose('coeff', 'trigspec')
    z = V.freeze(K.u)
    made = []

    def functional(I, f, *a, **kw):
        ctx.oblige(not a and kw == {'order': 1, 'basis': basis}, 'H1 functional in the basis of the discretisation', 'call')
        ctx.oblige(isinstance(f, Arr) and f.ndim == 1, 'function', 'call')
        o = Obj(PyClass('FunctionalGhost', [], {}, None))
        made.append((o, f.snap(), f.shape))
        return o
    V.stub('funpy.support.Functional.Functional', functional)
    r = V.call(DF + 'deflation_linearization', K.u, K.seq, sh, p, basis)
    if not (isinstance(r, tuple) and len(r) == 2):
        V.ensure('factor and functional', False)
        return
    eta, d = r
    V.ensure('factor', T.eq(eta, K.eta(K.L, sh, p)))
    V.ensure('functional exactly when something is known', T.eq(T.gt(K.L, 0), d is not None))
    V.ensure_frozen('function', z)
    if d is None:
        return
    V.ensure('functional of the derivative', len(made) == 1 and d is made[0][0])
    _, f, shp = made[0]
    V.ensure('same space', T.eq(shp[0], K.n))
    i = V.ctx.fresh('i', 'int')
    V.assume(z3.And(i >= 0, i < T.to_z3(K.n)))
    V.ensure('derivative', T.eq(f(i), T.mul(T.mul(T.neg(p), K.eta(K.L, sh, p)), grad(K, K.L, i, sh, p))))


# ------------------------------------------------------------------ operator and correction
class Space:
    """a square matrix, an exact solver for it and a linear functional"""

    def __init__(self, V):
        ctx = self.ctx = V.ctx
        self.V, self.n = V, V.int('n', 1)
        self.a, self.d = ctx.func('A', 'ii', 'f'), ctx.func('d', 'i', 'f')
        self.log = []
        self.mat = Obj(PyClass('Matrix', [], {'dot': meth('dot', lambda o, x: self.apply(x)), '_mul_vector': meth('_mul_vector', lambda o, x: self.apply(x)),
                                              '__matmul__': meth('__matmul__', lambda o, x: self.apply(x))}, None))
        self.lu = Obj(PyClass('SuperLU', [], {'solve': meth('solve', lambda o, x: self.solve(x))}, None))
        for o in (self.mat, self.lu):
            o.fields['shape'] = (self.n, self.n)
        self.fun = Native('functional', self.functional)
        self.b, self.x = V.arr('b', (self.n,), 'f'), V.arr('x', (self.n,), 'f')

    def sized(self, x):
        ctx = self.ctx
        if not (isinstance(x, Arr) and x.ndim == 1):
            raise Unsupported('a vector')
        ctx.oblige(T.eq(x.shape[0], self.n), 'size of the vector', 'call')
        return x.snap()

    def times(self, i, s):
        return self.ctx.Sum(0, T.sub(self.n, 1), lambda l: T.mul(self.a(T.to_z3(i), T.to_z3(l)), s(l)))

    def dot(self, s):
        return self.ctx.Sum(0, T.sub(self.n, 1), lambda l: T.mul(self.d(T.to_z3(l)), s(l)))

    def apply(self, x):
        s = self.sized(x)
        return A.new(self.ctx, (self.n,), lambda i: self.times(i, s), 'f')

    def solve(self, x):
        ctx, s = self.ctx, self.sized(x)
        ctx.counter += 1
        f = ctx.func('solution!%d' % ctx.counter, 'i', 'f')
        g = lambda i: f(T.to_z3(i))
        self.log.append((g, s))
        return A.new(ctx, (self.n,), g, 'f')

    def row(self, i):
        return T.land(*[T.eq(self.times(i, g), s(i)) for g, s in self.log])

    def functional(self, x):
        return self.dot(self.sized(x))




@contract(NW + 'FrechetDeflated.FrechetDeflated', 'C17')
def frechet(V):
    """eta A x + b d(x); A x when nothing is known"""
    ctx = V.ctx
    S = Space(V)
    eta = V.real('eta', Fraction(1, 1000))
    known = V.choose(True, False)
    cls = V.get(NW + 'FrechetDeflated.FrechetDeflated')
    zb, zx, xs, bs = V.freeze(S.b), V.freeze(S.x), S.x.snap(), S.b.snap()
    o = V.call(cls, S.mat, eta=eta, b=S.b, deta=S.fun) if known else V.call(cls, S.mat)
    y = V.method(o, '_matvec', S.x)
    if known:
        V.ensure_array('deflated operator', y, (S.n,), lambda i: T.add(T.mul(eta, S.times(i, xs)), T.mul(bs(i), S.dot(xs))))
    else:
        V.ensure_array('operator', y, (S.n,), lambda i: S.times(i, xs))
        V.ensure('matrix when nothing is known', V.method(o, 'to_matrix') is S.mat)
    V.ensure_frozen('residual', zb)
    V.ensure_frozen('vector', zx)


@contract(NW + 'FrechetDeflatedPrecond.FrechetDeflatedPrecond', 'C17')
def precond(V):
    """the solution of (eta A + b d) y = x from solves with A (exact solver), A y = x when nothing is known"""
    ctx = V.ctx
    S = Space(V)
    eta = V.real('eta')
    V.assume(T.ne(eta, 0))
    known = V.choose(True, False)
    cls = V.get(NW + 'FrechetDeflatedPrecond.FrechetDeflatedPrecond')
    zb, zx, xs, bs = V.freeze(S.b), V.freeze(S.x), S.x.snap(), S.b.snap()
    o = V.call(cls, S.lu, S.b, ks=V.int('ks', 1), functional=S.fun, eta=eta) if known else V.call(cls, S.lu, S.b)
    y = V.method(o, '_matvec', S.x)
    if not isinstance(y, Arr) or y.ndim != 1:
        V.ensure('a vector', False)
        return
    V.ensure('size', T.eq(y.shape[0], S.n))
    ys = y.snap()
    i = V.ctx.fresh('i', 'int')
    V.assume(z3.And(i >= 0, i < T.to_z3(S.n)))
    V.assume(S.row(i))
    if known:
        # the deflated matrix is nonsingular: eta + d(A^-1 b) != 0
        fb = [g for g, s in S.log if s is bs or same_vec(V, s, bs, S.n)]
        if not fb:
            V.ensure('a solve with the residual', False)
            return
        V.assume(T.ne(T.add(eta, S.dot(fb[0])), 0))
        V.ensure('solution of the deflated problem', T.eq(T.add(T.mul(eta, S.times(i, ys)), T.mul(bs(i), S.dot(ys))), xs(i)))
    else:
        V.ensure('solution', T.eq(S.times(i, ys), xs(i)))
    V.ensure_frozen('residual', zb)
    V.ensure_frozen('vector', zx)


def same_vec(V, s, t, n):
    i = V.ctx.fresh('i', 'int')
    return V.ctx.prove(T.implies(T.land(T.le(0, i), T.lt(i, n)), T.eq(s(i), t(i))))
