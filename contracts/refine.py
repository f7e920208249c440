from .lib import *
from . import cheb  # noqa: F401

RF = 'funpy.cheb.refine.'
PT = 'funpy.cheb.pts.'


def grid(ctx):
    """P(i, n): i-th of n Chebyshev points; the points of the coarse grid are every second one of the fine grid"""
    P = ctx.func('gridpt', 'ii', 'f')
    if 'gridpt' not in ctx.schemas:
        def ax(a):
            i, n = a
            h = (n + 1) / 2
            return [z3.Implies(z3.And(i % 2 == 0, n % 2 == 1, n >= 3), P(i, n) == P(i / 2, h))]
        ctx.schema(P, ax)
    return lambda i, n: P(T.to_z3(i), T.to_z3(n))


def grid_stub(V):
    P = grid(V.ctx)
    V.stub(PT + 'chebpts_type2_compute', lambda I, n: A.new(I.ctx, (n,), lambda i: P(i, n), 'f'), PT + 'chebpts_type2_compute#nested')
    return P


@contract(PT + 'chebpts_type2_compute#nested', ('C05', 'C19'))
def nested(V):
    """the i-th of n points is the 2i-th of 2n - 1 points, for every n >= 2"""
    n = V.int('n', 2)
    x = V.call(PT + 'chebpts_type2_compute', n)
    y = V.call(PT + 'chebpts_type2_compute', T.sub(T.mul(2, n), 1))
    V.ensure_shape('number of points', x, (n,))
    V.ensure_shape('number of points of the fine grid', y, (T.sub(T.mul(2, n), 1),))
    V.ensure_all('nested', (n,), lambda i: T.eq(x.elem(i), y.elem(T.mul(2, i))))


def callable_(V, m, calls):
    """a user function: values depend on the point and the column only"""
    F = V.ctx.func('F', 'fi', 'f')
    flat = V.choose(False, True) if not T.isz3(m) and m == 1 else False

    def op(I, x):
        calls.append(x)
        xs = x.snap()
        f = lambda i, j: F(T.to_z3(T.to_real(xs(i))), T.to_z3(j))
        if flat:
            return A.new(V.ctx, x.shape, lambda i: f(i, 0), 'f')
        return A.new(V.ctx, (x.shape[0], m), f, 'f')
    return SymFun('op', op), lambda x, j: F(T.to_z3(x), T.to_z3(j))


def target(V):
    t, c, n, m = tech(V, 't')
    return t


@contract(RF + 'Refine.__call__#first', 'C05')
def first(V):
    """the first refinement: samples of the callable at the points of a grid that has at least the requested number of points
    and at most the maximum length"""
    P = grid_stub(V)
    m = V.choose(1, 'many')
    m = V.int('m', 2) if m == 'many' else 1
    calls = []
    op, F = callable_(V, m, calls)
    mn = V.int('minSamples', 1)
    strat = V.choose('nested', 'resample')
    r = V.call(RF + 'Refine', op=op, minSamples=mn, strategy=strat)
    t = target(V)
    t.fields['coeffs'] = A.new(V.ctx, (0, 0), lambda i, j: F0, 'f')
    ml = V.attr(t, 'maxLength')
    out = V.call(r, t)
    V.ensure('returns (values, giveUp)', isinstance(out, tuple) and len(out) == 2)
    v, give = out
    N = v.shape[0]
    V.ensure('does not give up', T.lnot(give) if T.kind(give) == 'b' else T.eq(give, 0))
    V.ensure('at most the maximum length', T.le(N, ml))
    V.ensure('at least the requested samples, or the maximum length', T.lor(T.ge(N, mn), T.eq(N, ml)))
    V.ensure('at least two points', T.ge(N, 2))
    V.ensure_array('samples at the grid points', v, (N, m), lambda i, j: F(P(i, N), j))
    V.ensure_array('samples are kept', V.attr(r, 'values'), (N, m), lambda i, j: F(P(i, N), j))


def partial_refine(V, m, op, P, F):
    N = V.int('N', 2)
    vals = A.new(V.ctx, (N, m), lambda i, j: F(P(i, N), j), 'f')
    r = V.call(RF + 'Refine', op=op, strategy='nested')
    r.fields['values'] = vals
    return r, N


@contract(RF + 'Refine.__call__#nested', 'C05')
def nested_step(V):
    """later refinements of the nested strategy: kept samples stay at their points, every entry is a sample of the callable
    at its point, the number of points grows strictly and never exceeds the maximum length; otherwise it gives up unchanged"""
    P = grid_stub(V)
    m = V.choose(1, 'many')
    m = V.int('m', 2) if m == 'many' else 1
    calls = []
    op, F = callable_(V, m, calls)
    r, N = partial_refine(V, m, op, P, F)
    t = target(V)
    ml = V.attr(t, 'maxLength')
    v, give = V.call(r, t)
    give = give if T.kind(give) == 'b' else T.ne(give, 0)
    M = v.shape[0]
    V.ensure('at most the maximum length, or gives up', T.lor(give, T.le(M, ml)))
    V.ensure('strictly more samples, or gives up', T.lor(give, T.gt(M, N)))
    V.ensure('unchanged when giving up', T.implies(give, T.eq(M, N)))
    V.ensure('gives up only when the next grid is too long', T.implies(give, T.gt(T.sub(T.mul(2, N), 1), ml)))
    V.ensure_array('samples at the grid points', v, (M, m), lambda i, j: F(P(i, M), j))
    V.ensure_array('samples are kept', V.attr(r, 'values'), (M, m), lambda i, j: F(P(i, M), j))


@contract(RF + 'Refine.__call__#resample', 'C05')
def resample_step(V):
    """later refinements of the resampling strategy: samples at the points of a strictly longer grid within the maximum length"""
    P = grid_stub(V)
    m = V.int('m', 2)
    calls = []
    op, F = callable_(V, m, calls)
    N = V.int('N', 17)
    r = V.call(RF + 'Refine', op=op, strategy='resample')
    r.fields['values'] = A.new(V.ctx, (N, m), lambda i, j: F(P(i, N), j), 'f')
    t = target(V)
    t.fields['coeffs'] = V.arr('c', (N, m))
    ml = V.attr(t, 'maxLength')
    v, give = V.call(r, t)
    give = give if T.kind(give) == 'b' else T.ne(give, 0)
    M = v.shape[0]
    V.ensure('at most the maximum length, or gives up', T.lor(give, T.le(M, ml)))
    V.ensure('strictly more samples, or gives up', T.lor(give, T.gt(M, N)))
    V.ensure_array('samples at the grid points', v, (M, m), lambda i, j: F(P(i, M), j))


@contract(CT + '.populate', 'C05', uses=(CT + '.happy',), inv={CT + '.populate': lambda I, fr, st, o, l: (lambda env: [])})
def populate(V):
    """the result interpolates the last samples: its coefficients are those of the interpolant, either all of them or, when
    the happiness test accepted exactly these coefficients, as many as the test keeps"""
    ctx = V.ctx
    t = target(V)
    m = V.int('m', 1)
    got, fits, tests = [], [], []

    def ref(I, *a, **k):
        N = I.ctx.fresh('N', 'int')
        I.ctx.assume(z3.And(N >= 2, N <= T.to_z3(V.attr(t, 'maxLength'))))
        v = A.symbolic(I.ctx, 'samples', (N, m), 'f')
        g = I.ctx.fresh('giveUp', 'bool')
        got.append((v, g, N))
        return (v, g)
    r = SymFun("refine", ref)

    def pf(I, v, workers=1):
        c = A.symbolic(I.ctx, 'fit', v.shape, 'f')
        fits.append((v, c, c.snap()))
        return c

    def hp(I, f, eps=None):
        tests.append((I.np.getattr(f, 'coeffs'), eps))
        h, c = cheb.a_happy(I, f, eps)
        tests[-1] += (h, c)
        return (h, c)
    V.stub(DT + 'polyfit', pf, DT + 'polyfit')
    V.stub(DT + 'prolong', c_prolong, DT + 'prolong')
    V.stub(CT + '.happy', hp, CT + '.happy')
    V.method(t, 'populate', r)
    V.ensure('sampled', len(got) >= 1 and len(fits) >= 1)
    v, g, N = got[-1]
    fv, fc, fs = fits[-1]
    V.ensure('coefficients of the last samples', fv is v)
    cc = V.attr(t, 'coeffs')
    if tests and tests[-1][0] is fc:
        h, cut = tests[-1][2:]
        L = T.add(cut, 1)
        V.ensure('stops when accepted or when refinement gave up', T.lor(h, g))
        V.ensure('eps of the function', tests[-1][1] is None or T.eq(tests[-1][1], V.attr(t, 'eps')))
    else:
        V.ensure('stops only when refinement gave up', g)
        L = N
    V.ensure('as many coefficients as the test keeps (or all)', T.lor(T.eq(cc.shape[0], L), T.eq(cc.shape[0], N), T.eq(cc.shape[0], T.sub(L, 1))))
    V.ensure('columns', T.eq(cc.shape[1], m))
    V.ensure_all('coefficients of the interpolant', cc.shape, lambda i, j: T.eq(cc.elem(i, j), T.ite(T.lt(i, N), fs(i, j), F0)))


# ------------------------------------------------------------------ Fourier
TRF = 'funpy.trig.refine.'
TT = 'funpy.trig.trigtech.trigtech'


def tq(i, n):
    return T.add(-F1, T.div(T.mul(2, T.to_real(i)), T.to_real(n)))


@contract('funpy.trig.trigpts.trigpts', ('C05', 'C19'))
def trigpts(V):
    """the i-th of n points is -1 + 2 i / n, every weight 2 / n"""
    n = V.int('n', 0)
    x, w = V.call('funpy.trig.trigpts.trigpts', n)
    V.ensure_array('equispaced points', x, (n,), lambda i: tq(i, n))
    V.ensure_array('equal weights', w, (n,), lambda i: T.div(F1 * 2, T.to_real(n)))


def ctarget(V):
    n, m = V.int('t.n', 1), V.int('t.m', 1)
    return V.new(TT, coeffs=V.arr('t.c', (n, m), 'c'), values=V.arr('t.v', (n, m), 'c'), maxLength=V.int('maxLength', 16),
                 eps=V.real('eps', Fraction(1, 10 ** 16), Fraction(1, 10)), hscale=V.real('hscale'), vscale=V.real('vscale'), ishappy=False,
                 isReal=A.symbolic(V.ctx, 'isReal', (m,), 'b'))


def tcallable(V, m, kind):
    Fr, Fi = V.ctx.func('F.re', 'fi', 'f'), V.ctx.func('F.im', 'fi', 'f')
    flat = V.choose(False, True) if not T.isz3(m) and m == 1 else False

    def F(x, j):
        x, j = T.to_z3(T.to_real(x)), T.to_z3(j)
        return Cx(Fr(x, j), Fi(x, j)) if kind == 'c' else Fr(x, j)

    def op(I, x):
        xs = x.snap()
        if flat:
            return A.new(V.ctx, x.shape, lambda i: F(xs(i), 0), kind)
        return A.new(V.ctx, (x.shape[0], m), lambda i, j: F(xs(i), j), kind)
    return SymFun('op', op), F


@contract(TRF + 'Refine.__call__#first', 'C05')
def tfirst(V):
    """first refinement of a periodic function: samples at the equispaced points, the first one the mean of both ends"""
    m = V.choose(1, 'many')
    m = V.int('m', 2) if m == 'many' else 1
    op, F = tcallable(V, m, V.choose('f', 'c'))
    r = V.call(TRF + 'Refine', op=op, strategy=V.choose('nested', 'resample'), minSamples=V.int('minSamples', 3, 16))
    t = ctarget(V)
    t.fields['coeffs'] = A.new(V.ctx, (0, 0), lambda i, j: Cx(F0, F0), 'c')
    v, give = V.call(r, t)
    give = give if T.kind(give) == 'b' else T.ne(give, 0)
    N = v.shape[0]
    V.ensure('does not give up', T.lnot(give))
    V.ensure('at most the maximum length', T.le(N, V.attr(t, 'maxLength')))
    half = Fraction(1, 2)
    want = lambda i, j: T.ite(T.eq(i, 0), T.mul(half, T.add(F(-F1, j), F(F1, j))), F(tq(i, N), j))
    V.ensure_array('samples at the grid points', v, (N, m), want)
    V.ensure_array('samples are kept', V.attr(r, 'values'), (N, m), want)


@contract(TRF + 'Refine.__call__#nested', 'C05')
def tnested(V):
    """later refinements keep the samples at their points, take new ones at the new points, double the number of points and
    never exceed the maximum length"""
    m = V.choose(1, 'many')
    m = V.int('m', 2) if m == 'many' else 1
    kind = V.choose('f', 'c')
    op, F = tcallable(V, m, kind)
    N = V.int('N', 2)
    r = V.call(TRF + 'Refine', op=op, strategy='nested')
    S = V.arr('S', (N, m), kind)
    for_i = lambda i, j: T.implies(T.gt(i, 0), T.eq(S.elem(i, j), F(tq(i, N), j)))
    V.ctx.forall((N, m), for_i)
    s0 = S.snap()
    r.fields['values'] = A.new(V.ctx, (N, m), s0, kind)
    t = ctarget(V)
    ml = V.attr(t, 'maxLength')
    v, give = V.call(r, t)
    give = give if T.kind(give) == 'b' else T.ne(give, 0)
    M = v.shape[0]
    V.ensure('at most the maximum length, or gives up', T.lor(give, T.le(M, ml)))
    V.ensure('strictly more samples, or gives up', T.lor(give, T.gt(M, N)))
    V.ensure('unchanged when giving up', T.implies(give, T.eq(M, N)))
    V.ensure('gives up only when the next grid is too long', T.implies(give, T.gt(T.mul(2, N), ml)))
    want = lambda i, j: T.ite(T.eq(i, 0), s0(0, j), F(tq(i, M), j))
    V.ensure_array('samples at the grid points', v, (M, m), want)
    V.ensure_array('samples are kept', V.attr(r, 'values'), (M, m), want)
