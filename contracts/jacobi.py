"""Change of basis of series of Jacobi and ultraspherical polynomials (C10)."""
from .lib import *

UL = 'funpy.ultra.'


def series_in(V, n=None):
    n = V.int('n', 1) if n is None else n
    m = V.int('m', 1)
    v = V.arr('v', (n, m), 'f')
    return v, v.snap(), n, m, V.freeze(v)


def params(V):
    a, b = V.real('a'), V.real('b')
    V.assume(T.gt(a, -1))
    V.assume(T.gt(b, -1))
    return a, b


def d1(a, b, k):
    k = T.to_real(k)
    s = T.add(a, b)
    return T.ite(T.eq(k, 0), F1, T.div(T.add(T.add(s, k), 1), T.add(T.add(s, T.mul(2, k)), 1)))


def d2(a, b, k):
    k = T.to_real(k)
    return T.div(T.add(T.add(a, 1), k), T.add(T.add(T.add(a, b), 3), T.mul(2, k)))


def up(a, b, n, v):
    """P^(a,b) -> P^(a,b+1): (2k+a+b+1) P^(a,b)_k = (k+a+b+1) P^(a,b+1)_k + (k+a) P^(a,b+1)_(k-1)"""
    return lambda i, j: T.add(T.mul(d1(a, b, i), v(i, j)), T.ite(T.lt(T.add(i, 1), n), T.mul(d2(a, b, i), v(T.add(i, 1), j)), F0))


@contract(UL + 'UpJacobiConversion', 'C10')
def up_conversion(V):
    """coefficients in P^(a,b+1) of the same series: (k+a+b+1)/(2k+a+b+1) v_k + (k+a+1)/(2k+a+b+3) v_(k+1); input unchanged"""
    v, x, n, m, fz = series_in(V)
    a, b = params(V)
    r = V.call(UL + 'UpJacobiConversion', v, a, b)
    V.ensure_array('converted', r, (n, m), up(a, b, n, x))
    V.ensure_frozen('series', fz)


def sgn(k):
    return T.ite(T.eq(T.mod(k, 2), 0), F1, -F1)


def top(ctx, a, b):
    """t_0 = 1, t_(k+1) = t_k (a+k+1)/(a+b+k+2), without signs"""
    t = ctx.func('top', 'i', 'f')
    s = T.add(a, b)
    if 'top' not in ctx.schemas:
        def ax(q):
            k = z3.ToReal(q[0])
            return [z3.Implies(q[0] == 0, t(q[0]) == 1),
                    z3.Implies(q[0] >= 1, t(q[0]) == T.to_z3(T.mul(t(q[0] - 1), T.div(T.add(a, k), T.add(T.add(s, k), 1))))),
                    z3.Implies(q[0] >= 0, t(q[0]) > 0)]
        ctx.schema(t, ax)
        k = ctx.fresh('k', 'int')
        p = ctx.fresh('p', 'real')
        ctx.oblige(T.implies(T.land(T.ge(k, 1), T.gt(p, 0)), T.gt(T.mul(p, T.div(T.add(a, T.to_real(k)), T.add(T.add(s, T.to_real(k)), 1))), 0)),
                   't stays positive (induction step)', 'lemma')
    return lambda k: t(T.to_z3(k))


def cumprod_top(M, x, axis=None):
    """cumulative products by induction: the first one and each step are proved to agree with t_(i+2)/t_1"""
    ctx = M.ctx
    a, b = ctx.ghost_ab
    t = top(ctx, a, b)
    s, n = x.snap(), x.shape[0]
    P = lambda i: T.mul(t(T.add(i, 2)), T.div(T.add(T.add(a, b), 2), T.add(a, 1)))
    i = ctx.fresh('i', 'int')
    ctx.oblige(T.implies(T.gt(n, 0), T.eq(P(0), s(0))), 'first cumulative product', 'lemma')
    ctx.oblige(T.implies(T.land(T.gt(i, 0), T.lt(i, n)), T.eq(P(i), T.mul(P(T.sub(i, 1)), s(i)))), 'next cumulative product', 'lemma')
    assumed(ctx, 'np.cumprod is the array of products of the first entries')
    return A.new(ctx, (n,), P, 'f')


@contract(UL + 'DownJacobiConversion', 'C10', hooks={'numpy.cumprod': cumprod_top})
def down_conversion(V):
    """coefficients in P^(a,b) of a series in P^(a,b+1): (2k+a+b+1) / ((k+a+b+1) s_k) sum_(l>=k) s_l v_l with s_k = (-1)^k t_k, which
    is the inverse of the conversion up; input unchanged"""
    ctx = V.ctx
    v, x, n, m, fz = series_in(V)
    a, b = params(V)
    ctx.ghost_ab = a, b
    t = top(ctx, a, b)
    s = T.add(a, b)
    r = V.call(UL + 'DownJacobiConversion', v, a, b)
    st = lambda k: T.mul(sgn(k), t(k))
    tail = lambda i, j: ctx.Sum(i, T.sub(n, 1), lambda l: T.mul(st(l), x(l, j)))
    V.ensure_array('converted', r, (n, m), lambda i, j: T.mul(T.ite(T.eq(i, 0), F1, T.div(T.add(s, T.add(T.mul(2, T.to_real(i)), 1)),
                   T.mul(T.add(s, T.add(T.to_real(i), 1)), st(i)))), tail(i, j)))
    V.ensure_frozen('series', fz)


@contract(UL + 'DownJacobiConversion#inverse', 'C10', uses=(UL + 'UpJacobiConversion', UL + 'DownJacobiConversion'))
def down_inverse(V):
    """converting up what was converted down gives the series back, entry by entry (S_k = s_k v_k + S_(k+1))"""
    ctx = V.ctx
    V.get(UL + 'DownJacobiConversion')
    V.called = True
    a, b = params(V)
    n, i, S1, v = V.int('n', 1), V.int('i', 0), V.real('S1'), V.real('v')
    V.assume(T.lt(i, n))
    t = top(ctx, a, b)
    s, I = T.add(a, b), T.to_real(i)
    w = lambda k, S: T.mul(T.ite(T.eq(k, 0), F1, T.div(T.add(s, T.add(T.mul(2, T.to_real(k)), 1)), T.mul(T.add(s, T.add(T.to_real(k), 1)), T.mul(sgn(k), t(k))))), S)
    V.assume(T.implies(T.eq(T.add(i, 1), n), T.eq(S1, 0)))
    S0 = T.add(T.mul(T.mul(sgn(i), t(i)), v), S1)
    V.ensure('back', T.eq(T.add(T.mul(d1(a, b, i), w(i, S0)), T.mul(d2(a, b, i), w(T.add(i, 1), S1))), v), 'lemma')


def flip_spec(name, inner):
    def spec(V):
        ctx = V.ctx
        v, x, n, m, fz = series_in(V)
        a, b = params(V)
        seen = []

        def stub(I, u, p, q):
            seen.append((u.snap(), u.shape, p, q))
            return A.symbolic(ctx, 'inner', u.shape, 'f')
        V.stub(UL + inner, stub, UL + inner)
        r = V.call(UL + name, v, a, b)
        V.ensure('one conversion', len(seen) == 1)
        u, sh, p, q = seen[0]
        V.ensure('parameters exchanged', T.land(T.eq(p, b), T.eq(q, a)))
        V.ensure_all('of the reflected series', (n, m), lambda i, j: T.eq(u(i, j), T.mul(sgn(i), x(i, j))))
        w = A.symbolic(ctx, 'inner', (n, m), 'f').snap()
        V.ensure_array('reflected back', r, (n, m), lambda i, j: T.mul(sgn(i), w(i, j)))
        V.ensure_frozen('series', fz)
    return spec


for _n, _m in (('RightJacobiConversion', 'UpJacobiConversion'), ('LeftJacobiConversion', 'DownJacobiConversion')):
    _s = flip_spec(_n, _m)
    _s.__doc__ = """P^(a,b)_k(-x) = (-1)^k P^(b,a)_k(x): the other conversion applied to the reflected series with parameters exchanged"""
    contract(UL + _n, 'C10', uses=(UL + _m,))(_s)


class Jac:
    """coefficients of one fixed polynomial in the basis P^(a,b)"""

    def __init__(self, a, b):
        self.a, self.b = a, b


def inv_jac(I, fr, st, o, loops):
    """half integer steps: the parameters stay a whole number of steps from the given ones, the series is that of the input"""
    ctx = I.ctx
    G = ctx.ghost_jac
    al, be = G['names'](fr)

    def whole(x):
        def check(v):
            d = z3.simplify(T.to_z3(T.to_real(T.sub(v, x))))
            return T.is_scalar(v) and (z3.is_to_real(d) or z3.is_rational_value(d) and d.denominator_as_long() == 1 or ctx.prove(z3.IsInt(d)))
        return check, lambda: T.add(x, T.to_real(ctx.fresh('steps', 'int')))

    def prov(env):
        a, b = env.fr.vars[al], env.fr.vars[be]
        out = [('first parameter above -1', T.gt(a, -1)), ('second parameter above -1', T.gt(b, -1))]
        if o >= 1:
            out.append(('a not below its goal', T.ge(a, G['gam'])))
        if o >= 2:
            out.append(('a at its goal', T.eq(a, G['gam'])))
        if o >= 3:
            out.append(('b not below its goal', T.ge(b, G['delta'])))
        return out
    c = G['series'](fr)
    prov.types = {al: whole(G['a']), be: whole(G['b']), c: (lambda v: isinstance(v, Jac) and ctx.prove(T.land(T.eq(v.a, fr.vars[al]), T.eq(v.b, fr.vars[be]))),
                      lambda: Jac(fr.vars[al], fr.vars[be]))}
    return prov


def param_names(fr):
    return fr.fn.node.args.args[1].arg, fr.fn.node.args.args[2].arg


@contract(UL + 'jacobiIntegerConversion', 'C10', uses=(UL + 'UpJacobiConversion', UL + 'DownJacobiConversion', UL + 'RightJacobiConversion',
          UL + 'LeftJacobiConversion'), inv={UL + 'jacobiIntegerConversion': inv_jac}, timeout=1.5, budget=250)
def integer_conversion(V):
    """for parameters that differ from the goal by whole numbers the result represents the same polynomial in P^(gam,delta): each step
    is a conversion from the parameters reached"""
    ctx = V.ctx
    a, b = params(V)
    p, q = V.int('p'), V.int('q')
    gam, delta = T.add(a, T.to_real(p)), T.add(b, T.to_real(q))
    V.assume(T.gt(gam, -1))
    V.assume(T.gt(delta, -1))
    ctx.ghost_jac = {'a': a, 'b': b, 'gam': gam, 'delta': delta, 'names': param_names, 'series': lambda fr: fr.fn.node.args.args[0].arg}

    def step(name, da, db):
        down = da < 0 or db < 0

        def f(I, c, x, y):
            ok = isinstance(c, Jac)
            ctx.oblige(ok, 'a series is converted', 'call')
            fa, fb = (T.sub(x, da) if da < 0 else x), (T.sub(y, db) if db < 0 else y)
            ctx.oblige(T.land(T.eq(c.a, fa), T.eq(c.b, fb)), 'conversion from the parameters of the series', 'call')
            ctx.oblige(T.land(T.gt(x, -1), T.gt(y, -1)), 'parameters above -1', 'call')
            return Jac(T.add(c.a, da), T.add(c.b, db))
        V.stub(UL + name, f, UL + name)
    step('UpJacobiConversion', 0, 1)
    step('DownJacobiConversion', 0, -1)
    step('RightJacobiConversion', 1, 0)
    step('LeftJacobiConversion', -1, 0)
    r = V.call(UL + 'jacobiIntegerConversion', Jac(a, b), a, b, gam, delta)
    c, x, y = r
    V.ensure('parameters reached', T.land(T.eq(x, gam), T.eq(y, delta)))
    V.ensure('series in the new basis', T.land(T.eq(c.a, gam), T.eq(c.b, delta)) if isinstance(c, Jac) else False)


# ------------------------------------------------------------------ ultraspherical series
FH = Fraction(1, 2)


class Log:
    """logarithms of positive numbers (a number or an array): sums are the logarithms of products"""

    def __init__(self, val):
        self.val = val

    def vc_binop(self, M, op, a, b):
        if op in ('Add', 'Sub') and isinstance(a, Log) and isinstance(b, Log):
            return Log(M.binop('Mult' if op == 'Add' else 'Div', a.val, b.val))
        raise Unsupported('logarithms: ' + op)

    def vc_unop(self, M, op, a):
        if op in ('USub', '-'):
            return Log(M.binop('Div', F1, a.val))
        raise Unsupported('logarithms: ' + op)


def gamma_at(ctx, x):
    """Gamma: only known at positive numbers"""
    g = ctx.func('gamma', 'f', 'f')
    if 'gamma' not in ctx.schemas:
        assumed(ctx, 'scipy.special.gamma is positive and Gamma(x+1) = x Gamma(x) for x > 0; gammaln is its logarithm and exp(log x) = x')
        ctx.schema(g, lambda q: [z3.Implies(q[0] > 0, g(q[0]) > 0)])
    return g(T.to_z3(T.to_real(x)))


def h_gamma(M, x, **k):
    return A.ufunc(M.ctx, lambda t: gamma_at(M.ctx, t), [x], 'f')


def h_exp(M, x, **k):
    if isinstance(x, Log):
        return x.val
    raise Unsupported('exp')


GAMMA = {'scipy.special.gamma': h_gamma, 'scipy.special.gammaln': lambda M, x, **k: Log(h_gamma(M, x)), 'numpy.exp': h_exp}


def step_up(ctx, x):
    """Gamma(x+1) = x Gamma(x)"""
    x = T.to_real(x)
    return T.implies(T.gt(x, 0), T.eq(gamma_at(ctx, T.add(x, 1)), T.mul(x, gamma_at(ctx, x))))


@contract(UL + 'scl', 'C10', hooks=GAMMA)
def scale(V):
    """C^(lam)_k = P^(lam-1/2,lam-1/2)_k / s_k with s_0 = 1 and s_(k+1) (2 lam + k) = s_k (lam + 1/2 + k), all lam > 0, and for lam = 0
    (Chebyshev polynomials) s_(k+1) (k + 1) = s_k (k + 1/2); n+1 factors, none of them zero"""
    ctx = V.ctx
    n = V.int('n', 0)
    zero = V.choose('Chebyshev', 'ultraspherical') == 'Chebyshev'
    lam = 0 if zero else V.real('lam')
    if not zero:
        V.assume(T.gt(lam, 0))
    r = V.call(UL + 'scl', lam, n)
    V.ensure_shape('one factor per coefficient', r, (T.add(n, 1),))
    s = r.snap()
    k = V.int('k', 0)
    V.assume(T.lt(k, n))
    K = T.to_real(k)
    if not zero:
        V.assume(step_up(ctx, T.add(lam, T.add(FH, K))))
        V.assume(step_up(ctx, T.add(T.mul(2, lam), K)))
    V.ensure('first', T.eq(s(0), 1))
    V.ensure('next', T.eq(T.mul(s(T.add(k, 1)), T.add(T.mul(2, lam), K) if not zero else T.add(K, 1)), T.mul(s(k), T.add(T.add(lam, FH), K))))


@contract(UL + 'jac2jac', 'C10', uses=(UL + 'jacobiIntegerConversion',))
def jacobi_to_jacobi(V):
    """parameters a whole number of steps apart: the same polynomial in P^(gam,delta); any other: refused"""
    ctx = V.ctx
    a, b = params(V)
    gam, delta = V.real('gam'), V.real('delta')
    V.assume(T.gt(gam, -1))
    V.assume(T.gt(delta, -1))
    whole = V.choose('whole', 'first not', 'second not')
    x, y = (gam if whole != 'first not' else V.real('x')), (delta if whole != 'second not' else V.real('y'))
    if whole == 'first not':
        V.assume(T.gt(T.absv(T.sub(x, gam)), Fraction(1, 10 ** 9)))
    if whole == 'second not':
        V.assume(T.gt(T.absv(T.sub(y, delta)), Fraction(1, 10 ** 9)))

    def stub(I, c, p, q, g, d):
        ctx.oblige(T.land(T.eq(p, c.a), T.eq(q, c.b), T.eq(g, gam), T.eq(d, delta)) if isinstance(c, Jac) else False, 'the series and its parameters', 'call')
        return (Jac(x, y), x, y)
    V.stub(UL + 'jacobiIntegerConversion', stub, UL + 'jacobiIntegerConversion')
    if whole != 'whole':
        e = V.raises(lambda: V.call(UL + 'jac2jac', Jac(a, b), a, b, gam, delta))
        return V.ensure('refused', e is not None and e.exc == 'AssertionError')
    c = V.call(UL + 'jac2jac', Jac(a, b), a, b, gam, delta)
    V.ensure('series in the new basis', T.land(T.eq(c.a, gam), T.eq(c.b, delta)) if isinstance(c, Jac) else False)


@contract(UL + 'ultra2ultra', 'C10', uses=(UL + 'scl', UL + 'jac2jac'))
def ultra_to_ultra(V):
    """coefficients in C^(lam_in) -> Jacobi polynomials -> C^(lam_out): divided by s_k(lam_in), converted to the Jacobi basis with both
    parameters lam_out - 1/2, multiplied by s_k(lam_out); as many coefficients, input unchanged"""
    ctx = V.ctx
    c, x, n, m, fz = series_in(V)
    li, lo = V.real('lam_in'), V.real('lam_out')
    V.assume(T.ge(li, 0))
    V.assume(T.ge(lo, 0))
    sc = ctx.func('scl', 'fi', 'f')
    ctx.schema(sc, lambda q: [sc(*q) > 0])
    S = lambda lam, k: sc(T.to_z3(T.to_real(lam)), T.to_z3(k))

    def scl(I, lam, k):
        ctx.oblige(T.land(T.eq(k, T.sub(n, 1)), T.ge(lam, 0)), 'one factor per coefficient', 'call')
        return A.new(ctx, (T.add(k, 1),), lambda i: S(lam, i), 'f')
    seen = []

    def conv(I, u, p, q, g, d):
        seen.append((u.snap(), u.shape, p, q, g, d))
        return A.symbolic(ctx, 'w', u.shape, 'f')
    V.stub(UL + 'scl', scl, UL + 'scl')
    V.stub(UL + 'jac2jac', conv, UL + 'jac2jac')
    r = V.call(UL + 'ultra2ultra', c, li, lo)
    V.ensure('one conversion', len(seen) == 1)
    u, sh, p, q, g, d = seen[0]
    pi, po = T.sub(li, FH), T.sub(lo, FH)
    V.ensure('parameters', T.land(T.eq(p, pi), T.eq(q, pi), T.eq(g, po), T.eq(d, po)))
    V.ensure_all('series of Jacobi polynomials', (n, m), lambda i, j: T.eq(T.mul(u(i, j), S(li, i)), x(i, j)))
    w = A.symbolic(ctx, 'w', (n, m), 'f').snap()
    V.ensure_array('scaled back', r, (n, m), lambda i, j: T.mul(w(i, j), S(lo, i)))
    V.ensure_frozen('series', fz)
