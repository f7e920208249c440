"""Grids, weights and their scaling (C19)"""
from .lib import *
from . import refine

PT = 'funpy.cheb.pts.'
half = Fraction(1, 2)


def interval(V):
    """None, [-1, 1], or an arbitrary interval [a, b], a < b, as a list or an array"""
    k = V.choose('list', 'array', '[-1, 1]')
    if k == '[-1, 1]':
        return [-1, 1], Fraction(-1), F1
    a, b = V.real('a'), V.real('b')
    V.assume(T.lt(a, b))
    if k == 'list':
        return [a, b], a, b
    iv = V.arr('interval', (2,), 'f')
    V.assume(z3.And(T.to_z3(iv.elem(0)) == T.to_z3(a), T.to_z3(iv.elem(1)) == T.to_z3(b)))
    return iv, a, b


def place(a, b, x):
    """the affine map [-1, 1] -> [a, b]"""
    return T.add(T.mul(half, T.add(a, b)), T.mul(T.mul(half, T.sub(b, a)), x))


@contract(PT + 'scaleNodes', 'C19')
def scale_nodes(V):
    """nodes are mapped affinely, -1 to a and 1 to b, in order; the given nodes are not changed"""
    iv, a, b = interval(V)
    n = V.int('n', 0)
    x = V.arr('x', (n,), 'f')
    fx, xs = V.freeze(x), x.snap()
    r = V.call(PT + 'scaleNodes', x, iv)
    V.ensure_array('scaled nodes', r, (n,), lambda i: place(a, b, xs(i)))
    V.ensure_frozen('nodes', fx)


@contract(PT + 'scaleWeights', 'C19')
def scale_weights(V):
    """weights are scaled by half the length of the interval; the given weights are not changed"""
    iv, a, b = interval(V)
    n = V.int('n', 2)
    w = V.arr('w', (n,), 'f')
    fw, ws = V.freeze(w), w.snap()
    r = V.call(PT + 'scaleWeights', w, iv)
    V.ensure_array('scaled weights', r, (n,), lambda i: T.mul(T.mul(half, T.sub(b, a)), ws(i)))
    V.ensure_frozen('weights', fw)


def alternating(n, i):
    """(-1)**(n - 1 - i)"""
    d = T.sub(T.sub(n, 1), i)
    return T.ite(T.eq(T.mod(d, 2), 0), F1, -F1)


@contract(PT + 'bary_weights', 'C19')
def bary(V):
    """barycentric weights of n >= 2 points of the second kind: alternating signs, half weights at the two ends"""
    n = V.int('n', 2)
    r = V.call(PT + 'bary_weights', n)
    V.ensure_array('weights', r, (n,), lambda i: T.mul(alternating(n, i), T.ite(T.lor(T.eq(i, 0), T.eq(i, T.sub(n, 1))), half, F1)))
    V.ensure('not shared with the cache', getattr(r.buf, 'shared', None) is None)


@contract(PT + 'bary_weights_type1', 'C19')
def bary1(V):
    """barycentric weights of n >= 1 points of the first kind: alternating, of the size of the sine of the angle of the point"""
    n = V.int('n', 1)
    r = V.call(PT + 'bary_weights_type1', n)
    pi = V.ctx.get_pi()
    V.ensure_array('weights', r, (n,), lambda i: T.mul(alternating(n, i), V.ctx.trig('sin', T.div(T.mul(pi, T.add(T.to_real(T.sub(T.sub(n, 1), i)), half)), T.to_real(n)))))
    V.ensure('not shared with the cache', getattr(r.buf, 'shared', None) is None)


@contract(PT + 'chebpts_type2_compute', 'C19')
def points2(V):
    """n points: the i-th is sin(pi (2 i - n + 1) / (2 (n - 1))); a single point is 0"""
    pts(V, 'chebpts_type2_compute', lambda n: T.sub(n, 1))


@contract(PT + 'chebpts_type1_compute', 'C19')
def points1(V):
    """n points of the first kind: the i-th is sin(pi (2 i - n + 1) / (2 n)); a single point is 0"""
    pts(V, 'chebpts_type1_compute', lambda n: n)


def pts(V, fn, den):
    k = V.choose('none', 'one', 'many')
    n = {'none': 0, 'one': 1}.get(k) if k != 'many' else V.int('n', 2)
    r = V.call(PT + fn, n)
    if k == 'none':
        V.ensure_shape('no points', r, (0,))
    elif k == 'one':
        V.ensure_array('one point', r, (1,), lambda i: F0)
    else:
        pi = V.ctx.get_pi()
        V.ensure_array('points', r, (n,), lambda i: V.ctx.trig('sin', T.div(T.mul(pi, T.to_real(T.add(T.sub(T.mul(2, i), n), 1))), T.mul(2, T.to_real(den(n))))))
    V.ensure('not shared with the cache', getattr(r.buf, 'shared', None) is None)


def all_of(V, kind):
    """the grid functions put points, weights, barycentric weights and angles of the same size together"""
    s = '' if kind == 2 else '_type1'
    X, W, B = (V.ctx.func(q + str(kind), 'ii', 'f') for q in ('X', 'W', 'B'))
    for q, f in ((PT + 'chebpts_type%d_compute' % kind, X), (PT + 'quadwts' + s, W), (PT + 'bary_weights' + s, B)):
        V.stub(q, (lambda f: lambda I, n: A.new(I.ctx, (n,), lambda i: f(T.to_z3(i), T.to_z3(n)), 'f'))(f), q if 'quadwts' not in q else None)
    k = V.choose('none', 'one', 'many')
    n = {'none': 0, 'one': 1}.get(k) if k != 'many' else V.int('n', 2)
    has = V.choose('default', 'chebpts', 'direct')
    if has == 'default':
        iv, a, b = None, Fraction(-1), F1
        r = V.call(PT + 'chebpts', n) if kind == 2 else V.call(PT + 'chebpts', n, type=1)
    elif has == 'chebpts':
        iv, a, b = interval(V)
        r = V.call(PT + 'chebpts', n, iv, kind)
    else:
        iv, a, b = interval(V)
        r = V.call(PT + 'chebpts_type%d' % kind, n, interval=iv)
    x, w, v, t = r
    if k == 'none':
        for q in (x, w, v, t):
            V.ensure_shape('nothing', q, (0,))
    elif k == 'one':
        V.ensure_array('the midpoint', x, (1,), lambda i: T.mul(half, T.add(a, b)))
        V.ensure_array('the length of the interval', w, (1,), lambda i: T.sub(b, a))
        V.ensure_array('barycentric weight', v, (1,), lambda i: F1)
        V.ensure_array('angle', t, (1,), lambda i: T.mul(half, V.ctx.get_pi()))
    else:
        V.ensure_array('points on the interval', x, (n,), lambda i: place(a, b, X(T.to_z3(i), T.to_z3(n))))
        V.ensure_array('weights of the interval', w, (n,), lambda i: T.mul(T.mul(half, T.sub(b, a)), W(T.to_z3(i), T.to_z3(n))))
        V.ensure_array('barycentric weights', v, (n,), lambda i: B(T.to_z3(i), T.to_z3(n)))
        pi = V.ctx.get_pi()
        rev = lambda i: T.to_real(T.sub(T.sub(n, 1), i))
        V.ensure_array('angles', t, (n,), lambda i: T.div(T.mul(pi, rev(i)), T.to_real(T.sub(n, 1))) if kind == 2 else T.div(T.mul(pi, T.add(rev(i), half)), T.to_real(n)))


@contract(PT + 'chebpts#type2', 'C19')
def all2(V):
    all_of(V, 2)


@contract(PT + 'chebpts#type1', 'C19')
def all1(V):
    all_of(V, 1)


@contract(PT + 'quadwts', 'C19')
def weights2(V):
    """Clenshaw-Curtis weights of n points: the inverse transform of the integrals 2 / (1 - 4 j^2) of the even Chebyshev
    polynomials, mirrored to the length n - 1, with the first halved and repeated at the end (that this rule is exact for
    polynomials of degree < n is the classical theorem, not re-proved here)"""
    k = V.choose('none', 'one', 'many')
    if k != 'many':
        n = 0 if k == 'none' else 1
        r = V.call(PT + 'quadwts', n)
        V.ensure_array('weights', r, (n,), lambda i: F1 * 2)
    else:
        n = V.int('n', 2)
        r = V.call(PT + 'quadwts', n)
        m = T.sub(n, 1)

        def mom(i):
            j = T.minv(i, T.sub(m, i))
            return T.div(F1 * 2, T.to_real(T.sub(1, T.mul(4, T.mul(j, j)))))
        e = V.I.np.call('scipy.fft.ifft', (A.new(V.ctx, (m,), mom, 'f'),), {})
        V.ensure_array('weights', r, (n,), lambda i: T.ite(T.lor(T.eq(i, 0), T.eq(i, m)), T.mul(half, T.to_cx(e.elem(0)).re), T.to_cx(e.elem(i)).re))
    V.ensure('not shared with the cache', getattr(r.buf, 'shared', None) is None)


@contract(PT + 'quadwts_type1', 'C19')
def weights1(V):
    """Fejer's first rule: w_i = 2/n (1 - 2 sum_k cos(2 k t_i) / (4 k^2 - 1)), k = 1 .. n // 2, at the angles of the points (that the rule
    is exact for polynomials of degree < n is the classical theorem, not re-proved here)"""
    n = V.int('n', 1)
    r = V.call(PT + 'quadwts_type1', n)
    pi = V.ctx.get_pi()
    R = T.to_real

    def w(i):
        t = T.div(T.mul(pi, T.add(R(T.sub(T.sub(n, 1), i)), half)), R(n))
        s = V.ctx.Sum(1, T.floordiv(n, 2), lambda k: T.div(V.ctx.trig('cos', T.mul(T.mul(2, R(k)), t)), R(T.sub(T.mul(4, T.mul(k, k)), 1))))
        return T.mul(T.div(F1 * 2, R(n)), T.sub(F1, T.mul(2, s)))
    V.ensure_array('weights', r, (n,), w)
    V.ensure('not shared with the cache', getattr(r.buf, 'shared', None) is None)
