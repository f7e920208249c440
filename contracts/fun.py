from .lib import *
from . import cheb, calculus  # noqa: F401

FUN = 'funpy.fun.Fun'
MAP = 'funpy.mapping.Mapping'


def interval(V, name):
    a, b = V.real(name + '.a'), V.real(name + '.b')
    V.assume(a < b)
    return a, b


def domain_arr(V, a, b):
    return A.new(V.ctx, (2,), lambda i, a=a, b=b: T.ite(T.eq(i, 0), a, b), 'f')


def fun(V, name, a=None, b=None, **kw):
    """an arbitrary Chebyshev based function on [a, b]"""
    if a is None:
        a, b = interval(V, name)
    t, c, n, m = tech(V, name, **kw)
    d = domain_arr(V, a, b)
    mp = V.call(MAP, d)
    return V.new(FUN, onefun=t, domain=d, mapping=mp), t, c, n, m, (a, b)


@contract(MAP + '.__init__', 'C06')
def mapping(V):
    """fwd maps [-1, 1] onto [a, b], ends to ends, bwd is its inverse on both sides, der its derivative (b - a) / 2"""
    a, b = interval(V, 'd')
    kind = V.choose('array', 'list')
    m = V.call(MAP, domain_arr(V, a, b) if kind == 'array' else [a, b])
    y, x = V.real('y'), V.real('x')

    def one(v):
        if isinstance(v, Arr):
            return v.elem(*[0] * v.ndim)
        return v
    fwd = lambda v: one(V.call(V.attr(m, 'fwd'), v))
    bwd = lambda v: one(V.call(V.attr(m, 'bwd'), v))
    V.ensure('left end to left end', T.eq(fwd(T.to_z3(-F1)), a))
    V.ensure('right end to right end', T.eq(fwd(T.to_z3(F1)), b))
    V.ensure('affine', T.eq(T.sub(fwd(y), a), T.mul(T.div(T.sub(b, a), 2), T.add(y, 1))))
    V.ensure('bwd after fwd', T.eq(bwd(fwd(y)), y))
    V.ensure('fwd after bwd', T.eq(fwd(bwd(x)), x))
    V.ensure('into the interval', T.implies(T.land(T.le(-1, y), T.le(y, 1)), T.land(T.le(a, fwd(y)), T.le(fwd(y), b))))
    V.ensure('back into [-1, 1]', T.implies(T.land(T.le(a, x), T.le(x, b)), T.land(T.le(-1, bwd(x)), T.le(bwd(x), 1))))
    V.ensure('derivative', T.eq(one(V.call(V.attr(m, 'der'), y)), T.div(T.sub(b, a), 2)))
    V.ensure('call is fwd', T.eq(one(V.call(m, y)), fwd(y)))


@contract(MAP + '.arrays', 'C06')
def mapping_arrays(V):
    """the maps act elementwise on arrays of points and leave them unchanged"""
    a, b = interval(V, 'd')
    m = V.call(MAP, domain_arr(V, a, b))
    N = V.int('N', 2)
    x = V.arr('x', (N,))
    fz = V.freeze(x)
    h = T.div(T.sub(b, a), 2)
    V.ensure_array('fwd', V.call(V.attr(m, 'fwd'), x), (N,), lambda i: T.add(a, T.mul(h, T.add(x.elem(i), 1))))
    r = V.call(V.attr(m, 'bwd'), x)
    V.ensure_array('bwd', r, (N,), lambda i: T.sub(T.div(T.sub(x.elem(i), a), h), 1))
    V.ensure_array('der', V.call(V.attr(m, 'der'), x), (N,), lambda i: h)
    V.ensure_frozen('points unchanged', fz)


@contract(FUN + '.__call__', 'C06')
def fun_call(V):
    """f(x) is the value of the reference function at the preimage of x, for every x in [a, b]"""
    f, t, c, n, m, (a, b) = fun(V, 'f')
    N = V.int('N', 2)
    x = V.arr('x', (N,))
    V.ctx.forall(N, lambda i: T.land(T.le(a, x.elem(i)), T.le(x.elem(i), b)))
    got = []

    def feval(I, s, y):
        got.append((s, y, y.snap()))
        return A.symbolic(I.ctx, 'val', (N,), 'f')
    V.stub(CT + '.feval', feval, CT + '.feval')
    fz, ft = V.freeze(x), freeze_obj(V, t)
    r = V.call(f, x)
    V.ensure('one evaluation of the reference function', len(got) == 1 and got[0][0] is t)
    V.ensure_shape('points', got[0][1], (N,))
    V.ensure_all('at the preimages', (N,), lambda i: T.eq(got[0][2](i), T.sub(T.div(T.mul(2, T.sub(x.elem(i), a)), T.sub(b, a)), 1)))
    V.ensure_frozen('points unchanged', fz)
    ensure_obj_frozen(V, 'function unchanged', ft)


def mismatch(V, f, g, op, what):
    (a, b), (c, d) = f[-1], g[-1]
    eps = Fraction(1e-8)
    far = T.lor(T.ge(V.ctx.absv(T.sub(a, c)), eps), T.ge(V.ctx.absv(T.sub(b, d)), eps))
    try:
        op()
    except PyRaise as e:
        V.ensure('%s: rejected only with a ValueError' % what, e.exc == 'ValueError')
        return True
    V.ensure('%s: accepted only when both ends agree' % what, T.lnot(far))
    return False


@contract(FUN + '.__array_ufunc__#domains', 'C06')
def guard(V):
    """f op g, f op= g with domains differing in either end and either direction is a ValueError"""
    f, g = fun(V, 'f'), fun(V, 'g')
    for nm in ('add', 'multiply', 'subtract', 'negative', 'true_divide'):
        V.stub('funpy.cheb.ufuncs.' + nm, lambda I, *a, **k: f[1])
    uf = V.choose('add', 'multiply', 'subtract', 'divide')
    inplace = V.choose(False, True)
    kw = dict(out=(f[0],)) if inplace else {}
    mismatch(V, f, g, lambda: V.numpy(uf, f[0], g[0], **kw), uf)


@contract('funpy.fun.#domains', 'C06')
def guard_functions(V):
    """inner, dot, hstack of functions on different domains are a ValueError"""
    f, g = fun(V, 'f'), fun(V, 'g')
    for nm in ('inner', 'dot'):
        V.stub('funpy.cheb.chebtech.' + nm, lambda I, *a, **k: I.ctx.fresh('ip', 'real'))
    V.stub('funpy.cheb.chebtech.hstack', lambda I, *a, **k: f[1])
    V.stub('funpy.cheb.chebtech.innerw', lambda I, *a, **k: I.ctx.fresh('ip', 'real'))
    nm = V.choose('inner', 'dot', 'hstack', 'innerw')
    if nm == 'hstack':
        mismatch(V, f, g, lambda: V.numpy('hstack', [f[0], g[0]]), nm)
    elif nm == 'innerw':
        mismatch(V, f, g, lambda: V.call('funpy.fun.innerw', f[0], g[0]), nm)
    else:
        mismatch(V, f, g, lambda: V.numpy(nm, f[0], g[0]), nm)


@contract(FUN + '.__array_ufunc__', ('C06', 'C03'))
def ufunc_wrap(V):
    """an operation on functions acts on their reference functions and keeps domain and mapping; in place it returns the left operand"""
    a, b = interval(V, 'd')
    f, g = fun(V, 'f', a, b), fun(V, 'g', a, b)
    calls = []
    res = tech(V, 'r')[0]

    def op(I, *x, **k):
        calls.append((x, k))
        return k['out'][0] if k.get('out') else res
    uf = V.choose('add', 'multiply', 'subtract', 'divide')
    V.stub('funpy.cheb.ufuncs.' + ('true_divide' if False else uf), op)
    right = V.choose('fun', 'number', 'reflected')
    inplace = right != 'reflected' and V.choose(False, True)
    s = V.real('s')
    args = {'fun': (f[0], g[0]), 'number': (f[0], s), 'reflected': (s, f[0])}[right]
    want = {'fun': (f[1], g[1]), 'number': (f[1], s), 'reflected': (s, f[1])}[right]
    r = V.numpy(uf, *args, **(dict(out=(f[0],)) if inplace else {}))
    V.ensure('one operation on the reference functions', len(calls) == 1)
    V.ensure('operands in order', len(calls[0][0]) == 2 and all(x is y or (T.is_scalar(x) and T.is_scalar(y) and T.eq(x, y) is True) for x, y in zip(calls[0][0], want)))
    if inplace:
        o = calls[0][1].get('out')
        V.ensure('into the left reference function', o is not None and (o[0] if isinstance(o, tuple) else o) is f[1])
        V.ensure('returns the left operand', r is f[0])
    else:
        V.ensure('no output argument', not calls[0][1].get('out'))
        V.ensure('result holds the new reference function', V.attr(r, 'onefun') is res)
    d = V.attr(r, 'domain')
    V.ensure_array('domain kept', d, (2,), lambda i: T.ite(T.eq(i, 0), a, b))


# ------------------------------------------------------------------ calculus on [a, b]
@contract('funpy.fun.diff', 'C02', uses=(CT + '.happy',))
def fun_diff(V):
    """derivative of order k: the one of the reference function divided by ((b-a)/2)^k"""
    f, t, c, n, m, (a, b) = fun(V, 'f')
    k = V.choose(0, 1, 2, 3)
    got = []
    D = V.arr('D', (n, m))

    def d(I, g, n=1, axis=0):
        got.append((g, n, axis))
        return V.new(CT, coeffs=A.view(I.ctx, D, (slice(None), slice(None))) if False else A.new(I.ctx, D.shape, lambda i, j: D.elem(i, j), 'f'),
                     eps=V.attr(t, 'eps'), hscale=V.attr(t, 'hscale'), maxLength=V.attr(t, 'maxLength'), ishappy=True)
    V.stub('funpy.cheb.chebtech.diff', d, 'funpy.cheb.chebtech.diff')
    quiet(V)
    fz = freeze_obj(V, t)
    r = V.numpy('diff', f, n=k)
    V.ensure('derivative of the reference function', len(got) == 1 and got[0][0] is t)
    V.ensure('same order', T.eq(got[0][1], k))
    h = T.div(T.sub(b, a), 2)
    p = F1
    for _ in range(k):
        p = T.mul(p, h)
    V.ensure_array('chain rule', V.attr(V.attr(r, 'onefun'), 'coeffs'), (n, m), lambda i, j: T.div(D.elem(i, j), p))
    V.ensure_array('domain kept', V.attr(r, 'domain'), (2,), lambda i: T.ite(T.eq(i, 0), a, b))
    ensure_obj_frozen(V, 'operand unchanged', fz)


def quiet(V):
    V.stub(DT + 'simplify_coeffs', lambda I, c, eps=None, **k: c, DT + 'simplify_coeffs')
    V.stub(DT + 'prolong', c_prolong, DT + 'prolong')


@contract('funpy.fun.cumsum', 'C02', uses=(CT + '.happy',))
def fun_cumsum(V):
    """antiderivative: the one of the reference function times (b-a)/2"""
    f, t, c, n, m, (a, b) = fun(V, 'f')
    D = V.arr('D', (n, m))
    got = []

    def cs(I, g, **k):
        got.append(g)
        return V.new(CT, coeffs=A.new(I.ctx, D.shape, lambda i, j: D.elem(i, j), 'f'), eps=V.attr(t, 'eps'), hscale=V.attr(t, 'hscale'), maxLength=V.attr(t, 'maxLength'), ishappy=True)
    V.stub('funpy.cheb.chebtech.cumsum', cs, 'funpy.cheb.chebtech.cumsum')
    quiet(V)
    fz = freeze_obj(V, t)
    r = V.numpy('cumsum', f)
    V.ensure('of the reference function', len(got) == 1 and got[0] is t)
    V.ensure_array('scaled', V.attr(V.attr(r, 'onefun'), 'coeffs'), (n, m), lambda i, j: T.mul(D.elem(i, j), T.div(T.sub(b, a), 2)))
    V.ensure_array('domain kept', V.attr(r, 'domain'), (2,), lambda i: T.ite(T.eq(i, 0), a, b))
    ensure_obj_frozen(V, 'operand unchanged', fz)


@contract('funpy.fun.sum', 'C02')
def fun_sum(V):
    """integral over [a, b]: the one of the reference function times (b-a)/2, per column"""
    f, t, c, n, m, (a, b) = fun(V, 'f')
    V.assume(T.gt(m, 1))
    D = V.arr('D', (m,))
    V.stub('funpy.cheb.chebtech.sum', lambda I, g, **k: A.new(I.ctx, (m,), lambda j: D.elem(j), 'f'), 'funpy.cheb.chebtech.sum')
    r = V.numpy('sum', f)
    V.ensure_array('scaled', r, (m,), lambda j: T.mul(D.elem(j), T.div(T.sub(b, a), 2)))


@contract('funpy.fun.inner', 'C02')
def fun_inner(V):
    """inner products on [a, b]: those of the reference functions times (b-a)/2"""
    a, b = interval(V, 'd')
    f, g = fun(V, 'f', a, b), fun(V, 'g', a, b)
    which = V.choose('inner', 'dot', 'innerw')
    D = V.arr('D', (f[4], g[4]))
    V.assume(T.gt(f[4], 1))
    V.assume(T.gt(g[4], 1))
    s = V.real('s')
    got = []

    def ip(I, x, y, **k):
        got.append((x, y))
        return s if which == 'dot' else A.new(I.ctx, D.shape, lambda i, j: D.elem(i, j), 'f')
    for nm in ('inner', 'dot', 'innerw'):
        V.stub('funpy.cheb.chebtech.' + nm, ip)
    r = V.call('funpy.fun.innerw', f[0], g[0]) if which == 'innerw' else V.numpy(which, f[0], g[0])
    V.ensure('of the reference functions', len(got) == 1 and got[0][0] is f[1] and got[0][1] is g[1])
    h = T.div(T.sub(b, a), 2)
    if which == 'dot':
        V.ensure('scaled', T.eq(r.elem(*[0] * r.ndim) if isinstance(r, Arr) else r, T.mul(s, h)))
    else:
        V.ensure_array('scaled', r, D.shape, lambda i, j: T.mul(D.elem(i, j), h))
