from .lib import *
from . import cheb  # noqa: F401
from .calculus import quiet_simplify

UF = 'funpy.cheb.ufuncs.'
BASE = (CT + '.happy',)


def pad(V, c, n):
    return lambda i, j: T.ite(T.lt(i, n), c(i, j), F0)


def out_of(r, f):
    return V_.attr(r, 'coeffs')


def coeffs(V, r):
    c = V.attr(r, 'coeffs')
    return c if isinstance(c, Arr) else None


def meta(V, r, fs, name='result'):
    """tolerance of the result is the largest of the operands' and a happy result has happy operands"""
    e = V.attr(r, 'eps')
    w = V.attr(fs[0], 'eps')
    for g in fs[1:]:
        w = T.maxv(w, V.attr(g, 'eps'))
    V.ensure('%s: tolerance' % name, T.eq(e, w))


def init_stub(V, calls, cls=CT):
    """constructor from an operation: what is sampled is recorded; the object is arbitrary"""
    def init(I, self, *a, **kw):
        if 'coeffs' in kw or 'values' in kw:
            raise Unsupported('constructor with data')
        m = I.ctx.fresh('res.m', 'int')
        n = I.ctx.fresh('res.n', 'int')
        I.ctx.assume(z3.And(m >= 1, n >= 1))
        c = A.symbolic(I.ctx, 'res.c', (n, m), 'f')
        self.fields.update(coeffs=c, eps=kw.get('eps', Fraction(1, 2 ** 52)), hscale=I.ctx.fresh('res.hscale', 'real'),
                           maxLength=kw.get('maxLength', 65536), ishappy=I.ctx.fresh('res.happy', 'bool'))
        calls.append((self, a[0] if a else kw.get('op'), kw, c))
    V.stub(cls + '.__init__', init)


def feval_stub(V, cls=CT):
    """values of functions at points: one unknown function of the point per object and column"""
    fns = {}

    def feval(I, f, x):
        F = fns.setdefault(id(f), I.ctx.func('val%d' % len(fns), 'fi', 'f'))
        fns[('keep', id(f))] = f
        m = f.fields['coeffs'].shape[1]
        xs = x.snap() if isinstance(x, Arr) else None
        if xs is None:
            raise Unsupported('scalar point')
        return A.new(I.ctx, (x.shape[0], m), lambda i, j: F(T.to_z3(T.to_real(xs(i))), T.to_z3(j)), 'f')
    V.stub(cls + '.feval', feval, cls + '.feval' if cls == CT else None)
    V.stub(cls + '.__call__', feval, cls + '.feval' if cls == CT else None)
    return lambda f: fns.get(id(f))


@contract(UF + 'negative', 'C03', uses=BASE)
def negative(V):
    """-f has the negated coefficients; f unchanged, storage separate, tolerance kept"""
    f, c, n, m = tech(V, 'f')
    fz = freeze_obj(V, f)
    r = V.numpy('negative', f)
    V.ensure_array('negated', V.attr(r, 'coeffs'), (n, m), lambda i, j: T.neg(c.elem(i, j)))
    meta(V, r, [f])
    fresh_buf(V, 'own storage', V.attr(r, 'coeffs'), c)
    ensure_obj_frozen(V, 'operand unchanged', fz)


def number_case(V, m):
    """a number or an array with one number per column: (object, value in column j)"""
    k = V.choose('number', 'integer', 'array')
    if k == 'number':
        s = V.real('s')
        return s, lambda j: s
    if k == 'integer':
        s = V.int('s')
        return s, lambda j: T.to_real(s)
    a = V.arr('s', (m,))
    V.assume(T.gt(m, 1))
    return a, lambda j: a.elem(j)


def finish(V, r, f, inplace, fz, c, what, want, n, m):
    cc = V.attr(r, 'coeffs')
    V.ensure_array(what, cc, (n, m), want)
    if inplace:
        V.ensure('returns the left operand', r is f)
    else:
        fresh_buf(V, 'own storage', cc, c)
        ensure_obj_frozen(V, 'operand unchanged', fz)
    return cc


@contract(UF + 'add#number', 'C03', uses=BASE)
def add_number(V):
    """f + s, s + f, f += s: s is added to the constant coefficient of its column, nothing else changes"""
    f, c, n, m = tech(V, 'f')
    s, sv = number_case(V, m)
    form = V.choose('f+s', 's+f', 'in place')
    cs = c.snap()
    fz = freeze_obj(V, f)
    op = V.choose('add', 'subtract') if form == 'f+s' and not isinstance(s, Arr) else 'add'
    r = V.numpy(op, *((s, f) if form == 's+f' else (f, s)), **(dict(out=(f,)) if form == 'in place' else {}))
    sg = -1 if op == 'subtract' else 1
    finish(V, r, f, form == 'in place', fz, c, 'constant coefficient', lambda i, j: T.add(cs(i, j), T.ite(T.eq(i, 0), T.mul(sg, sv(j)), F0)), n, m)
    meta(V, r, [f])


@contract(UF + 'add', 'C03', uses=BASE + (DT + 'polyval',))
def add_fun(V):
    """f + g and f += g have the sum of the padded coefficients, unless all of them are below the tolerance; operands other
    than the left one of += unchanged"""
    f, c, n, m = tech(V, 'f')
    g, d, k, _ = tech(V, 'g', m=m)
    V.stub(DT + 'prolong', c_prolong, DT + 'prolong')
    inplace = V.choose(False, True)
    sub = V.choose(False, True) if not inplace else False
    cs, ds = c.snap(), d.snap()
    fz, gz = freeze_obj(V, f), freeze_obj(V, g)
    vf, vg = V.arr('vs.f', (m,)), V.arr('vs.g', (m,))
    V.stub(CT + '.vscl', lambda I, s: vf if s is f else vg)     # vscl(-g) = vscl(g)
    r = V.numpy('subtract' if sub else 'add', f, g, **(dict(out=(f,)) if inplace else {}))
    cc = V.attr(r, 'coeffs')
    L = T.maxv(n, k)
    P, Q = pad(V, cs, n), pad(V, ds, k)
    sm = lambda i, j: T.sub(P(i, j), Q(i, j)) if sub else T.add(P(i, j), Q(i, j))
    if not isinstance(cc, Arr) or len(cc.shape) != 2:
        V.ensure('coefficient array', False)
        return
    V.ensure('columns', T.eq(cc.shape[1], m))
    if V.ctx.prove(T.eq(cc.shape[0], L)):
        V.ensure_array('sum of the coefficients', cc, (L, m), sm)
    else:
        # the zero function, only when every coefficient of the sum is negligible
        V.ensure('length of the sum or of the zero function', T.lor(T.eq(cc.shape[0], L), T.eq(cc.shape[0], 1)))
        V.ensure_all('zero function', cc.shape, lambda i, j: T.lor(T.eq(cc.elem(i, j), F0), T.eq(cc.elem(i, j), sm(i, j))))
        e = T.maxv(V.attr(f, 'eps'), V.attr(g, 'eps'))
        mx = V.ctx.extremum('max', m, lambda j: T.maxv(vf.elem(j), vg.elem(j)))
        V.ensure_all('only negligible sums are dropped', (L, m), lambda i, j: T.lor(T.eq(cc.shape[0], L), T.le(V.ctx.absv(sm(i, j)), T.mul(e, mx))))
    if inplace:
        V.ensure('returns the left operand', r is f)
        ensure_obj_frozen(V, 'right operand unchanged', gz)
        V.ensure('right operand keeps its storage', V.attr(r, 'coeffs').buf is not d.buf, 'ownership')
    else:
        fresh_buf(V, 'own storage', cc, c, d)
        ensure_obj_frozen(V, 'left operand unchanged', fz)
        ensure_obj_frozen(V, 'right operand unchanged', gz)
        meta(V, r, [f, g])


@contract(UF + 'multiply#number', 'C03', uses=BASE)
def mul_number(V):
    """f * s, s * f, f *= s scale every coefficient of the column"""
    f, c, n, m = tech(V, 'f')
    s, sv = number_case(V, m)
    if isinstance(s, Arr):
        s = A.view(V.ctx, s, (None, slice(None)))
    form = V.choose('f*s', 's*f', 'in place')
    cs = c.snap()
    fz = freeze_obj(V, f)
    r = V.numpy('multiply', *((s, f) if form == 's*f' else (f, s)), **(dict(out=(f,)) if form == 'in place' else {}))
    finish(V, r, f, form == 'in place', fz, c, 'scaled', lambda i, j: T.mul(cs(i, j), sv(j)), n, m)
    meta(V, r, [f])


@contract(UF + 'multiply#constant', 'C03', uses=BASE)
def mul_const(V):
    """a factor with one coefficient scales the other one column by column"""
    f, c, n, m = tech(V, 'f')
    g, d, _, _ = tech(V, 'g', n=1, m=m)
    V.assume(T.gt(m, 1) if V.choose(0, 1) else T.eq(m, 1))
    order = V.choose(0, 1)
    fz, gz = freeze_obj(V, f), freeze_obj(V, g)
    r = V.numpy('multiply', *((f, g) if order else (g, f)))
    V.ensure_array('scaled', V.attr(r, 'coeffs'), (n, m), lambda i, j: T.mul(c.elem(i, j), d.elem(0, j)))
    fresh_buf(V, 'own storage', V.attr(r, 'coeffs'), c, d)
    ensure_obj_frozen(V, 'left operand unchanged', fz)
    ensure_obj_frozen(V, 'right operand unchanged', gz)


@contract(UF + 'coeff_times_main', 'C03')
def times(V):
    """product of two series: coefficient k is 1/4 of the k-th and (N-k)-th entry of the circular convolution of the even
    extensions of the zero padded coefficients, N = 2 (n + k) - 3; the flag is set only for squares. Operands unchanged"""
    n, k, m = V.int('n', 1), V.int('k', 1), V.int('m', 1)
    f, g = V.arr('f', (n, m)), V.arr('g', (k, m))
    ff, fg = V.freeze(f), V.freeze(g)
    r = V.call(UF + 'coeff_times_main', f, g)
    V.ensure('returns (coefficients, flag)', isinstance(r, tuple) and len(r) == 2)
    h, pos = r
    L = T.sub(T.add(n, k), 1)
    N = T.sub(T.mul(2, L), 1)

    def ext(c, q):
        P = pad(V, c.snap(), q)
        return lambda l, j: T.ite(T.eq(l, 0), T.mul(2, P(0, j)), T.ite(T.lt(l, L), P(l, j), P(T.sub(N, l), j)))
    a, b = ext(f, n), ext(g, k)

    def conv(q, j):
        w = lambda l: T.ite(T.lt(T.sub(q, l), 0), T.add(T.sub(q, l), N), T.sub(q, l))
        return V.ctx.Sum(0, T.sub(N, 1), lambda l: T.mul(a(l, j), b(w(l), j)))
    V.ensure_shape('length', h, (L, m))
    V.ensure_all('constant coefficient', (m,), lambda j: T.eq(T.mul(4, h.elem(0, j)), conv(0, j)))
    V.ensure_all('coefficients', (T.sub(L, 1), m), lambda i, j: T.eq(T.mul(4, h.elem(T.add(i, 1), j)), T.add(conv(T.add(i, 1), j), conv(T.sub(N, T.add(i, 1)), j))))
    P, Q = pad(V, f.snap(), n), pad(V, g.snap(), k)
    flag = pos if T.kind(pos) == 'b' else T.ne(pos, 0)
    V.ensure_all('flag only for squares', (L, m), lambda i, j: T.implies(flag, T.eq(P(i, j), Q(i, j))))
    V.ensure_frozen('left operand unchanged', ff)
    V.ensure_frozen('right operand unchanged', fg)


@contract(UF + 'multiply', 'C03', uses=BASE)
def mul_fun(V):
    """f * g, f *= g: the simplified product of the two series, passed through |.| on the grid only when it is a square"""
    f, c, n, m = tech(V, 'f')
    same = V.choose(False, True)
    g, d, k, _ = (f, c, n, m) if same else tech(V, 'g', m=m)
    V.assume(T.gt(n, 1))
    V.assume(T.gt(k, 1))
    inplace = V.choose(False, True)
    fz, gz = freeze_obj(V, f), freeze_obj(V, g)
    cs, ds = c.snap(), d.snap()
    prod = []
    L = T.sub(T.add(n, k), 1)

    def main(I, a, b):
        ctx = I.ctx
        for x, s, q in ((a, cs, n), (b, ds, k)):
            ctx.oblige(T.eq(x.shape[0], q), 'product of the coefficients of the operands', 'call')
            V.ensure_all('product of the coefficients of the operands', (q, m), lambda i, j: T.eq(x.elem(i, j), s(i, j)))
        H = A.symbolic(ctx, 'prod', (L, m), 'f')
        pos = ctx.fresh('pos', 'bool')
        prod.append((H, pos))
        return (H, pos)
    V.stub(UF + 'coeff_times_main', main, UF + 'coeff_times_main')
    V.stub(DT + 'simplify_coeffs', c_simplify, DT + 'simplify_coeffs')
    absd = []

    def pf(I, v, workers=1):
        absd.append(v)
        return A.symbolic(I.ctx, 'refit', v.shape, 'f')
    V.stub(DT + 'polyval', cheb.a_polyval, DT + 'polyval')
    V.stub(DT + 'polyfit', pf, DT + 'polyfit')
    r = V.numpy('multiply', f, g, **(dict(out=(f,)) if inplace else {}))
    V.ensure('one product', len(prod) == 1)
    H, pos = prod[0]
    cc = V.attr(r, 'coeffs')
    V.ensure('columns', T.eq(cc.shape[1], m))
    V.ensure('length at most the degree of the product', T.land(T.ge(cc.shape[0], 1), T.le(cc.shape[0], L)))
    if absd:
        V.ensure('refit only for squares', pos)
    else:
        V.ensure_all('leading part of the product', cc.shape, lambda i, j: T.eq(cc.elem(i, j), H.elem(i, j)))
    if inplace:
        V.ensure('returns the left operand', r is f)
    else:
        ensure_obj_frozen(V, 'left operand unchanged', fz)
        meta(V, r, [f, g])
    if not same:
        ensure_obj_frozen(V, 'right operand unchanged', gz)
    fresh_buf(V, 'own storage', cc, c, d)


# ------------------------------------------------------------------ division
@contract(UF + 'true_divide#number', 'C03', uses=BASE)
def div_number(V):
    """f / s, f /= s divide every coefficient (s not zero)"""
    f, c, n, m = tech(V, 'f')
    s, sv = number_case(V, m)
    if isinstance(s, Arr):
        V.ctx.forall(m, lambda j: T.ne(s.elem(j), F0))
    else:
        V.assume(T.ne(s, 0))
    inplace = V.choose(False, True)
    cs = c.snap()
    fz = freeze_obj(V, f)
    quiet_simplify(V)
    r = V.numpy('divide', f, s, **(dict(out=(f,)) if inplace else {}))
    cc = V.attr(r, 'coeffs')
    finish(V, r, f, inplace, fz, c, 'divided (leading part)', lambda i, j: T.div(cs(i, j), sv(j)), cc.shape[0], m)
    V.ensure('length', T.land(T.ge(cc.shape[0], 1), T.le(cc.shape[0], n)))
    meta(V, r, [f])


@contract(UF + 'true_divide', 'C03', uses=BASE)
def div_fun(V):
    """f / g, s / f, |f|, f ** s sample exactly the pointwise expression, with the operands' tolerance"""
    f, c, n, m = tech(V, 'f')
    g, d, k, _ = tech(V, 'g', m=m)
    calls = []
    init_stub(V, calls)
    val = feval_stub(V)
    s = V.real('s')
    which = V.choose('f/g', 's/f', 'abs', 'power')
    fz, gz = freeze_obj(V, f), freeze_obj(V, g)
    if which == 'power':
        V.assume(T.ne(s, F1))
    args = {'f/g': ('divide', f, g), 's/f': ('divide', s, f), 'abs': ('absolute', f), 'power': ('power', f, s)}[which]
    r = V.numpy(*args)
    V.ensure('adaptive construction of the result', len(calls) == 1 and r is calls[0][0])
    op = calls[0][1]
    N = V.int('N', 2)
    x = V.arr('x', (N,))
    y = V.call(op, x)
    if not V.ensure_shape('sampled values', y, (N, m)):
        return
    Ff, Fg = val(f), val(g)
    at = lambda F, i, j: F(T.to_z3(x.elem(i)), T.to_z3(j))

    def want(i, j):
        if which == 'f/g':
            return T.div(at(Ff, i, j), at(Fg, i, j))
        if which == 's/f':
            return T.div(s, at(Ff, i, j))
        if which == 'abs':
            return V.ctx.absv(at(Ff, i, j))
        return V.I.np.call('numpy.float_power', (at(Ff, i, j), s), {})
    V.ensure_all('pointwise expression', (N, m), lambda i, j: T.implies(T.land(T.ne(at(Fg, i, j), F0) if Fg is not None else True, T.ne(at(Ff, i, j), F0)), T.eq(y.elem(i, j), want(i, j))))
    kw = calls[0][2]
    V.ensure('tolerance', T.eq(kw.get('eps', -1), T.maxv(V.attr(f, 'eps'), V.attr(g, 'eps')) if which == 'f/g' else V.attr(f, 'eps')))
    ensure_obj_frozen(V, 'left operand unchanged', fz)
    ensure_obj_frozen(V, 'right operand unchanged', gz)
