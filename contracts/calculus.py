from .lib import *
from .cheb import a_polyval
import ast

SIMPL = {}


def quiet_simplify(V):
    """simplify_coeffs seen by its callers: the leading part of the coefficients (its contract)"""
    V.stub(DT + 'simplify_coeffs', c_simplify, DT + 'simplify_coeffs')
    V.stub(DT + 'prolong', c_prolong, DT + 'prolong')


@contract('funpy.cheb.diff.computeDerCoeffs', 'C02')
def computeDerCoeffs(V):
    """coefficients b of the derivative: 2 b_0 - b_2 = 2 c_1, b_{k-1} - b_{k+1} = 2 k c_k (k >= 2), one entry shorter; operand unchanged"""
    n, m = V.int('n', 2), V.int('m', 1)
    c = V.arr('c', (n, m))
    fz = V.freeze(c)
    b = V.call('funpy.cheb.diff.computeDerCoeffs', c)
    if not V.ensure_shape('one coefficient fewer', b, (n - 1, m)):
        return
    B = lambda k, j: T.ite(T.lt(k, n - 1), b.elem(k, j), F0)
    V.ensure_all('recurrence of the derivative', (n - 2, m), lambda q, j: T.eq(T.sub(B(T.add(q, 1), j), B(T.add(q, 3), j)), T.mul(2, T.mul(T.to_real(T.add(q, 2)), c.elem(T.add(q, 2), j)))))
    V.ensure_all('recurrence at the constant term', (m,), lambda j: T.eq(T.sub(T.mul(2, B(0, j)), B(2, j)), T.mul(2, c.elem(1, j))))
    V.ensure_frozen('operand unchanged', fz)


@contract('funpy.cheb.chebtech.sum', 'C02')
def cheb_sum(V):
    """2 c_0 + sum over even k of 2 c_k / (1 - k^2): the integral of the series over [-1, 1]"""
    f, c, n, m = tech(V, 'f')
    V.assume(T.eq(n, 1) if V.choose(0, 1) else T.gt(n, 1))
    V.assume(T.eq(m, 1) if V.choose(0, 1) else T.gt(m, 1))
    fz = freeze_obj(V, f)
    r = V.numpy('sum', f)
    w = lambda k: T.ite(T.eq(T.mod(k, 2), 0), T.div(F1 * 2, T.sub(F1, T.mul(T.to_real(k), T.to_real(k)))), F0)
    el = (lambda j: r.elem(j)) if isinstance(r, Arr) and r.ndim == 1 else (lambda j: r.elem(0, j)) if isinstance(r, Arr) and r.ndim == 2 else (lambda j: r.elem()) if isinstance(r, Arr) else (lambda j: r)
    V.ensure_all('integral of the series', (m,), lambda j: T.eq(el(j), V.ctx.Sum(0, T.sub(n, 1), lambda k: T.mul(w(k), c.elem(k, j)))))
    ensure_obj_frozen(V, 'operand unchanged', fz)


@contract('funpy.cheb.chebtech.cumsum', 'C02', uses=(CT + '.happy',))
def cheb_cumsum(V):
    """antiderivative: b_1 = c_0 - c_2/2, b_k = (c_{k-1} - c_{k+1}) / (2k), alternating sum zero (value at -1); operand unchanged"""
    f, c, n, m = tech(V, 'f', happy=V.choose(True, False))
    quiet_simplify(V)
    V.stub(CT + '.lval', c_lval, CT + '.lval')
    fz = freeze_obj(V, f)
    r = V.numpy('cumsum', f)
    b = V.attr(r, 'coeffs')
    L = b.shape[0]
    V.ensure('length at least one and at most n + 1', T.land(T.ge(L, 1), T.le(L, T.add(n, 1))))
    C = lambda k, j: T.ite(T.lt(k, n), c.elem(k, j), F0)
    V.ensure_all('coefficients of the antiderivative', (T.sub(L, 2), m), lambda q, j: T.eq(T.mul(T.mul(2, T.to_real(T.add(q, 2))), b.elem(T.add(q, 2), j)), T.sub(C(T.add(q, 1), j), C(T.add(q, 3), j))))
    V.ensure_all('linear coefficient', (m,), lambda j: T.implies(T.gt(L, 1), T.eq(b.elem(1, j), T.sub(C(0, j), T.div(C(2, j), 2)))))
    sg = parity(V.ctx)
    V.ensure_all('vanishes at the left end', (m,), lambda j: T.eq(V.ctx.Sum(0, T.sub(L, 1), lambda k: T.mul(sg(k), b.elem(k, j))), F0))
    fresh_buf(V, 'own storage', b, c)
    V.ensure('same class', V.attr(r, 'eps') is V.attr(f, 'eps') or T.eq(V.attr(r, 'eps'), V.attr(f, 'eps')))
    ensure_obj_frozen(V, 'operand unchanged', fz)


def diff_inv(I, fr, st, ordn, loops):
    """after k rounds of the loop the coefficients are those of derivative number (derivatives before the loop) + k"""
    if not isinstance(st, ast.For):
        return None
    from pyvc.interp import assigned_names
    sp = I.verifying.state

    def prov(env):
        out = []
        for nm in assigned_names(st.body):
            v = env.fr.vars.get(nm)
            if isinstance(v, Arr) and v.ndim == 2:
                if 'q0' not in sp:
                    sp['q0'], sp['len0'] = sp['count'](I, v), v.shape[0]
                q = T.add(sp['q0'], env.k)
                sp.setdefault('hvs', []).append((v, q))
                out.append(('length after the rounds so far', T.eq(v.shape[0], T.sub(sp['len0'], env.k))))
                out.append(('derivative after the rounds so far', lambda i, j, v=v, q=q: T.eq(v.elem(i, j), sp['D'](T.to_z3(q), T.to_z3(i), T.to_z3(j))), v.shape))
        return out
    return prov


@contract('funpy.cheb.chebtech.diff', 'C02', uses=(CT + '.happy',), inv={'funpy.cheb.chebtech.diff': diff_inv})
def cheb_diff(V):
    """the recurrence of the derivative is applied exactly order times to the (simplified) coefficients; zero beyond the degree; operand unchanged"""
    f, c, n, m = tech(V, 'f')
    quiet_simplify(V)
    order = V.int('order', 0)
    fz = freeze_obj(V, f)
    ctx = V.ctx
    ctx.napp = []
    D = ctx.func('D', 'iii', 'f')         # D(q, k, j): coefficient k of the q-th derivative of the simplified function

    cs = c.snap()
    ctx.schema(D, lambda a: [z3.Implies(a[0] == 0, D(*a) == T.to_z3(cs(a[1], a[2])))])

    def der(I, a):
        """contract of computeDerCoeffs, one step further"""
        if a.ndim != 2:
            raise Unsupported('vector')
        q = I.verifying.state['count'](I, a)
        N, M = a.shape
        I.ctx.oblige(T.ge(N, 2), 'computeDerCoeffs gets at least two coefficients', 'call')
        return A.new(I.ctx, (T.sub(N, 1), M), lambda i, j: D(T.to_z3(T.add(q, 1)), T.to_z3(i), T.to_z3(j)), 'f')

    def count(I, a):
        """which derivative is this"""
        i, j = I.ctx.fresh('ci', 'int'), I.ctx.fresh('cj', 'int')
        e = a.elem(i, j)
        simp = I.ctx.__dict__.get('simplified', [])
        if simp and a.buf.fn is simp[-1][0].buf.fn:
            return 0
        for s in z3_apps(e, 'D'):
            return T.fold(s.arg(0))
        for (b, q) in I.verifying.state.setdefault('hvs', []):
            if a is b:
                return q
        if I.ctx.quiet:
            return I.ctx.fresh('q', 'int')
        raise Unsupported('derivative of something else')
    V.c.state = dict(count=count, D=D, order=order)
    V.stub('funpy.cheb.diff.computeDerCoeffs', der, 'funpy.cheb.diff.computeDerCoeffs')
    r = V.numpy('diff', f, n=order)
    b = V.attr(r, 'coeffs')
    simp = ctx.__dict__.get('simplified', [])
    V.ensure('coefficients are simplified once', len(simp) == 1)
    L = simp[0][2]
    V.ensure_shape('length', b, (b.shape[0], m))
    V.ensure('length after differentiating', T.implies(T.lt(order, L), T.eq(b.shape[0], T.sub(L, order))))
    V.ensure_all('derivative of the requested order', b.shape, lambda k, j: T.ite(T.lt(order, L), T.eq(b.elem(k, j), D(T.to_z3(order), T.to_z3(k), T.to_z3(j))), T.eq(b.elem(k, j), F0)))
    fresh_buf(V, 'own storage', b, c)
    ensure_obj_frozen(V, 'operand unchanged', fz)


def z3_apps(e, name):
    from pyvc.ctx import subterms
    return [s for s in subterms([e]) if z3.is_app(s) and s.decl().name() == name]


@contract('funpy.cheb.chebtech.inner', 'C02', uses=(DT + 'polyval',))
def cheb_inner(V):
    """entry (i, j): quadrature with n1 + n2 nodes applied to the product of the values of column i and column j; operands unchanged"""
    f, c, n1, m1 = tech(V, 'f')
    g, d, n2, m2 = tech(V, 'g')
    V.assume(T.gt(m1, 1))
    V.assume(T.gt(m2, 1))
    V.stub(DT + 'prolong', c_prolong, DT + 'prolong')
    W = V.ctx.func('W', 'ii', 'f')
    V.stub('funpy.cheb.pts.quadwts', lambda I, n: A.new(I.ctx, (n,), lambda i: W(T.to_z3(n), T.to_z3(i)), 'f'))
    ff, fg = freeze_obj(V, f), freeze_obj(V, g)
    cs, ds = c.snap(), d.snap()
    r = V.numpy('inner', f, g)
    from pyvc.nplib import costab
    C = costab(V.ctx)
    N = T.add(n1, n2)

    def val(s, n, i, j):
        return V.ctx.Sum(0, T.sub(N, 1), lambda k: T.mul(T.ite(T.lt(k, n), s(k, j), F0), C(k, T.sub(T.sub(N, 1), i), T.sub(N, 1))))
    want = lambda i, j: V.ctx.Sum(0, T.sub(N, 1), lambda q: T.mul(T.mul(val(cs, n1, q, i), W(T.to_z3(N), T.to_z3(q))), val(ds, n2, q, j)))
    V.ensure_shape('shape', r, (m1, m2))
    eq = V.ctx.prove(T.eq(n1, n2)) and V.ctx.prove(T.eq(m1, m2))
    V.ensure_all('quadrature of the product', (m1, m2), lambda i, j: T.implies(T.ne(i, j), T.eq(r.elem(i, j), want(i, j))))
    V.ensure_all('quadrature of the product, diagonal', (T.minv(m1, m2),), lambda i: (lambda x, w: T.lor(T.eq(x, w), T.eq(x, V.ctx.absv(w))))(r.elem(i, i), want(i, i)))
    0 and V.ensure_all('', (m1, m2), lambda i, j: T.lor(T.eq(r.elem(i, j), want(i, j)), T.land(T.eq(i, j), T.eq(r.elem(i, j), V.ctx.absv(want(i, j))))))
    ensure_obj_frozen(V, 'left operand unchanged', ff)
    ensure_obj_frozen(V, 'right operand unchanged', fg)


def same_fields(V, r, f, names=('eps', 'hscale', 'maxLength')):
    for k in names:
        V.ensure('.%s carried over' % k, T.eq(V.attr(r, k), V.attr(f, k)))


@contract('funpy.cheb.chebtech.copy', ('C03', 'C18'), uses=(CT + '.happy',))
def cheb_copy(V):
    """np.copy: same coefficients, own storage, same attributes"""
    f, c, n, m = tech(V, 'f')
    fz = freeze_obj(V, f)
    r = V.numpy('copy', f)
    V.ensure_array('coefficients', V.attr(r, 'coeffs'), (n, m), lambda i, j: c.elem(i, j))
    fresh_buf(V, 'own storage', V.attr(r, 'coeffs'), c)
    same_fields(V, r, f)
    ensure_obj_frozen(V, 'operand unchanged', fz)


@contract('funpy.cheb.chebtech.hstack', 'C03', uses=(CT + '.happy',))
def cheb_hstack(V):
    """columns of the first, then columns of the second, padded with zeros to the longer length; operands unchanged"""
    f, c, n1, m1 = tech(V, 'f')
    g, d, n2, m2 = tech(V, 'g')
    V.stub(DT + 'prolong', c_prolong, DT + 'prolong')
    ff, fg = freeze_obj(V, f), freeze_obj(V, g)
    cs, ds = c.snap(), d.snap()
    r = V.numpy('hstack', [f, g])
    N = T.maxv(n1, n2)
    V.ensure_array('columns side by side', V.attr(r, 'coeffs'), (N, T.add(m1, m2)),
                   lambda k, j: T.ite(T.lt(j, m1), T.ite(T.lt(k, n1), cs(k, j), F0), T.ite(T.lt(k, n2), ds(k, T.sub(j, m1)), F0)))
    ensure_obj_frozen(V, 'first operand unchanged', ff)
    ensure_obj_frozen(V, 'second operand unchanged', fg)
