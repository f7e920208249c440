"""Specification vocabulary shared by the contracts."""
from fractions import Fraction
import z3

from pyvc import terms as T
from pyvc import arrays as A
from pyvc.arrays import Arr, PyRaise
from pyvc.terms import Cx, Unsupported
from pyvc.verify import contract, CONTRACTS, Contract, V
from pyvc.ctx import PathDone, Infeasible
from pyvc.interp import SymFun, Obj

F0, F1 = Fraction(0), Fraction(1)


# ------------------------------------------------------------------ Chebyshev polynomials
def chebT(ctx):
    """T(k, x): first kind, by the three term recurrence"""
    f = ctx.func('T', 'if', 'f')
    if 'T' not in ctx.schemas:
        def ax(args):
            k, x = args
            return [z3.Implies(k == 0, f(k, x) == 1), z3.Implies(k == 1, f(k, x) == x),
                    z3.Implies(k >= 2, f(k, x) == 2 * x * f(k - 1, x) - f(k - 2, x))]
        ctx.schema(f, ax)
    return lambda k, x: f(T.to_z3(k), T.to_z3(T.to_real(x)))


def parity(ctx):
    """sgn(k) = (-1)**k"""
    return lambda k: T.ite(T.eq(T.mod(k, 2), 0), F1, -F1)


def series(ctx, c, n, x, col=None):
    """sum_{k<n} c[k(,col)] T_k(x)"""
    t = chebT(ctx)
    return ctx.Sum(0, T.sub(n, 1), lambda k: T.mul(c(k) if col is None else c(k, col), t(k, x)))


def assumed(ctx, text):
    s = ctx.__dict__.setdefault('assumed', set())
    s.add(text)


def roles(env, spec):
    """role -> variable of the loop's frame"""
    return spec


CT = 'funpy.cheb.chebtech.chebtech'
DT = 'funpy.cheb.detail.'


def tech(V, name, n=None, m=None, happy=None, kind='f', cls=CT, **extra):
    """an arbitrary Chebyshev function object"""
    n = V.int(name + '.n', 1) if n is None else n
    m = V.int(name + '.m', 1) if m is None else m
    c = V.arr(name + '.c', (n, m), kind)
    f = V.new(cls, coeffs=c, eps=V.real(name + '.eps', Fraction(1, 10 ** 17), Fraction(1, 10)),
              hscale=V.real(name + '.hscale', Fraction(1, 10 ** 6)), maxLength=V.int(name + '.maxLength', 17),
              ishappy=V.bool(name + '.happy') if happy is None else happy, **extra)
    return f, c, n, m


def freeze_obj(V, o):
    """snapshot of every field"""
    out = {}
    for k, v in o.fields.items():
        out[k] = (v, V.freeze(v) if isinstance(v, Arr) else None)
    return o, out


def ensure_obj_frozen(V, name, fz, value_only=False):
    """no observable change: same fields, arrays with the same entries"""
    o, d = fz
    for k, (v, f) in d.items():
        w = o.fields.get(k)
        if isinstance(v, Arr):
            if not isinstance(w, Arr):
                V.ensure('%s: .%s' % (name, k), False)
                continue
            a, s, sh, buf = f
            if w is a and a.buf.fn is s:
                V.ensure('%s: .%s' % (name, k), True, 'frame')
                continue
            if not V.ensure_shape('%s: .%s shape' % (name, k), w, sh):
                continue
            V.ensure_all('%s: .%s' % (name, k), sh, lambda *i: T.eq(w.elem(*i), s(*i)))
        elif T.is_scalar(v):
            V.ensure('%s: .%s' % (name, k), T.eq(w, v) if T.is_scalar(w) else False, 'frame')
        else:
            V.ensure('%s: .%s' % (name, k), w is v or w == v, 'frame')


def fresh_buf(V, name, a, *others):
    """a's storage is not shared with any of the other arrays"""
    V.ensure(name, isinstance(a, Arr) and all(a.buf is not o.buf for o in others) and not a.buf.shared, 'ownership')


# ------------------------------------------------------------------ contracts of compiled helpers, as seen by callers
def c_prolong(I, array, Nout):
    n, m = array.shape
    s = array.snap()
    N = Nout if I.ctx.prove(T.ge(Nout, 0)) else T.maxv(Nout, 0)
    if I.ctx.prove(T.eq(Nout, n)):
        return array
    if I.ctx.prove(T.lt(Nout, n)):
        return A.view(I.ctx, array, (slice(0, N), slice(None)))
    return A.new(I.ctx, (N, m), lambda i, j: T.ite(T.lt(i, n), s(i, j), F0), 'f')


def lead(I, coeffs, tag='simp'):
    """leading part of the coefficients, fresh length"""
    ctx = I.ctx
    n, m = coeffs.shape
    L = ctx.fresh(tag, 'int')
    ctx.assume(L >= 1)
    ctx.assume(T.to_z3(T.le(L, n)))
    s = coeffs.snap()
    r = A.new(ctx, (L, m), lambda i, j: s(i, j), coeffs.kind)
    ctx.__dict__.setdefault('simplified', []).append((r, s, L, n))
    return r


def c_lval(I, f):
    c = I.np.getattr(f, 'coeffs')
    s, (n, m) = c.snap(), c.shape
    sg = parity(I.ctx)
    return A.new(I.ctx, (m,), lambda j: I.ctx.Sum(0, T.sub(n, 1), lambda k: T.mul(sg(k), s(k, j))), 'f')


def c_simplify(I, coeffs, eps=None, **kw):
    return lead(I, coeffs)


def c_happiness(I, coeffs, tol, minimum=17):
    c = I.ctx.fresh('cut', 'int')
    I.ctx.assume(c >= 0)
    return (I.ctx.fresh('happy', 'bool'), c)


# ------------------------------------------------------------------ happiness, simplification
DCT_INV = 'discrete cosine transform (type I) pair: polyfit(polyval(c)) = c in exact arithmetic (orthogonality of the cosines on the Chebyshev grid; standard mathematics, not proved here)'


def pair_hooks():
    """polyval / polyfit seen by callers: values remember the coefficients they are the values of"""
    def polyval(I, c, workers=1):
        from .cheb import a_polyval
        r = a_polyval(I, c, workers)
        r.buf.pv = (r.buf.fn, c.snap(), c.shape)
        return r

    def polyfit(I, v, workers=1):
        pv = getattr(v.buf, 'pv', None)
        if pv is None or pv[0] is not v.buf.fn or not v.whole:
            raise Unsupported('polyfit of values that are not the values of a known series')
        assumed(I.ctx, DCT_INV)
        s = pv[1]
        return A.new(I.ctx, pv[2], lambda i, j: s(i, j), 'f')
    return polyval, polyfit


def column_of(ctx, a):
    """(buffer, column term) of a one dimensional view of a column"""
    b = a.fwd(z3.Int('_q'))
    if len(b) != 2:
        raise Unsupported('not a column')
    return a.buf, b[1]


def chop_hook(V, CH, want, length, tolk):
    """standardChop as seen by its callers: column k gives CH(k) in 0..len; what is passed is checked"""
    def h(I, coeffs, tol, minimum=17):
        ctx = I.ctx
        if coeffs.ndim != 1:
            raise Unsupported('standardChop of a matrix')
        _, k = column_of(ctx, coeffs)
        ctx.oblige(T.eq(coeffs.shape[0], length), 'standardChop gets a whole column', 'call')
        i = ctx.fresh('row', 'int')
        ctx.oblige(T.implies(T.land(T.le(0, i), T.lt(i, length)), T.eq(coeffs.elem(i), want(i, k))),
                   'standardChop gets the coefficients of the column', 'call')
        ctx.oblige(T.eq(tol, tolk(k)), 'standardChop gets the tolerance of the column', 'call')
        r = CH(T.to_z3(k))
        ctx.assume(z3.And(r >= 0, r <= T.to_z3(length)))
        return r
    return h


def max_schema(ctx, CH, name='M'):
    """M(k) = max(0, CH(0), ..., CH(k-1))"""
    M = ctx.func(name, 'i', 'i')
    ctx.schema(M, lambda a: [z3.Implies(a[0] <= 0, M(a[0]) == 0),
                             z3.Implies(a[0] > 0, M(a[0]) == z3.If(CH(a[0] - 1) > M(a[0] - 1), CH(a[0] - 1), M(a[0] - 1)))])
    return M
