"""Ultraspherical operators (C10).  Matrices of scipy.sparse are their entries (pyvc/spmodel.py); C^(lam)_k(x) is the ultraspherical
polynomial by its three term recurrence, C^(0) = T."""
from .lib import *
from pyvc.interp import Native
from pyvc.spmodel import Sp

TR, MA = 'funpy.colloc.ultraS.transform.', 'funpy.colloc.ultraS.matrices.'


def entries(V, what, M, shape, e):
    """M is a matrix of this shape with these entries"""
    if not isinstance(M, Sp):
        V.ensure(what + ' is a matrix', False)
        return
    V.ensure(what + ' shape', T.land(*[T.eq(a, b) for a, b in zip(M.shape, shape)]))
    V.ensure_all(what + ' entries', tuple(shape), lambda i, j: T.eq(M.el(i, j), T.to_real(e(i, j))))


def geg(ctx):
    """C(l, k, x): ultraspherical polynomials, l >= 1 by recurrence, l = 0 Chebyshev"""
    f = ctx.func('C', 'iif', 'f')
    t = chebT(ctx)
    if 'C' not in ctx.schemas:
        def ax(a):
            l, k, x = a
            lr, kr = z3.ToReal(l), z3.ToReal(k)
            return [z3.Implies(l == 0, f(l, k, x) == t(k, x)),
                    z3.Implies(z3.And(l >= 1, k < 0), f(l, k, x) == 0), z3.Implies(z3.And(l >= 1, k == 0), f(l, k, x) == 1),
                    z3.Implies(z3.And(l >= 1, k >= 1), f(l, k, x) == (2 * (kr + lr - 1) / kr) * x * f(l, k - 1, x) - ((kr + 2 * lr - 2) / kr) * f(l, k - 2, x))]
        ctx.schema(f, ax)
    return lambda l, k, x: f(T.to_z3(l), T.to_z3(k), T.to_z3(T.to_real(x)))


def diag(lam, i):
    """coefficient of C^(lam+1)_i in C^(lam)_i; C^(lam+1)_(i-2) has minus this"""
    l, k = T.to_real(lam), T.to_real(i)
    return T.ite(T.eq(lam, 0), T.ite(T.eq(i, 0), F1, Fraction(1, 2)), T.div(l, T.add(l, k)))


def convert(lam):
    return lambda i, j: T.ite(T.eq(i, j), diag(lam, i), T.ite(T.eq(j, T.add(i, 2)), T.neg(diag(lam, j)), F0))


def unconvert(lam):
    return lambda i, j: T.ite(T.land(T.ge(j, i), T.eq(T.mod(T.sub(j, i), 2), 0)), T.div(F1, diag(lam, i)), F0)


@contract(TR + 'spconvert', 'C10')
def spconvert(V):
    """column j holds the coefficients of C^(lam)_j in the basis C^(lam+1): lam/(lam+j) on the diagonal, minus that two rows up (lam
    = 0: 1 for j = 0, else 1/2)"""
    n, lam = V.int('n', 1), V.int('lam', 0)
    S = V.call(TR + 'spconvert', n, lam, **fmt(V))
    entries(V, 'conversion', S, (n, n), convert(lam))


@contract(TR + 'spconvert#identity', 'C10')
def spconvert_identity(V):
    """C^(lam)_j = d_j (C^(lam+1)_j - C^(lam+1)_(j-2)), lam >= 1, by induction on j: both sides satisfy the same recurrence"""
    V.get(TR + 'spconvert')
    V.called = True
    C = geg(V.ctx)
    lam, j, x = V.int('lam', 1), V.int('j', 2), V.real('x')
    rhs = lambda k: T.mul(diag(lam, k), T.sub(C(T.add(lam, 1), k, x), C(T.add(lam, 1), T.sub(k, 2), x)))
    l, k = T.to_real(lam), T.to_real(j)
    a = [V.real('a%d' % q) for q in range(5)]     # C^(lam+1)_(j-q)
    # x C_i = ((i + 1) C_(i+1) + (i + 2 lam + 1) C_(i-1)) / (2 (i + lam + 1)) for C = C^(lam+1); numerators for i = j-1, j-3:
    X1 = T.add(T.mul(k, a[0]), T.mul(T.add(k, T.mul(2, l)), a[2]))
    X3 = T.add(T.mul(T.sub(k, 2), a[2]), T.mul(T.add(T.sub(k, 2), T.mul(2, l)), a[4]))
    D1, D3 = T.add(k, l), T.sub(T.add(k, l), 2)
    # j R_j = 2 (j + lam - 1) x R_(j-1) - (j + 2 lam - 2) R_(j-2) for R_j = lam/(lam+j) (a_0 - a_2), times D1 D3
    V.ensure('the combination satisfies the recurrence of C^(lam)',
             T.eq(T.mul(T.mul(T.mul(k, l), T.sub(a[0], a[2])), D3),
                  T.sub(T.mul(l, T.sub(T.mul(X1, D3), T.mul(X3, D1))),
                        T.mul(T.mul(T.mul(T.add(k, T.sub(T.mul(2, l), 2)), l), T.sub(a[2], a[4])), D1))), 'lemma')
    V.ensure('degree 0', T.eq(C(lam, 0, x), rhs(0)), 'lemma')
    V.ensure('degree 1', T.eq(C(lam, 1, x), rhs(1)), 'lemma')


def fmt(V):
    return {'format': V.choose('csr', 'csc')}


@contract(TR + 'spconvert_inv', 'C10')
def spconvert_inv(V):
    """entries (lam + i)/lam at (i, i + 2q) (lam = 0: 1 in the first row, else 2); both products with the conversion are the identity"""
    n, lam = V.int('n', 1), V.int('lam', 0)
    kw = fmt(V)
    R = V.call(TR + 'spconvert_inv', n, lam, **kw)
    entries(V, 'inverse conversion', R, (n, n), unconvert(lam))
    S = Sp(V.ctx, (n, n), [(0, lambda i: diag(lam, i)), (2, lambda i: T.neg(diag(lam, T.add(i, 2))))])
    if isinstance(R, Sp):
        one = lambda i, j: T.ite(T.eq(i, j), F1, F0)
        V.ensure_all('conversion after inverse', (n, n), lambda i, j: T.eq(S.times(R).el(i, j), one(i, j)))
        V.ensure_all('inverse after conversion', (n, n), lambda i, j: T.eq(R.times(S).el(i, j), one(i, j)))


# ------------------------------------------------------------------ differentiation
def power2(ctx):
    """P(s) = 2^(s-1) (s-1)!"""
    f = ctx.func('P', 'i', 'f')
    if 'P' not in ctx.schemas:
        ctx.schema(f, lambda a: [z3.Implies(a[0] == 1, f(a[0]) == 1), z3.Implies(a[0] >= 2, f(a[0]) == 2 * (z3.ToReal(a[0]) - 1) * f(a[0] - 1))])
    return lambda s: f(T.to_z3(s))


def derivative(ctx, m):
    P = power2(ctx)
    return lambda i, j: T.ite(T.eq(j, T.add(i, m)), T.mul(P(m), T.to_real(j)), F0)


def pick_matrix(env, names):
    """the variable among those the loop changes that holds a matrix"""
    return {nm: 'matrix' for nm in names if hasattr(env.fr.vars.get(nm), 'vc_binop')}


def inv_diff(I, fr, st, o, loops):
    ctx = I.ctx
    prov = lambda env: []
    prov.pick = pick_matrix

    def at(env, role):
        s = T.add(env.k, 1)
        n = ctx.ghost_n
        P = power2(ctx)

        def make():
            return Sp(ctx, (n, n), [(s, lambda i: T.mul(P(s), T.to_real(T.add(i, s))))])

        def conds(v):
            if not isinstance(v, Sp):
                return None
            e = derivative(ctx, s)
            return [('shape', T.land(T.eq(v.shape[0], n), T.eq(v.shape[1], n))),
                    ('derivative of the order reached', lambda i, j: T.eq(v.el(i, j), e(i, j)), (n, n))]
        return make, conds
    prov.at = at
    return prov


@contract(MA + 'diffmat', 'C10', inv={MA + 'diffmat': inv_diff})
def diffmat(V):
    """column j holds the coefficients of the m-th derivative of T_j in the basis C^(m): 2^(m-1) (m-1)! j at (j - m, j); identity
    for m = 0"""
    n, m = V.int('n', 1), V.choose('none', 'some')
    kw = fmt(V)
    V.ctx.ghost_n = n
    if m == 'none':
        D = V.call(MA + 'diffmat', n, 0, **kw)
        entries(V, 'identity', D, (n, n), lambda i, j: T.ite(T.eq(i, j), F1, F0))
        return
    m = V.int('m', 1)
    D = V.call(MA + 'diffmat', n, m, **kw)
    entries(V, 'derivative', D, (n, n), derivative(V.ctx, m))


# ------------------------------------------------------------------ multiplication
@contract(TR + 'sptoeplitz_fast', 'C10')
def toeplitz(V):
    """symmetric Toeplitz matrix: entry (i, j) is col[|i - j|]; all sizes, any pattern of zeros"""
    n = V.int('n', 1)
    col = V.arr('col', V.choose((n,), (n, 1)), 'f')
    c = col.snap()
    at = lambda i: c(i) if col.ndim == 1 else c(i, 0)
    fz = V.freeze(col)
    r = V.call(TR + 'sptoeplitz_fast', col, **fmt(V))
    entries(V, 'Toeplitz', r, (n, n), lambda i, j: at(T.absv(T.sub(i, j))))
    V.ensure_frozen('column', fz)


@contract(TR + 'sphankel', 'C10')
def hankel(V):
    """Hankel matrix: entry (i, j) is r[i + j], zero past the end; all sizes, any pattern of zeros"""
    n = V.int('n', 0)
    col = V.arr('r', V.choose((n,), (n, 1)), 'f')
    c = col.snap()
    at = lambda i: c(i) if col.ndim == 1 else c(i, 0)
    fz = V.freeze(col)
    r = V.call(TR + 'sphankel', col, **fmt(V))
    entries(V, 'Hankel', r, (n, n), lambda i, j: T.ite(T.lt(T.add(i, j), n), at(T.add(i, j)), F0))
    V.ensure_frozen('vector', fz)


class Conv:
    """change of basis C^(a) -> C^(b) of degree < n as a linear map of coefficient vectors (None: the identity, any basis); the
    composition of two such maps needs the inner bases to agree"""

    def __init__(self, ctx, n, a, b):
        self.ctx, self.n, self.a, self.b = ctx, n, a, b

    def vc_binop(self, M, op, x, y):
        if op in ('Mult', 'MatMult') and isinstance(x, Conv) and isinstance(y, Conv):
            self.ctx.oblige(T.eq(x.n, y.n), 'sizes of the conversions', 'call')
            if x.a is None:
                return y
            if y.a is None:
                return x
            self.ctx.oblige(T.eq(y.b, x.a), 'conversions meet in the same basis', 'call')
            return Conv(self.ctx, x.n, y.a, x.b)
        if op in ('Mult', 'MatMult') and isinstance(x, Conv) and isinstance(y, Arr):
            return self.apply(y)
        raise Unsupported('%s with a conversion' % op)

    def apply(self, v):
        r = A.symbolic(self.ctx, 'conv!%d' % self.ctx.counter, v.shape, 'f')
        self.ctx.counter += 1
        self.ctx.__dict__.setdefault('converted', []).append((self, v.snap(), v.shape, r))
        return r


def conv_stubs(V):
    ctx = V.ctx
    V.stub(TR + 'spconvert', lambda I, n, lam, format=None: Conv(ctx, n, lam, T.add(lam, 1)), TR + 'spconvert')
    V.stub(TR + 'spconvert_inv', lambda I, n, lam, format=None: Conv(ctx, n, T.add(lam, 1), lam), TR + 'spconvert_inv')


def conv_eye(M, n, m=None, k=0, **kw):
    if T.isz3(k) or k != 0:
        raise Unsupported('shifted identity')
    return Conv(M.ctx, n, None, None)


def inv_conv(I, fr, st, o, loops):
    ctx = I.ctx
    prov = lambda env: []
    prov.pick = pick_matrix

    def at(env, role):
        a, b = ctx.ghost_conv
        up = ctx.ghost_up
        here = T.add(a, env.k) if up else T.sub(a, env.k)

        def make():
            return Conv(ctx, ctx.ghost_n, a, here)

        def conds(v):
            if not isinstance(v, Conv):
                return None
            if v.a is None:
                return [('identity at the start', T.eq(here, a))]
            return [('from', T.eq(v.a, a)), ('to the basis reached', T.eq(v.b, here)), ('size', T.eq(v.n, ctx.ghost_n))]
        return make, conds
    prov.at = at
    return prov


def conv_spec(V, name, up):
    n, K1, K2 = V.int('n', 1), V.int('K1', 0), V.int('K2', -1)
    V.assume(T.ge(K2, T.sub(K1, 1)))
    conv_stubs(V)
    V.ctx.ghost_n, V.ctx.ghost_up = n, up
    V.ctx.ghost_conv = (K1, T.add(K2, 1)) if up else (T.add(K2, 1), K1)
    r = V.call(MA + name, n, K1, K2, **fmt(V))
    a, b = V.ctx.ghost_conv
    ok = isinstance(r, Conv)
    V.ensure('a change of basis', ok)
    if ok:
        V.ensure('from and to', T.eq(a, b) if r.a is None else T.land(T.eq(r.a, a), T.eq(r.b, b)))
        V.ensure('size', T.eq(r.n, n))


EYE = {'scipy.sparse.eye': conv_eye}


@contract(MA + 'convertmat', 'C10', uses=(TR + 'spconvert',), inv={MA + 'convertmat': inv_conv}, hooks=EYE)
def convertmat(V):
    """composition of the conversions C^(K1) -> ... -> C^(K2+1), each applied to the result of the one before; identity if K2 < K1"""
    conv_spec(V, 'convertmat', True)


@contract(MA + 'convertmat_inv', 'C10', uses=(TR + 'spconvert_inv',), inv={MA + 'convertmat_inv': inv_conv}, hooks=EYE)
def convertmat_inv(V):
    """composition of the inverse conversions C^(K2+1) -> ... -> C^(K1); identity if K2 < K1"""
    conv_spec(V, 'convertmat_inv', False)


def multiplier(V, k):
    """a function with any number of coefficients and its coefficients cut or padded to k"""
    n = V.int('n', 1)
    c = V.arr('c', (n, 1), 'f')
    f = V.new(CT, coeffs=c)
    s = c.snap()
    E = lambda i: T.ite(T.land(T.le(0, i), T.lt(i, n), T.lt(i, k)), s(i, 0), F0)
    return f, n, E, V.freeze(c)


def mult_stubs(V):
    ctx = V.ctx

    def flat(col):
        s = col.snap()
        return (s, col.shape[0]) if col.ndim == 1 else ((lambda i: s(i, 0)), col.shape[0])

    def toep(I, col, format=None):
        f, n = flat(col)
        return Sp(ctx, (n, n), el=lambda i, j: f(T.absv(T.sub(i, j))))

    def hank(I, col, format=None):
        f, n = flat(col)
        return Sp(ctx, (n, n), el=lambda i, j: T.ite(T.lt(T.add(i, j), n), f(T.add(i, j)), F0))
    V.stub(TR + 'sptoeplitz_fast', toep, TR + 'sptoeplitz_fast')
    V.stub(TR + 'sphankel', hank, TR + 'sphankel')


def mult_low(V, lam, want):
    k = V.int('k', 1)
    f, n, E, fz = multiplier(V, k)
    mult_stubs(V)
    r = V.call(MA + 'multmat', k, f, lam, format='csr')
    entries(V, 'multiplication', r, (k, k), lambda i, j: T.ite(T.eq(n, 1), T.ite(T.eq(i, j), E(0), F0), want(E, i, j)))
    V.ensure_frozen('function', fz)


HALF = Fraction(1, 2)


@contract(MA + 'multmat#chebyshev', 'C10', uses=(TR + 'sptoeplitz_fast', TR + 'sphankel'))
def mult_cheb(V):
    """column j holds the first k Chebyshev coefficients of f T_j (T_m T_j = (T_(m+j) + T_|m-j|)/2), f cut at k coefficients"""
    mult_low(V, 0, lambda E, i, j: T.mul(HALF, T.add(E(T.absv(T.sub(i, j))), T.ite(T.eq(i, 0), T.ite(T.eq(j, 0), E(0), F0),
             T.add(T.ite(T.eq(i, j), E(0), F0), E(T.add(i, j)))))))


@contract(MA + 'multmat#second kind', 'C10', uses=(TR + 'sptoeplitz_fast', TR + 'sphankel'))
def mult_second(V):
    """column j holds the first k coefficients of f U_j (T_m U_j = (U_(j+m) + U_(j-m))/2, U_(-p) = -U_(p-2)), f cut at k"""
    mult_low(V, 1, lambda E, i, j: T.mul(HALF, T.sub(T.add(E(T.absv(T.sub(i, j))), T.ite(T.eq(i, j), E(0), F0)), E(T.add(T.add(i, j), 2)))))


class Mul:
    """matrix X of size m with sum_i X_ij C^(lam)_i(x) = val C^(lam)_j(x) for every column j < m - deg, and X_ij = 0 for i > j + deg"""
    vc_lift = True

    def __init__(self, ctx, m, lam, x, val, deg):
        self.ctx, self.m, self.lam, self.x, self.val, self.deg = ctx, m, lam, x, val, deg

    def lift(self, s):
        """a matrix a I + b X, X multiplication by x: x C_j = ((j+1) C_(j+1) + (j+2 lam-1) C_(j-1)) / (2 (j+lam))"""
        if isinstance(s, Mul):
            return s
        return lift(self.ctx, s, self.m, self.lam, self.x)

    def vc_binop(self, M, op, a, b):
        ctx = self.ctx
        new = lambda v, d: Mul(ctx, self.m, self.lam, self.x, v, d)
        for z in (a, b):
            if T.is_scalar(z):
                if op == 'Mult':
                    return new(T.mul(T.to_real(z), self.val), self.deg)
                if op == 'Div' and z is b:
                    return new(T.div(self.val, T.to_real(z)), self.deg)
                raise Unsupported(op)
        a, b = self.lift(a), self.lift(b)
        if op in ('Add', 'Sub'):
            return new((T.add if op == 'Add' else T.sub)(a.val, b.val), T.maxv(a.deg, b.deg))
        if op in ('Mult', 'MatMult'):
            return new(T.mul(a.val, b.val), T.add(a.deg, b.deg))
        raise Unsupported(op)

    def vc_getitem(self, M, k):
        if not (isinstance(k, tuple) and len(k) == 2 and all(isinstance(s, slice) and s.start is None and s.step is None and s.stop is not None for s in k)):
            raise Unsupported('part of a multiplication matrix')
        rows, cols = k[0].stop, k[1].stop
        self.ctx.oblige(T.land(T.le(0, cols), T.le(cols, T.sub(self.m, self.deg))), 'columns kept are exact', 'call')
        self.ctx.oblige(T.land(T.le(0, rows), T.le(rows, self.m)), 'rows kept exist', 'call')
        r = Mul(self.ctx, self.m, self.lam, self.x, self.val, self.deg)
        r.part = (rows, cols)
        return r


def prune(ctx, t):
    """choices whose outcome is known"""
    if not T.isz3(t):
        return t
    for _ in range(6):
        todo = None
        stack = [t]
        while stack:
            u = stack.pop()
            if z3.is_app(u) and u.decl().kind() == z3.Z3_OP_ITE:
                c, a, b = u.children()
                w = a if ctx.prove(c) else (b if ctx.prove(z3.Not(c)) else None)
                if w is not None:
                    todo = (u, w)
                    break
            stack += u.children()
        if todo is None:
            return z3.simplify(t)
        t = z3.substitute(t, todo)
    return t


def lift(ctx, s, m, lam, x, hyp=None):
    if not isinstance(s, Sp):
        raise Unsupported('not a matrix')
    L = T.to_real(lam)
    s0, s1 = prune(ctx, s.el(0, 0)), prune(ctx, T.mul(T.mul(2, L), s.el(1, 0)))
    e1 = prune(ctx, s.el(1, 0))
    for v, t in ((F0, F0), (T.div(F1, T.mul(2, L)), F1), (F1, T.mul(2, L))):
        if ctx.prove(T.eq(e1, v)):
            s1 = t
            break
    i, j = ctx.fresh('i', 'int'), ctx.fresh('j', 'int')
    J = T.to_real(j)
    down = T.div(T.add(J, 1), T.mul(2, T.add(J, L)))
    up = T.div(T.add(J, T.sub(T.mul(2, L), 1)), T.mul(2, T.add(J, L)))
    want = T.add(T.ite(T.eq(i, j), s0, F0), T.mul(s1, T.ite(T.eq(i, T.add(j, 1)), down, T.ite(T.eq(i, T.sub(j, 1)), up, F0))))
    np_ = ctx.push()
    ctx.assume(T.to_z3(T.land(T.le(0, i), T.lt(i, m), T.le(0, j), T.lt(j, T.sub(m, 1)))))
    ctx.oblige(T.eq(s.el(i, j), want), 'combination of the identity and of multiplication by x', 'call')
    ctx.pop(np_)
    flat = ctx.prove(T.eq(s1, 0))
    return Mul(ctx, m, lam, x, T.add(s0, T.mul(s1, x)), 0 if flat else 1)


def inv_mult(I, fr, st, o, loops):
    ctx = I.ctx
    G = ctx.ghost_mult
    prov = lambda env: []

    def pick(env, names):
        """by their values before the loop: the polynomial of degree 0, of degree 1, the sum"""
        out = {}
        for nm in names:
            v = env.fr.vars.get(nm)
            if isinstance(v, Sp):
                e0, e1 = v.el(0, 0), v.el(1, 0)
                out[nm] = 'before' if ctx.prove(T.eq(e1, 0)) else ('current' if ctx.prove(T.eq(e0, 0)) else 'sum')
        return out
    prov.pick = pick

    def at(env, role):
        k, lam, x, m, C, S = env.k, G['lam'], G['x'], G['m'], G['C'], G['S']
        val, deg = {'before': (lambda: C(lam, k, x), k), 'current': (lambda: C(lam, T.add(k, 1), x), T.add(k, 1)),
                    'sum': (lambda: S(T.add(k, 1)), T.add(k, 1))}[role]

        def make():
            G['k'] = k
            return Mul(ctx, m, lam, x, val(), deg)

        def conds(v):
            if isinstance(v, Sp):
                v = lift(ctx, v, m, lam, x)
            if not isinstance(v, Mul):
                return None
            return [('symbol of ' + role, T.eq(v.val, val())), ('degree of ' + role, T.le(v.deg, deg))]
        return make, conds
    prov.at = at
    return prov


@contract(MA + 'multmat#ultraspherical', 'C10', uses=(MA + 'convertmat',), inv={MA + 'multmat': inv_mult}, budget=200)
def mult_ultra(V):
    """lam >= 2: on every column the product f C_j with f = sum ch_i C_i(x), ch the coefficients of f cut at k converted to C^(lam),
    cut at k rows: the recurrence (q+2) C_(q+2) = 2 (q+1+lam) x C_(q+1) - (q+2 lam) C_q on matrices of size 2k; terms are left
    out only when all remaining ch are below eps"""
    ctx = V.ctx
    k, lam, x = V.int('k', 1), V.int('lam', 2), V.real('x')
    f, n, E, fz = multiplier(V, k)
    V.assume(T.gt(n, 1))
    V.stub(MA + 'convertmat', lambda I, n, a, b, format=None: Conv(ctx, n, a, T.add(b, 1)), MA + 'convertmat')
    C = geg(ctx)

    def S(t):
        ch = ctx.converted[0][3].snap()
        return ctx.Sum(0, t, lambda i: T.mul(ch(i, 0), C(lam, i, x)))
    G = ctx.ghost_mult = {'lam': lam, 'x': x, 'm': T.mul(2, k), 'C': C, 'S': S}
    r = V.call(MA + 'multmat', k, f, lam, format='csr')
    if isinstance(r, Sp) and ctx.prove(T.eq(k, 1)):
        entries(V, 'constant', r, (1, 1), lambda i, j: ctx.converted[0][3].snap()(0, 0))
        return
    ok = isinstance(r, Mul) and len(ctx.__dict__.get('converted', [])) == 1 and hasattr(r, 'part')
    V.ensure('a multiplication matrix', ok)
    if not ok:
        return
    cv, v, sh, ch = ctx.converted[0]
    V.ensure('coefficients converted from Chebyshev', T.land(T.eq(cv.a, 0), T.eq(cv.b, lam), T.eq(cv.n, k), T.eq(sh[0], k)))
    V.ensure_all('the coefficients of f are converted', (k,), lambda i: T.eq(v(i, 0), E(i)))
    V.ensure('size', T.land(T.eq(r.part[0], k), T.eq(r.part[1], k)))
    q = G['k']
    if ctx.prove(T.eq(q, T.sub(k, 2))):
        V.ensure('all terms', T.eq(r.val, S(T.sub(k, 1))))
    else:
        V.lemma('one more term', T.eq(S(T.add(q, 2)), T.add(S(T.add(q, 1)), T.mul(ch.snap()(T.add(q, 2), 0), C(lam, T.add(q, 2), x)))))
        V.ensure('terms so far', T.eq(r.val, S(T.add(q, 2))))
        h = ch.snap()
        eps = Fraction(2) ** -52
        V.ensure_all('terms left out are negligible', (T.sub(k, T.add(q, 3)),), lambda i: T.lt(T.absv(h(T.add(i, T.add(q, 3)), 0)), eps))
    V.ensure_frozen('function', fz)


# ------------------------------------------------------------------ functionals and small matrices
@contract(MA + 'intmat', 'C10')
def intmat(V):
    """first row: the integrals 2/(1 - j^2) of the even T_j, all else zero"""
    k = V.int('k', 1)
    r = V.call(MA + 'intmat', k, **fmt(V))
    J = lambda j: T.to_real(j)
    entries(V, 'integral', r, (k, k), lambda i, j: T.ite(T.land(T.eq(i, 0), T.eq(T.mod(j, 2), 0)), T.div(2, T.sub(1, T.mul(J(j), J(j)))), F0))


@contract(MA + 'realmat', 'C10')
def realmat(V):
    """projection on the constant coefficient"""
    k = V.int('k', 1)
    r = V.call(MA + 'realmat', k, **fmt(V))
    entries(V, 'projection', r, (k, k), lambda i, j: T.ite(T.land(T.eq(i, 0), T.eq(j, 0)), F1, F0))


@contract(MA + 'zeromat', 'C10')
def zeromat(V):
    """zero matrix of the given shape"""
    n, m = V.int('n', 1), V.int('m', 1)
    r = V.call(MA + 'zeromat', (n, m), **fmt(V))
    entries(V, 'zero', r, (n, m), lambda i, j: F0)


# ------------------------------------------------------------------ operators of the discretisation
US = 'funpy.colloc.ultraS.ultraS.ultraS'


class Blocks:
    """block diagonal matrix of the given blocks (scipy.sparse.block_diag)"""

    def __init__(self, blocks):
        self.blocks = list(blocks)


def block_diag(M, blocks, format=None, dtype=None):
    assumed(M.ctx, 'scipy.sparse.block_diag puts the blocks on the diagonal in order')
    return Blocks([M.item(b) if isinstance(b, Arr) and b.ndim == 0 else b for b in M.iterate(blocks)])


def discretisation(V, name='d'):
    """one or two intervals of any sizes"""
    q = V.choose(1, 2)
    ns = [V.int('n%d' % i, 1) for i in range(q)]
    dom = [V.real('x0')]
    for i in range(q):
        w = V.real('w%d' % i)
        V.assume(T.gt(w, 0))
        dom.append(T.add(dom[-1], w))
    o = V.new(US, dimension=A.new(V.ctx, (q,), A._pick(ns), 'i'), domain=A.new(V.ctx, (q + 1,), A._pick(dom), 'f'), numIntervals=q)
    return o, ns, dom


class Made:
    """what a stubbed constructor of matrices was called with, times a factor"""

    def __init__(self, what, args, factor=F1):
        self.what, self.args, self.factor = what, args, factor

    def vc_binop(self, M, op, a, b):
        if op == 'Mult' and isinstance(a, Made) and T.is_scalar(b):
            return Made(self.what, self.args, T.mul(self.factor, T.to_real(b)))
        if op == 'Mult' and isinstance(b, Made) and T.is_scalar(a):
            return Made(self.what, self.args, T.mul(T.to_real(a), self.factor))
        if op == 'Div' and isinstance(a, Made) and T.is_scalar(b):
            return Made(self.what, self.args, T.div(self.factor, T.to_real(b)))
        raise Unsupported('%s with a matrix' % op)


def made(what, *names):
    def f(I, *a, **k):
        k.pop('format', None)
        k = dict(zip(names, a), **k)
        return Made(what, k)
    return f


def ensure_blocks(V, r, what, ns, args, factor=lambda i: F1):
    ok = isinstance(r, Blocks) and len(r.blocks) == len(ns) and all(isinstance(b, Made) and b.what == what for b in r.blocks)
    V.ensure('one block per interval', ok)
    if not ok:
        return
    for i, b in enumerate(r.blocks):
        for k, v in args(i).items():
            w = b.args.get(k)
            V.ensure('block %d: %s' % (i, k), (w is v) if not T.is_scalar(v) else (T.eq(w, v) if w is not None and T.is_scalar(w) else False))
        V.ensure('block %d: scale' % i, T.eq(b.factor, factor(i)))


BD = {'scipy.sparse.block_diag': block_diag}


def conv_op(name, mat):
    def spec(V):
        o, ns, dom = discretisation(V)
        V.stub(MA + mat, made(mat, 'n', 'K1', 'K2'), MA + mat)
        K1, K2, kw, out = V.int('K1', 0), V.int('K2', -1), {}, V.int('out', 0)
        if V.choose('given', 'output') == 'given':
            kw['K2'] = K2
        else:
            V.stub('funpy.colloc.coeffsDiscretization.coeffsDiscretization.getOutputSpace', lambda I, s: out)
            K2 = T.sub(out, 1)
        r = V.method(o, name, K1, **kw)
        ensure_blocks(V, r, mat, ns, lambda i: {'n': ns[i], 'K1': K1, 'K2': K2})
    return spec


for _n, _m in (('convert', 'convertmat'), ('iconvert', 'convertmat_inv')):
    _s = conv_op(_n, _m)
    _s.__doc__ = """per interval the change of basis of its size between C^(K1) and C^(K2+1), by default the output space"""
    contract(US + '.' + _n, 'C10', uses=(MA + _m,), hooks=BD)(_s)


@contract(US + '.diff', 'C10', uses=(MA + 'diffmat',), hooks=BD)
def us_diff(V):
    """per interval the derivative of order m with respect to the variable of that interval: (2/length)^m times the matrix for
    [-1, 1]; identity for m = 0"""
    o, ns, dom = discretisation(V)
    V.stub(MA + 'diffmat', made('diffmat', 'n', 'm'), MA + 'diffmat')
    m = V.choose(0, 1, 2, 3, 4)
    r = V.method(o, 'diff', m)
    if m == 0:
        N = ns[0] if len(ns) == 1 else T.add(*ns)
        entries(V, 'identity', r, (N, N), lambda i, j: T.ite(T.eq(i, j), F1, F0))
        return

    def scale(i):
        s, f = T.div(2, T.sub(dom[i + 1], dom[i])), F1
        for _ in range(m):
            f = T.mul(f, s)
        return f
    ensure_blocks(V, r, 'diffmat', ns, lambda i: {'n': ns[i], 'm': m}, scale)


@contract(US + '.int', 'C10', uses=(MA + 'intmat',), hooks=BD)
def us_int(V):
    """per interval the integral over that interval: length/2 times the matrix for [-1, 1]"""
    o, ns, dom = discretisation(V)
    V.stub(MA + 'intmat', made('intmat', 'k'), MA + 'intmat')
    r = V.method(o, 'int')
    ensure_blocks(V, r, 'intmat', ns, lambda i: {'k': ns[i]}, lambda i: T.div(T.sub(dom[i + 1], dom[i]), 2))


@contract(US + '.real', 'C10', uses=(MA + 'realmat',), hooks=BD)
def us_real(V):
    """per interval the projection on constants"""
    o, ns, dom = discretisation(V)
    V.stub(MA + 'realmat', made('realmat', 'k'), MA + 'realmat')
    r = V.method(o, 'real')
    ensure_blocks(V, r, 'realmat', ns, lambda i: {'k': ns[i]})


@contract(US + '.mult', 'C10', hooks=BD)
def us_mult(V):
    """per interval multiplication by the part of the function on that interval, in the basis asked for"""
    o, ns, dom = discretisation(V)
    V.stub(MA + 'multmat', made('multmat', 'k', 'f', 'lam', 'eps'), MA + 'multmat#ultraspherical')
    lam = V.int('lam', 0)
    f = [V.new(CT) for _ in ns]
    r = V.method(o, 'mult', A.new(V.ctx, (len(ns),), A._pick(f), 'o') if len(ns) > 1 else f, lam, format='csr')
    ensure_blocks(V, r, 'multmat', ns, lambda i: {'k': ns[i], 'f': f[i], 'lam': lam})
    for b in r.blocks:
        V.ensure('no coarser tolerance', 'eps' not in b.args)


class Op:
    """sum of words in the symbols of the operators, applied right to left, from basis C^(a) to basis C^(b); the words before the
    current step of a loop are one symbol"""

    def __init__(self, ctx, words, a, b):
        self.ctx, self.words, self.a, self.b = ctx, list(words), a, b

    def vc_binop(self, M, op, x, y):
        if not (isinstance(x, Op) and isinstance(y, Op)):
            raise Unsupported('%s with an operator' % op)
        c = self.ctx
        if op in ('Add', 'Sub'):
            for p, q in ((x.a, y.a), (x.b, y.b)):
                if p is not None and q is not None:
                    c.oblige(T.eq(p, q), 'terms map between the same bases', 'call')
            sg = 1 if op == 'Add' else -1
            return Op(c, x.words + [(sg * s, w) for s, w in y.words], x.a if y.a is None else y.a, x.b if y.b is None else y.b)
        if op in ('Mult', 'MatMult'):
            c.oblige(T.eq(x.a, y.b), 'factors meet in the same basis', 'call')
            return Op(c, [(s * t, v + w) for s, v in x.words for t, w in y.words], y.a, x.b)
        raise Unsupported(op)


    def vc_getattr(self, M, name):
        if name == 'shape':
            return self.ctx.ghost_op['shape']
        raise Unsupported(name)


def same_word(ctx, u, v):
    return len(u) == len(v) and all(a[0] == b[0] and len(a) == len(b) and all(p is q if not T.is_scalar(p) else ctx.prove(T.eq(p, q))
                                                                               for p, q in zip(a[1:], b[1:])) for a, b in zip(u, v))


def same_words(ctx, u, v):
    v = list(v)
    if len(u) != len(v):
        return False
    for s, w in u:
        hit = next((i for i, (t, x) in enumerate(v) if s == t and same_word(ctx, w, x)), None)
        if hit is None:
            return False
        v.pop(hit)
    return True


class Family:
    """any number of coefficient functions, by their index"""

    def __init__(self, name, n):
        self.name, self.n, self.shape = name, n, (n, 1)

    def vc_getattr(self, M, name):
        if name == 'shape':
            return self.shape
        if name == 'size':
            return self.n
        raise Unsupported(name)

    def vc_len(self, M):
        return self.n

    def vc_getitem(self, M, k):
        if not T.is_scalar(k):
            raise Unsupported('index')
        return Member(self.name, k)


class Member:
    def __init__(self, name, k):
        self.name, self.k = name, k

    def vc_getattr(self, M, name):
        raise Unsupported(name)


class Flags:
    def __init__(self, has, last):
        self.has, self.last = has, last

    def vc_getitem(self, M, k):
        if not T.isz3(k) and k == -1:
            return self.last
        return self.has(T.to_z3(k))

    def vc_getattr(self, M, name):
        raise Unsupported(name)


def inv_operator(I, fr, st, o, loops):
    ctx = I.ctx
    G = ctx.ghost_op
    prov = lambda env: []
    prov.pick = pick_matrix
    which = o

    def at(env, role):
        k = env.k
        start = [] if which == 0 else [(1, [('terms', 0, G['nc'])])]

        def make():
            return Op(ctx, start + [(1, [('terms', which, k)])], 0, G['out'])

        def conds(v):
            if not isinstance(v, Op):
                return None
            w = [x for x in v.words]
            if not T.isz3(k):       # entry
                ok = same_words(ctx, w, start) if which else not w
                return [('nothing before the first term', ok)]
            q = T.sub(k, 1)
            want = start + [(1, [('terms', which, q)])]
            if which == 0:
                f = G['has'](T.to_z3(q))
                here = want + [G['term'](0, q)]
                if ctx.prove(T.lnot(f)):
                    here = want
                return [('one term more', same_words(ctx, w, here)), ('from Chebyshev', T.eq(v.a, 0)), ('to the output', T.eq(v.b, G['out']))]
            return [('one term more', same_words(ctx, w, want + [G['term'](1, q)])), ('from Chebyshev', T.eq(v.a, 0)), ('to the output', T.eq(v.b, G['out']))]
        return make, conds
    prov.at = at
    return prov


@contract(US + '.quasi2diffmat', 'C10', uses=(US + '.convert', US + '.mult', US + '.diff', US + '.int'), inv={US + '.quasi2diffmat': inv_operator},
          budget=120)
def quasi2diffmat(V):
    """L[u] = sum_j a_j u^(j) + sum_j c_j int(d_j u) over the terms present, each converted to the output basis; adjoint: (-1)^j and
    the factors of the integral terms exchanged; second result: the conversion to the output basis (adjoint: its inverse) or zero"""
    from pyvc.interp import PyClass, Native
    ctx = V.ctx
    nc, ni, out = V.int('orders', 1), V.int('integrals', 1), V.int('out', 0)
    has = ctx.func('has', 'i', 'b')
    last = V.bool('nonlocal')
    adj, conv = V.choose(False, True), V.choose(True, False)
    N = V.int('N', 1)
    d = V.new(US, dimension=A.new(ctx, (1,), lambda i: N, 'i'), numIntervals=1)
    op = lambda words, a, b: Op(ctx, words, a, b)
    V.stub(US + '.convert', lambda I, s, K1, K2=None, format='csr': op([(1, [])] if K2 is None else [(1, [('K2', K2)])], K1, out), US + '.convert')
    V.stub(US + '.iconvert', lambda I, s, K1, K2=None, format='csr': op([(1, [('inverse',)])], out, K1), US + '.iconvert')
    V.stub(US + '.mult', lambda I, s, f, lam, **k: op([(1, [(f.name, f.k)])], lam, lam), US + '.mult')
    V.stub(US + '.diff', lambda I, s, m, format='csr': op([(1, [('diff', m)])], 0, m), US + '.diff')
    V.stub(US + '.int', lambda I, s, format='csr': op([(1, [('int',)])], 0, 0), US + '.int')
    V.stub(MA + 'zeromat', lambda I, sh, format='csr': op([], None, None), MA + 'zeromat')

    def meth(name, v):
        n = Native(name, lambda o, *a: v)
        n.method = True
        return n
    src = Obj(PyClass('source', [], {'getCoeffs': meth('getCoeffs', Family('a', nc)), 'getICoeffs': meth('getICoeffs', Family('c', ni)),
                                     'getIntegrand': meth('getIntegrand', Family('d', ni)), 'info': meth('info', Flags(has, last))}, None))
    l, r = ('d', 'c') if adj else ('c', 'd')

    def term(which, q):
        if which == 0:
            sg = 1
            if adj and ctx.prove(T.eq(T.mod(q, 2), 1)):
                sg = -1
            return (sg, [('a', q), ('diff', q)])
        return (1, [(l, q), ('int',), (r, q)])
    ctx.ghost_op = {'nc': nc, 'out': out, 'has': has, 'term': term, 'shape': (N, N)}
    L, S = V.method(d, 'quasi2diffmat', src, basis_conv=conv, adjoint=adj)
    ok = isinstance(L, Op) and isinstance(S, Op)
    V.ensure('operators', ok)
    if not ok:
        return
    orders = [(1, [('terms', 0, nc)])]
    ints = [(1, [('terms', 1, ni)])] if ctx.prove(last) else []
    V.ensure('all terms', same_words(ctx, L.words, orders + ints))
    if conv:
        V.ensure('conversion', same_words(ctx, S.words, [(1, [('inverse',)] if adj else [])]))
        V.ensure('of Chebyshev coefficients', T.land(T.eq(S.a, out if adj else 0), T.eq(S.b, 0 if adj else out)))
    else:
        V.ensure('no conversion', not S.words)
