"""Fourier functions (C07, C08, C09)"""
import ast

from .lib import *
from .copies import trig, TT, same_tech, ATTRS

half = Fraction(1, 2)
TR = 'funpy.trig.'
CHEAP = (CT + '.feval',)


def modes(c, n):
    """(h, F): F(k, q) is the coefficient of exp(i pi k x) in column q; with an even number of coefficients the highest mode is a
    cosine, one half at either sign"""
    h = T.floordiv(n, 2)
    even = T.eq(T.mod(n, 2), 0)

    def F(k, q):
        z = T.Cx(Fraction(0), Fraction(0))
        inside = T.to_cx(c(T.ite(T.le(T.absv(k), h), T.add(k, h), 0), q))
        hi = T.to_cx(c(0, q))
        top = T.land(even, T.eq(T.absv(k), h))
        r = T.ite(T.lt(T.absv(k), h), inside, T.ite(T.eq(T.absv(k), h), inside, z))
        return T.ite(top, T.mul(half, hi), r)
    return h, F


def resized(c, n, N):
    """coefficients of the same modes for length N: modes beyond are dropped, the two highest of an even length share one"""
    _, F = modes(c, n)
    H = T.floordiv(N, 2)
    even = T.eq(T.mod(N, 2), 0)

    def d(i, q):
        k = T.sub(i, H)
        v = F(k, q)
        return T.ite(T.land(even, T.eq(i, 0)), T.add(v, F(H, q)), v)
    return d


class Vals:
    """coeffs2vals and vals2coeffs: uninterpreted functions of the matrix given; .log lists (which, given, result)"""

    def __init__(self, V, both=False):
        self.V, self.log = V, []
        self.stub('coeffs2vals', ('trig_simplify', 'trigtech', 'ufuncs', 'operations'))
        if both:
            self.stub('vals2coeffs', ('trig_simplify', 'trigtech', 'ufuncs', 'operations'))

    def stub(self, name, where):
        def f(I, c, *a, **k):
            I.ctx.counter += 1
            s, sh = c.snap(), c.shape
            for w, s0, r0, sh0, rs in self.log:
                if w == name and len(sh0) == len(sh) and same(I.ctx, s0, s, sh0, sh):
                    return A.new(I.ctx, sh, rs, 'c')
            r = A.symbolic(I.ctx, '%s!%d' % (name, I.ctx.counter), sh, 'c')
            self.log.append((name, s, r, sh, r.snap()))
            return A.new(I.ctx, sh, self.log[-1][4], 'c')
        self.V.stub(TR + 'transform.' + name, f, TR + 'transform.' + name)

    def ensure(self, what, v, c, real=None, name='coeffs2vals'):
        """v is what the conversion gives for the matrix c (real columns: its real part)"""
        V, ctx = self.V, self.V.ctx
        for w, s, r, sh, rs in self.log:
            if w != name or len(sh) != len(c.shape):
                continue
            if same(ctx, s, c.snap(), c.shape, sh):
                def want(i, q, rs=rs):
                    x = T.to_cx(rs(i, q))
                    return T.ite(real(q), T.Cx(x.re, Fraction(0)), x) if real is not None else x
                V.ensure_array(what, v, c.shape, want)
                return
        raise Unsupported('values by other means')


def same(ctx, f, g, sh, sh2):
    if f is g:
        return True
    i = [ctx.fresh('i', 'int') for _ in sh]
    n = ctx.push() if hasattr(ctx, 'push') else None
    rng = T.land(*[T.land(T.le(0, x), T.lt(x, d)) for x, d in zip(i, sh)], *[T.eq(a, b) for a, b in zip(sh, sh2)])
    return ctx.prove(T.to_z3(T.implies(T.land(*[T.land(T.le(0, x), T.lt(x, d)) for x, d in zip(i, sh)]),
                                       T.land(T.eq(T.to_cx(f(*i)).re, T.to_cx(g(*i)).re), T.eq(T.to_cx(f(*i)).im, T.to_cx(g(*i)).im)))))


@contract(TT + '.prolong_coeffs', 'C07')
def prolong_coeffs(V):
    """the coefficients of the same modes, for any two lengths; function unchanged"""
    f, c, v, n, m = trig(V, 'f')
    N = V.int('N', 1)
    fz, cs = freeze_obj(V, f), c.snap()
    r = V.method(f, 'prolong_coeffs', N)
    V.ensure_array('coefficients', r, (N, m), resized(cs, n, N))
    fresh_buf(V, 'own storage', r, c)
    ensure_obj_frozen(V, 'function', fz)


@contract(TR + 'trig_simplify.prolong', 'C07')
def simp_prolong(V):
    """the coefficients of the same modes and their values, for any two lengths; the given coefficients unchanged"""
    n, m, N = V.int('n', 1), V.int('m', 1), V.int('N', 1)
    c = V.arr('c', (n, m), 'c')
    real = V.arr('real', (m,), 'b')
    fz, cs, rs = V.freeze(c), c.snap(), real.snap()
    vals = Vals(V)
    r, w = V.call(TR + 'trig_simplify.prolong', c, N, real)
    V.ensure_array('coefficients', r, (N, m), resized(cs, n, N))
    fresh_buf(V, 'own storage', r, c)
    V.ensure_frozen('coefficients given', fz)
    same_len = V.ctx.prove(T.eq(n, N))
    vals.ensure('values', w, r, None if same_len else lambda q: rs(q))


@contract(TT + '.prolong', 'C07')
def tech_prolong(V):
    """in place: the coefficients of the same modes and their values, for any two lengths"""
    f, c, v, n, m = trig(V, 'f')
    N = V.int('N', 1)
    cs, vs, rs = c.snap(), v.snap(), f.fields['isReal'].snap()
    vals = Vals(V)
    keep = {k: f.fields[k] for k in f.fields if k not in ('coeffs', 'values')}
    r = V.method(f, 'prolong', N)
    V.ensure('returns the function', r is f)
    V.ensure_array('coefficients', f.fields['coeffs'], (N, m), resized(cs, n, N))
    if V.ctx.prove(T.eq(n, N)):
        V.ensure_array('values', f.fields['values'], (n, m), vs)
    else:
        vals.ensure('values', f.fields['values'], f.fields['coeffs'], lambda q: rs(q))
    V.ensure('nothing else changes', all(f.fields[k] is keep[k] for k in keep) and set(f.fields) == set(keep) | {'coeffs', 'values'})


TF = TR + 'transform.'


def mode_of(l, n):
    """mode at place l of a transform of length n"""
    return T.ite(T.lt(l, T.sub(n, T.floordiv(n, 2))), l, T.sub(l, n))


def sgn(k):
    return T.ite(T.eq(T.mod(k, 2), 0), F1, -F1)


def scale(s, z):
    z = T.to_cx(z)
    return T.Cx(T.mul(s, z.re), T.mul(s, z.im))


def symmetric(V, X, E, n, j, q, what):
    """theorem on the discrete Fourier transform E of X at entry (j, q): real (imaginary) input has (skew) Hermitian transform,
    (skew) Hermitian input has real (imaginary) transform"""
    ctx = V.ctx
    jj = T.ite(T.eq(j, 0), 0, T.sub(n, j))
    if what == 'of real':
        a, b = T.to_cx(E(j, q)), T.to_cx(E(jj, q))
        for part, s in (('im', -1), ('re', 1)):
            w = ctx.fresh('w', 'int')
            off = T.ne(getattr(T.to_cx(X(w, q)), part), 0)
            V.assume(T.lor(T.land(T.le(0, w), T.lt(w, n), off), T.land(T.eq(a.re, T.mul(-s, b.re)), T.eq(a.im, T.mul(s, b.im)))))
    else:
        a = T.to_cx(E(j, q))
        for part, s in (('im', 1), ('re', -1)):
            w = ctx.fresh('w', 'int')
            x, y = T.to_cx(X(w, q)), T.to_cx(X(T.ite(T.eq(w, 0), 0, T.sub(n, w)), q))
            off = T.lor(T.ne(x.re, T.mul(s, y.re)), T.ne(x.im, T.mul(-s, y.im)))
            V.assume(T.lor(T.land(T.le(0, w), T.lt(w, n), off), T.eq(getattr(a, part), 0)))


@contract(TF + 'coeffs2vals', 'C07')
def c2v(V):
    """values at x_j = -1 + 2j/n: the inverse transform of n (-1)^k c_k, mode k at place k mod n; coefficients unchanged"""
    n, m = V.int('n', 1), V.int('m', 1)
    c = V.arr('c', (n, m), V.choose('c', 'f'))
    fz, cs = V.freeze(c), c.snap()
    r = V.call(TF + 'coeffs2vals', c)
    V.ensure_frozen('coefficients', fz)
    fresh_buf(V, 'own storage', r, c)
    h = T.floordiv(n, 2)
    if V.ctx.prove(T.le(n, 1)):
        V.ensure_array('one value', r, (n, m), cs)
        return
    assumed(V.ctx, 'discrete Fourier transform: real (Hermitian) input has Hermitian (real) transform, likewise imaginary and skew')
    def X(l, q):
        k = mode_of(l, n)
        return scale(T.mul(T.to_real(n), sgn(k)), cs(T.add(k, h), q))
    E = V.I.np.call('scipy.fft.ifft', (A.new(V.ctx, (n, m), X, 'c'),), {'axis': 0}).snap()
    V.ensure_shape('shape', r, (n, m))
    V.ensure('complex', r.kind == 'c')
    j, q = V.ctx.fresh('j', 'int'), V.ctx.fresh('q', 'int')
    V.assume(T.land(T.le(0, j), T.lt(j, n), T.le(0, q), T.lt(q, m)))
    symmetric(V, X, E, n, j, q, 'of real')
    a, b = T.to_cx(r.snap()(j, q)), T.to_cx(E(j, q))
    V.ensure('inverse transform', T.land(T.eq(a.re, b.re), T.eq(a.im, b.im)))


@contract(TF + 'vals2coeffs', 'C07')
def v2c(V):
    """coefficient of mode k: (-1)^k / n times the transform at place k mod n; values unchanged"""
    n, m = V.int('n', 1), V.int('m', 1)
    v = V.arr('v', (n, m), V.choose('c', 'f'))
    fz, vs = V.freeze(v), v.snap()
    r = V.call(TF + 'vals2coeffs', v)
    V.ensure_frozen('values', fz)
    fresh_buf(V, 'own storage', r, v)
    h = T.floordiv(n, 2)
    if V.ctx.prove(T.le(n, 1)):
        V.ensure_array('one coefficient', r, (n, m), vs)
        return
    assumed(V.ctx, 'discrete Fourier transform: real (Hermitian) input has Hermitian (real) transform, likewise imaginary and skew')
    E = V.I.np.call('scipy.fft.fft', (v,), {'axis': 0}).snap()
    V.ensure_shape('shape', r, (n, m))
    V.ensure('complex', r.kind == 'c')
    i, q = V.ctx.fresh('i', 'int'), V.ctx.fresh('q', 'int')
    V.assume(T.land(T.le(0, i), T.lt(i, n), T.le(0, q), T.lt(q, m)))
    k = T.sub(i, h)
    j = T.ite(T.ge(k, 0), k, T.add(k, n))
    symmetric(V, vs, E, n, j, q, 'of Hermitian')
    a = T.to_cx(r.snap()(i, q))
    b = scale(T.mul(T.div(F1, T.to_real(n)), sgn(k)), E(j, q))
    V.ensure('transform', T.land(T.eq(a.re, b.re), T.eq(a.im, b.im)))


# ---------------------------------------------------------------- evaluation
EV = TR + 'eval.'
MOIVRE = 'exp(i pi k x) = exp(i pi x)**k for integers k (de Moivre)'


class Waves:
    """e(k, x) = exp(i pi k x) for integers k: e(0) = 1, e(k+1) = e(k) e(1), e(-k) = conj e(k), |e(k)| = 1"""

    def __init__(self, V):
        self.V, ctx = V, V.ctx
        self.C, self.S = ctx.func('wcos', 'if', 'f'), ctx.func('wsin', 'if', 'f')
        C, S = self.C, self.S
        assumed(ctx, MOIVRE)

        def ax(a):
            k, x = a
            u, v, c, s = C(1, x), S(1, x), C(k, x), S(k, x)
            return [z3.Implies(k == 0, z3.And(c == 1, s == 0)), C(k + 1, x) == u * c - v * s, S(k + 1, x) == v * c + u * s,
                    C(k - 1, x) == u * c + v * s, S(k - 1, x) == u * s - v * c,
                    C(-k, x) == c, S(-k, x) == -s, c * c + s * s == 1,
                    T.to_z3(T.eq(ctx.trig('cos', T.mul(ctx.get_pi(), x)), u)), T.to_z3(T.eq(ctx.trig('sin', T.mul(ctx.get_pi(), x)), v))]
        if 'wcos' not in ctx.schemas:
            ctx.schema(C, ax)
            ctx.schema(S, ax)

    def __call__(self, k, x):
        k, x = T.to_z3(k), T.to_z3(T.to_real(x))
        return T.Cx(self.C(k, x), self.S(k, x))

    def instance(self, k, x):
        """cos(pi k x) and sin(pi k x) are the parts of e(k, x)"""
        ctx = self.V.ctx
        pi = ctx.get_pi()
        th = T.mul(T.mul(pi, T.to_real(k)), x)
        e = self(k, x)
        self.V.assume(T.eq(ctx.trig('cos', th), e.re))
        self.V.assume(T.eq(ctx.trig('sin', th), e.im))


def partial(ctx, c, n, e, sign=1, name='R'):
    """R(p, x, q) = sum_{p <= l < n} c(l, q) e(sign l, x), real and imaginary part"""
    re, im = ctx.func(name + 're', 'ifi', 'f'), ctx.func(name + 'im', 'ifi', 'f')

    def ax(a):
        p, x, q = a
        t = T.mul(T.to_cx(c(p, q)), e(T.mul(sign, p), x))
        p1 = T.add(p, 1)
        t2 = T.add(t, T.mul(T.to_cx(c(p1, q)), e(T.mul(sign, p1), x)))
        return [z3.Implies(p == T.to_z3(T.sub(n, 1)), z3.And(re(p, x, q) == T.to_z3(t.re), im(p, x, q) == T.to_z3(t.im))),
                z3.Implies(p == T.to_z3(T.sub(n, 2)), z3.And(re(p, x, q) == T.to_z3(t2.re), im(p, x, q) == T.to_z3(t2.im))),
                z3.Implies(p >= T.to_z3(n), z3.And(re(p, x, q) == 0, im(p, x, q) == 0)),
                z3.Implies(p < T.to_z3(n), z3.And(re(p, x, q) == re(p + 1, x, q) + T.to_z3(t.re), im(p, x, q) == im(p + 1, x, q) + T.to_z3(t.im)))]
    ctx.schema(re, ax)
    ctx.schema(im, ax)

    def R(p, x, q):
        p, x, q = T.to_z3(p), T.to_z3(T.to_real(x)), T.to_z3(q)
        return T.Cx(re(p, x, q), im(p, x, q))
    return R


def eqc(a, b):
    a, b = T.to_cx(a), T.to_cx(b)
    return T.land(T.eq(a.re, b.re), T.eq(a.im, b.im))


def carried(env, st, count):
    """the loop's own variables, in order of appearance before the loop"""
    asg = {t.id for a in ast.walk(st) if isinstance(a, (ast.Assign, ast.AugAssign))
           for tt in (a.targets if isinstance(a, ast.Assign) else [a.target]) for t in ast.walk(tt) if isinstance(t, ast.Name)}
    out = [(nm, v) for nm, v in env.fr.vars.items() if nm in asg and isinstance(v, Arr)]
    return [v for _, v in out[:count]]


def cmplx_inv(I, fr, st, ordn, loops):
    sp = I.verifying.state
    e, R, x, n = sp['e'], sp['R'], sp['x'], sp['n']

    def prov(env):
        q = (carried(env, st, 1) + [None])[0]
        if q is None:
            raise Unsupported('Horner loop without a work array')
        p = T.sub(T.sub(n, 1), env.k)

        def tail(*j):
            xx, col = sp['at'](q, j)
            return eqc(T.mul(e(p, xx), q.elem(*j)), R(p, xx, col))
        return [('Horner tail', tail, tuple(q.shape))]
    prov.peel = sp.get('peel', 0)
    return prov


def real_inv(I, fr, st, ordn, loops):
    sp = I.verifying.state
    e, R, x, n = sp['e'], sp['R'], sp['x'], sp['n']

    def prov(env):
        w = carried(env, st, 2)
        nm = env.fr.vars
        if 'co' in nm and 'si' in nm:
            w = [nm['co'], nm['si']]
        if len(w) != 2:
            raise Unsupported('Horner loop without two work arrays')
        p = T.sub(T.sub(n, 1), env.k)

        def tail(*j):
            xx, col = sp['at'](w[0], j)
            return eqc(T.mul(e(T.sub(0, p), xx), T.Cx(w[0].elem(*j), w[1].elem(*j))), R(p, xx, col))
        return [('Horner tail', tail, tuple(w[0].shape))]
    prov.peel = sp.get('peel', 0)
    return prov


def horner_cmplx(V, name, cols, rows):
    """the value is e(-h) sum_l c_l e(l), e(k) = exp(i pi k x): mode l - h at place l; an even length's highest mode is a cosine"""
    h, m = V.int('h', 0), (1 if cols == 1 else V.int('m', 1))
    odd = V.choose(True, False)
    if not odd:
        V.assume(h >= 1)
    n = T.add(T.mul(2, h), 1 if odd else 0)
    N = 1 if rows == 1 else V.int('N', 2 if rows == 2 else 1)
    c, x = V.arr('c', (n, m), 'c'), V.arr('x', (N,))
    fc, fx, cs, xs = V.freeze(c), V.freeze(x), c.snap(), x.snap()
    e = Waves(V)
    R = partial(V.ctx, cs, n, e)
    scl = name == 'horner_scl_cmplx'
    V.c.state = dict(e=e, R=R, x=xs, n=n, peel=1 if scl or rows == 1 else 0,
                     at=(lambda q, j: (xs(j[0]), 0)) if scl else (lambda q, j: (xs(j[0] if q.ndim > 1 else 0), j[-1])))
    r = V.call(EV + name, x, c)
    V.ensure_frozen('coefficients', fc)
    V.ensure_frozen('points', fx)
    if not V.ensure_shape('shape', r, (N,) if scl else (N, m)):
        return
    i, q = (0 if rows == 1 else V.int('i', 0)), (0 if cols == 1 else V.int('q', 0))
    V.assume(T.land(T.lt(i, N), T.lt(q, m)))
    X = xs(i)
    for k in (1, h, T.sub(0, h), T.sub(h, 1), T.sub(1, h)):
        e.instance(k, X)
    got = r.snap()(i) if scl else r.snap()(i, q)
    if not odd:
        V.lemma('addition theorem', eqc(e(T.sub(1, h), X), T.mul(e(1, X), e(T.sub(0, h), X))))
    want = T.mul(e(T.sub(0, h), X), R(0 if odd else 1, X, q))
    if not odd:
        want = T.add(want, scale(e(h, X).re, cs(0, q)))
    want, have = T.to_cx(want), T.to_cx(got)
    V.ensure('value', T.eq(have.re, want.re))
    V.ensure('value, imaginary part', T.eq(have.im, want.im))


for _n, _c, _r, _p in (('horner_scl_cmplx', 1, 0, ''), ('horner_vec_cmplx', 0, 2, ''), ('horner_vec_cmplx', 0, 1, '#one point')):
    def _f(V, _n=_n, _c=_c, _r=_r):
        horner_cmplx(V, _n, _c, _r)
    _f.__doc__ = horner_cmplx.__doc__
    contract(EV + _n + _p, 'C07', inv={EV + _n: cmplx_inv})(_f)


def horner_real(V, name, cols):
    """c_0 + 2 Re sum_{0<l} c_{-l} e(-l) over the modes of negative index (an even length's highest one halved): the real function
    with these coefficients"""
    h, m = V.int('h', 0), (1 if cols == 1 else V.int('m', 1))
    even = V.choose(False, True)
    if even:
        V.assume(h >= 1)
    n = T.add(T.mul(2, h), 0 if even else 1)
    N = V.int('N', 1)
    c, x = V.arr('c', (n, m), 'c'), V.arr('x', (N,))
    fc, fx, cs, xs = V.freeze(c), V.freeze(x), c.snap(), x.snap()
    e = Waves(V)

    def neg(l, q):
        z = T.to_cx(cs(T.sub(h, l), q))
        return T.ite(T.land(even, T.eq(l, h)), T.Cx(T.mul(half, z.re), Fraction(0)), z)
    R = partial(V.ctx, neg, T.add(h, 1), e, -1)
    scl = name == 'horner_scl_real'
    V.c.state = dict(e=e, R=R, x=xs, n=T.add(h, 1), peel=1 if scl else 0, at=(lambda q, j: (xs(j[0]), 0)) if scl else (lambda q, j: (xs(j[0]), j[1])))
    r = V.call(EV + name, x, c)
    V.ensure_frozen('coefficients', fc)
    V.ensure_frozen('points', fx)
    if scl and V.ctx.prove(T.le(n, 1)):
        r = r if r.ndim == 1 else A.view(V.ctx, r, 0)
    if not V.ensure_shape('shape', r, (N,) if scl else (N, m)):
        return
    i, q = V.int('i', 0), (0 if cols == 1 else V.int('q', 0))
    V.assume(T.land(T.lt(i, N), T.lt(q, m)))
    X = xs(i)
    e.instance(1, X)
    got = T.to_cx(r.snap()(i) if scl else r.snap()(i, q))
    V.ensure('value', T.eq(got.re, T.add(T.to_cx(cs(h, q)).re, T.mul(2, R(1, X, q).re))))
    V.ensure('real', T.eq(got.im, 0))


for _n, _c in (('horner_scl_real', 1), ('horner_vec_real', 0)):
    def _g(V, _n=_n, _c=_c):
        horner_real(V, _n, _c)
    _g.__doc__ = horner_real.__doc__
    contract(EV + _n, 'C07', inv={EV + _n: real_inv})(_g)


def horner_stubs(V):
    """the four evaluations as their callers see them: a value of the point and column each"""
    VR = V.ctx.func('real value', 'fi', 'f')
    VC = [V.ctx.func('value re', 'fi', 'f'), V.ctx.func('value im', 'fi', 'f')]
    log = []

    def mk(name, real, scl):
        def f(I, x, c):
            log.append((name, x, c))
            xs = x.snap()
            if scl and not I.ctx.prove(T.eq(c.shape[1], 1)):
                raise Unsupported('scalar evaluation of several columns')
            pt = lambda i: T.to_z3(T.to_real(xs(i)))
            el = (lambda i, q: VR(pt(i), T.to_z3(q))) if real else (lambda i, q: T.Cx(VC[0](pt(i), T.to_z3(q)), VC[1](pt(i), T.to_z3(q))))
            sh = (x.shape[0],) if scl else (x.shape[0], c.shape[1])
            return A.new(I.ctx, sh, (lambda i: el(i, 0)) if scl else el, 'f' if real else 'c')
        V.stub(EV + name, f, EV + name)
    mk('horner_scl_real', True, True)
    mk('horner_vec_real', True, False)
    mk('horner_scl_cmplx', False, True)
    mk('horner_vec_cmplx', False, False)
    return VR, VC, log


@contract(EV + 'horner', 'C07')
def horner_all(V):
    """all columns real: the real evaluation; else the complex one, of which real columns keep the real part"""
    n, N = V.int('n', 1), V.int('N', 1)
    one = V.choose(True, False)
    m = 1 if one else V.int('m', 2)
    c, x, real = V.arr('c', (n, m), 'c'), V.arr('x', (N,)), V.arr('real', (m,), 'b')
    fz = [V.freeze(a) for a in (c, x, real)]
    xs, rs = x.snap(), real.snap()
    VR, VC, log = horner_stubs(V)
    r = V.call(EV + 'horner', x, c, real)
    for nm, z in zip(('coefficients', 'points', 'flags'), fz):
        V.ensure_frozen(nm, z)
    V.ensure('one evaluation of the whole series', len(log) == 1 and log[0][2] is c and log[0][1] is x)
    if not V.ensure_shape('shape', r, (N,) if one else (N, m)):
        return
    i, q = V.int('i', 0), (0 if one else V.int('q', 0))
    V.assume(T.land(T.lt(i, N), T.lt(q, m)))
    p = V.int('p', 0)
    V.assume(T.lt(p, m))
    got = T.to_cx(r.snap()(i) if one else r.snap()(i, q))
    X, Q = T.to_z3(T.to_real(xs(i))), T.to_z3(q)
    if log and 'real' in log[0][0]:
        V.ensure('real evaluation: every column is real', rs(p))
        V.ensure('value', eqc(got, VR(X, Q)))
    else:
        V.ensure('complex evaluation: some column is not', T.lnot(V.ctx.prove(rs(0)) if one else False))
        V.ensure('value', T.eq(got.re, VC[0](X, Q)))
        V.ensure('imaginary part', T.eq(got.im, T.ite(rs(q), F0, VC[1](X, Q))))


@contract(TT + '.horner', 'C07')
def tech_horner(V):
    """evaluation of the function's own coefficients and flags at the points given; function unchanged"""
    f, c, v, n, m = trig(V, 'f')
    k = V.choose('point', 'points')
    N = 1 if k == 'point' else V.int('N', 2)
    fz = freeze_obj(V, f)
    log = []

    def h(I, x, cc, real):
        log.append((x, cc, real))
        log.append(A.symbolic(I.ctx, 'value', (N, m), 'c'))
        return log[-1]
    V.stub(EV + 'horner', h, EV + 'horner')
    x = V.real('x') if k == 'point' else V.arr('x', (N,))
    r = V.method(f, V.choose('horner', 'feval', '__call__'), x)
    ensure_obj_frozen(V, 'function', fz)
    V.ensure('one evaluation', len(log) == 2)
    (xx, cc, real), val = log
    V.ensure('own coefficients', cc is c and real is f.fields['isReal'])
    V.ensure_array('points', xx, (N,), (lambda i: x) if k == 'point' else x.snap())
    got, vs = r.snap() if isinstance(r, Arr) else (lambda *i: r), val.snap()
    i, q = V.int('i', 0), V.int('q', 0)
    V.assume(T.land(T.lt(i, N), T.lt(q, m)))
    sh = r.shape if isinstance(r, Arr) else ()
    nd = (0 if V.ctx.prove(T.eq(N, 1)) else 1) + (0 if V.ctx.prove(T.eq(m, 1)) else 1)
    V.ensure('axes of length one are dropped', len(sh) == nd)
    if len(sh) == nd:
        V.ensure('values', eqc(got(*([i] if not V.ctx.prove(T.eq(N, 1)) else []) + ([q] if not V.ctx.prove(T.eq(m, 1)) else [])), vs(i, q)))


# ---------------------------------------------------------------- construction
def imax(V, vs, n, q):
    return V.ctx.extremum('max', n, lambda j: V.ctx.absv(T.to_cx(vs(j, q)).im))


def vscale_stub(V, n, m):
    """vertical scale of each column: a row for functions of one mode"""
    a = V.arr('vscl', (m,))
    if V.choose('modes', 'one mode') == 'one mode':
        V.assume(T.eq(n, 1))
        b = A.view(V.ctx, a, (None, slice(None)))
    else:
        V.assume(T.ge(n, 2))
        b = a
    V.stub(TT + '.get_vscale', lambda I, s: b, TT + '.get_vscale')
    return a.snap()


@contract(TT + '.get_vscale', 'C07')
def get_vscale(V):
    """largest modulus of the values of each column; function unchanged"""
    f, c, v, n, m = trig(V, 'f')
    vals = Vals(V)
    fz, cs = freeze_obj(V, f), c.snap()
    r = V.method(f, 'get_vscale')
    ensure_obj_frozen(V, 'function', fz)
    q = V.int('q', 0)
    V.assume(q < m)
    if V.ctx.prove(T.eq(n, 1)):
        V.ensure_array('one mode', r, (1, m), lambda i, q: V.ctx.absv(cs(0, q)))
        return
    V.ensure_shape('one per column', r, (m,))
    s0 = vals.log[0]
    V.ensure('of the values of the coefficients', same(V.ctx, s0[1], cs, (n, m), s0[3]))
    V.ensure('largest modulus', T.eq(r.elem(q), V.ctx.extremum('max', n, lambda j: V.ctx.absv(T.to_cx(s0[4](j, q))))))


@contract(TT + '.__init__#data', 'C07', budget=200)
def ctor_data(V):
    """coefficients and values are the ones given, the other ones converted; columns whose values have imaginary parts within
    the tolerance are real and only they lose them; arrays given unchanged, storage own"""
    n = V.int('n', 1)
    one = V.choose(False, True)
    m = 1 if one else V.int('m', 2)
    what = V.choose('values', 'coeffs', 'both', 'array')
    c = V.arr('c', (n, m), V.choose('c', 'f')) if what in ('coeffs', 'both') else None
    v = V.arr('v', (n, m), 'c') if what != 'coeffs' else None
    fz = [V.freeze(a) for a in (c, v) if a is not None]
    vals = Vals(V, both=True)
    vsc = vscale_stub(V, n, m)
    eps, hs, vs0 = V.real('eps', Fraction(1, 10 ** 17)), V.real('hscale'), V.real('vscale')
    vsn, cs = (v.snap() if v is not None else None), (c.snap() if c is not None else None)
    kw = dict(eps=eps, hscale=hs, vscale=vs0)
    r = V.call(TT, v, **kw) if what == 'array' else V.call(TT, **kw, **({'values': v} if v is not None else {}), **({'coeffs': c} if c is not None else {}))
    for z in fz:
        V.ensure_frozen('array given', z)
    C, W, R = r.fields['coeffs'], r.fields['values'], r.fields['isReal']
    if cs is not None:
        V.ensure_array('coefficients', C, (n, m), cs)
        given = vsn
    else:
        log = [x for x in vals.log if x[0] == 'vals2coeffs']
        V.ensure('one conversion, of the values given', len(log) == 1 and same(V.ctx, log[0][1], vsn, (n, m), log[0][3]))
        V.ensure_array('coefficients', C, (n, m), log[0][4])
        given = vsn
    if vsn is None:
        log = [x for x in vals.log if x[0] == 'coeffs2vals']
        V.ensure('one conversion, of the coefficients given', len(log) == 1 and same(V.ctx, log[0][1], cs, (n, m), log[0][3]))
        given = log[0][4]
    V.ensure('complex storage', C.kind == 'c' and W.kind == 'c')
    for nm, a in (('coefficients', C), ('values', W)):
        fresh_buf(V, 'own %s' % nm, a, *[x for x in (c, v) if x is not None])
    V.ensure('flag per column', R.ndim == (0 if one else 1) if isinstance(R, Arr) else (one and T.is_bool(R)))
    rs = (lambda q: R.snap()(*([q] if R.ndim else []))) if isinstance(R, Arr) else (lambda q: R)
    q = 0 if one else V.int('q', 0)
    V.assume(T.lt(q, m))
    V.ensure('real exactly when the imaginary parts are within the tolerance',
             T.eq(rs(q), T.le(imax(V, given, n, q), T.mul(T.mul(3, eps), T.maxv(vs0, vsc(q))))))
    if not V.ensure_shape('shape of the values', W, (n, m)):
        return
    j = V.int('j', 0)
    V.assume(j < n)
    a, b = T.to_cx(W.snap()(j, q)), T.to_cx(given(j, q))
    V.ensure('real parts', T.eq(a.re, b.re))
    V.ensure('imaginary parts', T.eq(a.im, T.ite(rs(q), F0, b.im)))
    for k, w in (('eps', eps), ('hscale', hs), ('vscale', vs0)):
        V.ensure('.' + k, T.eq(r.fields[k], w))
    V.ensure('happy', r.fields['ishappy'] is True)


class Made:
    """the constructor as its callers see it: .data lists (object, coefficients, values) made from data, .ops (object, operation, keywords)"""

    def __init__(self, V, one=None):
        self.V, self.data, self.ops = V, [], []
        V.stub(TT + '.__init__', self.init, TT + '.__init__#data')

    def init(self, I, obj, op=None, file=None, values=None, coeffs=None, *a, **kw):
        ctx = I.ctx
        ctx.counter += 1
        t = ctx.counter
        dflt = Fraction(1, 10 ** 10)
        eps = kw.get('eps', dflt)
        obj.fields.update(eps=eps, hscale=kw.get('hscale', eps), vscale=kw.get('vscale', eps), maxLength=4096)
        if values is None and coeffs is None:
            if op is None or isinstance(op, Arr):
                raise Unsupported('constructor of an array')
            n, m = ctx.fresh('made.n', 'int'), ctx.fresh('made.m', 'int')
            ctx.assume(z3.And(n >= 1, m >= 1))
            obj.fields.update(coeffs=A.symbolic(ctx, 'made.c!%d' % t, (n, m), 'c'), values=A.symbolic(ctx, 'made.v!%d' % t, (n, m), 'c'),
                              isReal=A.symbolic(ctx, 'made.real!%d' % t, (m,), 'b'), ishappy=ctx.fresh('made.happy', 'bool'))
            self.ops.append((obj, op, kw))
            return

        def conv(name, x):
            return I.call(self.V.get(TF + name), (x,), {})
        C = A.copy(I.np.arr(coeffs)) if coeffs is not None else conv('vals2coeffs', values)
        v = I.np.arr(values) if values is not None else conv('coeffs2vals', coeffs)
        (n, m), vs = v.shape, v.snap()
        one = ctx.prove(T.eq(m, 1))
        real = A.symbolic(ctx, 'flag!%d' % t, () if one else (m,), 'b')
        rs = real.snap()
        W = A.new(ctx, (n, m), lambda j, q: T.Cx(T.to_cx(vs(j, q)).re, T.ite(rs(*([] if one else [q])), F0, T.to_cx(vs(j, q)).im)), 'c')
        obj.fields.update(coeffs=C.astype('c') if hasattr(C, 'astype') else A.new(ctx, C.shape, C.snap(), 'c'), values=W, isReal=real, ishappy=True)
        self.data.append((obj, C.snap(), vs))


# ---------------------------------------------------------------- calculus (C08)
OPS = TR + 'operations.'


def made(V, M, r, k=0):
    """the object made from data that r is"""
    for o, c, v in M.data:
        if o is r:
            return o.fields['coeffs'], o.fields['values'], o.fields['isReal']
    V.ensure('a new function', False)
    raise PathDone()


def wave(n):
    return lambda i: T.to_real(T.sub(i, T.floordiv(n, 2)))


@contract(TT + '.diff', 'C08')
def t_diff(V):
    """coefficient of mode k of the N-th derivative: (i pi k)^N c_k (the cosine at the end of an even length has no odd
    derivative on its grid and is left out); operand unchanged"""
    f, c, v, n, m = trig(V, 'f')
    vals, M = Vals(V, True), Made(V)
    fz, cs = freeze_obj(V, f), c.snap()
    N = V.choose('default', 1, 2, 3, 'any')
    k = V.int('N', 1) if N == 'any' else N
    r = V.numpy('diff', f, **({} if N == 'default' else {'n': k}))
    N = 1 if N == 'default' else N
    ensure_obj_frozen(V, 'operand', fz)
    C, W, R = made(V, M, r)
    pi = V.ctx.get_pi()
    if not V.ensure_shape('shape', C, (n, m)):
        return
    i, q = V.int('i', 0), V.int('q', 0)
    V.assume(T.land(i < n, q < m))
    w = T.mul(pi, wave(n)(i))
    z = T.to_cx(cs(i, q))
    if N == 'any':
        want = T.mul(V.ctx.powi(T.Cx(F0, w), k), z)
    else:
        want = z
        for _ in range(N):
            want = T.mul(T.Cx(F0, w), want)
    lo = T.land(T.eq(T.mod(n, 2), 0), T.eq(T.mod(N if N != 'any' else k, 2), 1), T.eq(i, 0))
    V.ensure('coefficients', T.lor(lo, eqc(C.snap()(i, q), want)))
    fresh_buf(V, 'own storage', C, c, v)
    vals.ensure('values of the derivative', W, C, lambda q: R.snap()(*([q] if R.ndim else [])))


@contract(TT + '.sum', 'C08')
def t_sum(V):
    """twice the coefficient of the constant mode of each column; operand unchanged"""
    one = V.choose(False, True)
    f, c, v, n, m = trig(V, 'f', m=1 if one else V.int('m', 2))
    fz, cs, rs = freeze_obj(V, f), c.snap(), f.fields['isReal'].snap()
    r = V.numpy('sum', f)
    ensure_obj_frozen(V, 'operand', fz)
    q = 0 if one else V.int('q', 0)
    V.assume(T.lt(q, m))
    V.ensure('one number per column', (r.ndim if isinstance(r, Arr) else 0) == (0 if one else 1))
    got = T.to_cx(r.snap()(*([] if one else [q])) if isinstance(r, Arr) else r)
    z = T.to_cx(cs(T.floordiv(n, 2), q))
    V.ensure('real part', T.eq(got.re, T.mul(2, z.re)))
    V.ensure('imaginary part', T.eq(got.im, T.ite(rs(q), F0, T.mul(2, z.im))))


@contract(TT + '.cumsum', 'C08', budget=200)
def t_cumsum(V):
    """mode k becomes c_k / (i pi k)^p, p = 1, 2, 3, the constant mode is such that the integral vanishes at -1; without a mean only
    (else an error); operand unchanged"""
    p = V.choose(1, 2, 3)
    h, odd = V.int('h', 0), V.choose(True, False)
    if not odd:
        V.assume(h >= 1)
    f, c, v, n, m = trig(V, 'f', n=T.add(T.mul(2, h), 1 if odd else 0))
    vals, M = Vals(V, True), Made(V)
    vsc = vscale_stub(V, n, m)
    fz, cs = freeze_obj(V, f), c.snap()
    try:
        r = V.numpy('cumsum', f, p) if p > 1 else V.numpy('cumsum', f)
    except PyRaise as e:
        V.ensure('refused', e.exc == 'RuntimeError')
        tol = lambda q: T.mul(T.mul(10, T.maxv(V.attr(f, 'vscale'), vsc(q))), V.attr(f, 'eps'))
        V.ctx.forall(m, lambda q: T.le(V.ctx.absv(cs(h, q)), tol(q)))
        V.ensure('some column has a mean', False)
        return
    ensure_obj_frozen(V, 'operand', fz)
    C, W, R = made(V, M, r)
    pi = V.ctx.get_pi()
    if not V.ensure_shape('shape', C, (n, m)):
        return
    q = V.int('q', 0)
    V.assume(q < m)
    i = V.int('i', 0)
    V.assume(i < n)
    z, g = T.to_cx(cs(i, q)), T.to_cx(C.snap()(i, q))
    k = T.to_real(T.sub(i, h))
    edge = not odd and p % 2 == 1
    skip = T.lor(T.eq(i, h), T.eq(i, 0) if edge else False)
    w = T.mul(pi, k)
    w = {1: w, 2: T.mul(w, w), 3: T.mul(w, T.mul(w, w))}[p]
    re, im = {1: (T.neg(g.im), g.re), 2: (T.neg(g.re), T.neg(g.im)), 3: (g.im, T.neg(g.re))}[p]
    V.ensure('derivative of the integral, real part', T.lor(skip, T.eq(T.mul(w, re), z.re)))
    V.ensure('derivative of the integral, imaginary part', T.lor(skip, T.eq(T.mul(w, im), z.im)))
    cc = C.snap()
    at = V.ctx.Sum(0, T.mul(2, h), lambda l: T.ite(T.lor(T.eq(l, h), False if odd else T.eq(l, n)), T.Cx(F0, F0), scale(sgn(T.sub(l, h)), cc(l, q))))
    at, mean = T.to_cx(at), T.to_cx(cc(h, q))
    V.ensure('zero at -1, real part', T.eq(mean.re, T.neg(at.re)))
    V.ensure('zero at -1, imaginary part', T.eq(mean.im, T.neg(at.im)))
    fresh_buf(V, 'own storage', C, c, v)


@contract(OPS + 'circshift', 'C08')
def t_shift(V):
    """f(x - a): mode k is multiplied by exp(-i pi a k); operand unchanged"""
    f, c, v, n, m = trig(V, 'f')
    vals, M = Vals(V, True), Made(V)
    fz, cs, rs = freeze_obj(V, f), c.snap(), f.fields['isReal'].snap()
    a = V.real('a')
    r = V.call(OPS + 'circshift', f, a)
    ensure_obj_frozen(V, 'operand', fz)
    if V.ctx.prove(T.eq(a, 0)):
        V.ensure_array('the same function', r.fields['coeffs'], (n, m), cs)
        return
    C, W, R = made(V, M, r)
    if not V.ensure_shape('shape', C, (n, m)):
        return
    i, q = V.int('i', 0), V.int('q', 0)
    V.assume(T.land(i < n, q < m))
    e = Waves(V)
    e.instance(-1, a)
    k = T.sub(i, T.floordiv(n, 2))
    z = V.ctx.powi(e(-1, a), k)
    g, w = T.to_cx(C.snap()(i, q)), T.mul(z, T.to_cx(cs(i, q)))
    V.ensure('real part', T.eq(g.re, w.re))
    V.ensure('imaginary part', T.eq(g.im, w.im))
    fresh_buf(V, 'own storage', C, c, v)
    vals.ensure('values of the shifted function', W, C, lambda q: T.lor(rs(q), R.snap()(*([q] if R.ndim else []))))


def parts(name, part, doc):
    def spec(V):
        f, c, v, n, m = trig(V, 'f')
        vals, M = Vals(V, True), Made(V)
        fz, vs, rs = freeze_obj(V, f), v.snap(), f.fields['isReal'].snap()
        r = V.numpy(name, f)
        ensure_obj_frozen(V, 'operand', fz)
        if r is f:
            p = V.int('p', 0)
            V.assume(p < m)
            V.ensure('only a real function is its own', rs(p))
            V.ensure('not the imaginary part', name != 'imag')
            return
        C, W, R = made(V, M, r)
        if not V.ensure_shape('shape', W, (n, m)):
            return
        j, q = V.int('j', 0), V.int('q', 0)
        V.assume(T.land(j < n, q < m))
        got, have = T.to_cx(W.snap()(j, q)), T.to_cx(vs(j, q))
        flag = R.snap()(*([q] if R.ndim else []))
        want = part(have)
        if vals.log:
            V.ensure('values, real part', T.eq(got.re, want.re))
            V.ensure('values, imaginary part', T.eq(got.im, T.ite(flag, F0, want.im)))
            lg = vals.log[-1]
            V.ensure('coefficients are those of the values', lg[0] == 'vals2coeffs' and same(V.ctx, lg[1], lambda a, b: part(T.to_cx(vs(a, b))), (n, m), lg[3]))
            V.ensure_array('coefficients', C, (n, m), lg[4])
        else:
            V.ensure('zero function', T.land(T.eq(got.re, 0), T.eq(got.im, 0)))
            V.ensure('only when the part is negligible', T.lor(name == 'imag' and rs(q), T.lt(V.ctx.absv(want.re), V.attr(f, 'eps'))))
            V.ensure_array('zero coefficients', C, (n, m), lambda a, b: T.Cx(F0, F0))
        fresh_buf(V, 'own storage', C, c, v)
        fresh_buf(V, 'own values', W, c, v)
    spec.__doc__ = doc
    contract(TT + '.' + name, 'C08')(spec)


parts('real', lambda z: T.Cx(z.re, F0), 'the values are the real parts, the coefficients theirs; operand unchanged')
parts('imag', lambda z: T.Cx(z.im, F0), 'the values are the imaginary parts, the coefficients theirs; operand unchanged')


def feval_stub(V):
    """values of functions at points: an unknown function of the point and column for each object"""
    fns = {}

    def feval(I, f, x):
        if id(f) not in fns:
            k = len(fns) // 2
            fns[id(f)] = (I.ctx.func('val%d.re' % k, 'fi', 'f'), I.ctx.func('val%d.im' % k, 'fi', 'f'))
            fns[('keep', id(f))] = f
        F = fns[id(f)]
        m = f.fields['coeffs'].shape[1]
        if not isinstance(x, Arr):
            raise Unsupported('scalar point')
        xs = x.snap()
        return A.new(I.ctx, (x.shape[0], m), lambda i, j: T.Cx(F[0](T.to_z3(T.to_real(xs(i))), T.to_z3(j)), F[1](T.to_z3(T.to_real(xs(i))), T.to_z3(j))), 'c')
    V.stub(TT + '.feval', feval, TT + '.horner')
    V.stub(TT + '.__call__', feval, TT + '.horner')
    return lambda f: (lambda x, q: T.Cx(fns[id(f)][0](T.to_z3(x), T.to_z3(q)), fns[id(f)][1](T.to_z3(x), T.to_z3(q)))) if id(f) in fns else None


def sampled(V, M, r, m, what, fn):
    """r is built from an operation whose values at any points are fn(x, column)"""
    mine = [(o, op, kw) for o, op, kw in M.ops if o is r]
    if not mine:
        V.ensure('built by sampling', False)
        return
    N = V.int('N', 2)
    x = V.arr('x', (N,))
    xs = x.snap()
    g = V.call(mine[0][1], x)
    if not V.ensure_shape('%s: shape' % what, g, (N, m)):
        return
    i, q = V.int('i', 0), V.int('q', 0)
    V.assume(T.land(i < N, T.lt(q, m)))
    a, b = T.to_cx(g.snap()(i, q)), T.to_cx(fn(xs(i), q))
    V.ensure('%s: real part' % what, T.eq(a.re, b.re))
    V.ensure('%s: imaginary part' % what, T.eq(a.im, b.im))


@contract(TT + '.conj', 'C08')
def t_conj(V):
    """the function with the conjugate values at every point; operand unchanged"""
    f, c, v, n, m = trig(V, 'f')
    vals, M = Vals(V, True), Made(V)
    val = feval_stub(V)
    fz = freeze_obj(V, f)
    r = V.numpy('conj', f)
    ensure_obj_frozen(V, 'operand', fz)
    x0 = V.arr('x0', (2,))
    V.method(f, 'feval', x0)
    sampled(V, M, r, m, 'conjugate', lambda x, q: T.Cx(val(f)(x, q).re, T.neg(val(f)(x, q).im)))


# ---------------------------------------------------------------- arithmetic (C09)
TU = TR + 'ufuncs.'


def prolong_stub(V, vals):
    """prolong and trigtech.prolong as their callers see them"""
    def both(I, c, N, real):
        n, m = c.shape
        if I.ctx.prove(T.eq(n, N)):
            return A.copy(c), I.call(V.get(TF + 'coeffs2vals'), (c,), {})
        d = A.new(I.ctx, (N, m), resized(c.snap(), n, N), 'c')
        w = I.call(V.get(TF + 'coeffs2vals'), (d,), {})
        ws, rs = w.snap(), real.snap()
        fl = (lambda q: rs(q)) if real.ndim else (lambda q: rs())
        return d, A.new(I.ctx, (N, m), lambda j, q: T.Cx(T.to_cx(ws(j, q)).re, T.ite(fl(q), F0, T.to_cx(ws(j, q)).im)), 'c')

    def inplace(I, f, N):
        if I.ctx.prove(T.eq(f.fields['coeffs'].shape[0], N)):
            return f
        c, w = both(I, f.fields['coeffs'], N, f.fields['isReal'])
        I.set_field(f, 'coeffs', c)
        I.set_field(f, 'values', w)
        return f
    for w in ('trig_simplify', ):
        V.stub(TR + w + '.prolong', lambda I, c, N, isReal=None: both(I, c, N, isReal), TR + 'trig_simplify.prolong')
    V.stub(TT + '.prolong', inplace, TT + '.prolong')
    return both


def flag_of(R):
    s = R.snap()
    return (lambda q: s(q)) if R.ndim else (lambda q: s())


def ensure_parts(V, what, a, sh, want):
    """entries of a are want, real and imaginary part"""
    if not V.ensure_shape('%s: shape' % what, a, sh):
        return
    s = a.snap()
    V.ensure_all('%s: real part' % what, sh, lambda i, q: T.eq(T.to_cx(s(i, q)).re, T.to_cx(want(i, q)).re))
    V.ensure_all('%s: imaginary part' % what, sh, lambda i, q: T.eq(T.to_cx(s(i, q)).im, T.to_cx(want(i, q)).im))


def dropped(fn, flag):
    return lambda j, q: T.Cx(T.to_cx(fn(j, q)).re, T.ite(flag(q), F0, T.to_cx(fn(j, q)).im))


def result(V, M, r, f, inplace):
    """coefficients, values, flags of the result and whether values of flagged columns lose their imaginary part"""
    if inplace:
        V.ensure('returns the left operand', r is f)
        return r.fields['coeffs'], r.fields['values'], r.fields['isReal'], False
    C, W, R = made(V, M, r)
    return C, W, R, True


def t_number(V, m, arr=True):
    k = V.choose('number', 'integer', 'complex', *(['array'] if arr else []))
    if k == 'number':
        s = V.real('s')
        return s, lambda q: s
    if k == 'integer':
        s = V.int('s')
        return s, lambda q: T.to_real(s)
    if k == 'complex':
        s = T.Cx(V.real('s.re'), V.real('s.im'))
        return s, lambda q: s
    a = V.arr('s', (m,), V.choose('f', 'c'))
    V.assume(T.gt(m, 1))
    return a, lambda q: a.elem(q)


@contract(TU + 'negative', 'C09')
def t_neg(V):
    """-f has the negated coefficients and values; f unchanged"""
    f, c, v, n, m = trig(V, 'f')
    M = Made(V)
    fz, cs, vs = freeze_obj(V, f), c.snap(), v.snap()
    r = V.numpy('negative', f)
    C, W, R = made(V, M, r)
    ensure_parts(V, 'coefficients', C, (n, m), lambda i, q: scale(-1, cs(i, q)))
    ensure_parts(V, 'values', W, (n, m), dropped(lambda i, q: scale(-1, vs(i, q)), flag_of(R)))
    fresh_buf(V, 'own storage', C, c)
    ensure_obj_frozen(V, 'operand', fz)


@contract(TU + 'add#number', 'C09', budget=200)
def t_add_number(V):
    """f + s, s + f, f += s: s is added to the constant mode and to every value of its column, nothing else changes"""
    f, c, v, n, m = trig(V, 'f')
    M = Made(V)
    s, sv = t_number(V, m)
    form = V.choose('f+s', 's+f', 'in place')
    cs, vs, fz = c.snap(), v.snap(), freeze_obj(V, f)
    rs = f.fields['isReal'].snap()
    r = V.numpy('add', *((s, f) if form == 's+f' else (f, s)), **(dict(out=(f,)) if form == 'in place' else {}))
    C, W, R, drop = result(V, M, r, f, form == 'in place')
    h = T.floordiv(n, 2)
    z = T.Cx(F0, F0)
    ensure_parts(V, 'coefficients', C, (n, m), lambda i, q: T.add(T.to_cx(cs(i, q)), T.ite(T.eq(i, h), T.to_cx(sv(q)), z)))
    val = lambda j, q: T.add(T.to_cx(vs(j, q)), T.to_cx(sv(q)))
    ensure_parts(V, 'values', W, (n, m), dropped(val, flag_of(R)) if drop else val)
    if drop:
        fresh_buf(V, 'own storage', C, c)
        ensure_obj_frozen(V, 'operand', fz)
    else:
        q = V.int('q', 0)
        V.assume(q < m)
        V.ensure('flagged columns are real', T.implies(flag_of(R)(q), T.land(rs(q), T.lt(V.ctx.absv(T.to_cx(sv(q)).im), Fraction(1, 10 ** 14)))))


@contract(TU + 'add#columns', 'C09')
def t_add_columns(V):
    """one column plus a row of numbers gives one column per number"""
    f, c, v, n, m = trig(V, 'f', m=1)
    k = V.int('k', 2)
    M = Made(V)
    s = V.arr('s', (1, k), V.choose('f', 'c'))
    cs, vs, fz = c.snap(), v.snap(), freeze_obj(V, f)
    r = V.numpy('add', *((f, s) if V.choose(0, 1) else (s, f)))
    C, W, R = made(V, M, r)
    h, z = T.floordiv(n, 2), T.Cx(F0, F0)
    ensure_parts(V, 'coefficients', C, (n, k), lambda i, q: T.add(T.to_cx(cs(i, 0)), T.ite(T.eq(i, h), T.to_cx(s.elem(0, q)), z)))
    ensure_parts(V, 'values', W, (n, k), dropped(lambda j, q: T.add(T.to_cx(vs(j, 0)), T.to_cx(s.elem(0, q))), flag_of(R)))
    ensure_obj_frozen(V, 'operand', fz)


@contract(TU + 'add', 'C09', budget=300)
def t_add(V):
    """f + g, f - g, f += g: the values on the longer grid add up and the coefficients are theirs (the zero function has one
    mode); operands other than the left one of += unchanged"""
    f, c, v, n, m = trig(V, 'f')
    g, d, w, k, _ = trig(V, 'g', m=m)
    vals, M = Vals(V, True), Made(V)
    both = prolong_stub(V, vals)
    inplace = V.choose(False, True)
    sub = V.choose(False, True) if not inplace else False
    V.assume(V.choose(T.eq(n, k), T.lt(n, k), T.gt(n, k)))
    fz, gz = freeze_obj(V, f), freeze_obj(V, g)
    cs, vs, ds, ws, rf, rg = c.snap(), v.snap(), d.snap(), w.snap(), f.fields['isReal'].snap(), g.fields['isReal'].snap()
    r = V.numpy('subtract' if sub else 'add', f, g, **(dict(out=(f,)) if inplace else {}))
    L = T.maxv(n, k)
    C, W, R, drop = result(V, M, r, f, inplace)
    ensure_obj_frozen(V, 'right operand', gz)
    if not inplace:
        ensure_obj_frozen(V, 'left operand', fz)
        fresh_buf(V, 'own storage', C, c, d)
    sg = -1 if sub else 1
    gm = (lambda i, q: scale(sg, ds(i, q)))
    F, G = vs, (lambda j, q: scale(sg, ws(j, q)))
    neg = [x for x in M.data if x[0] is not r]
    if sub:
        # values of -g: g's own, negated; flagged columns of -g are real
        o, nc, nv = neg[0]
        fl = flag_of(o.fields['isReal'])
        G = dropped(G, fl)
        rg = fl
    if V.ctx.prove(T.lt(n, k)):
        _, a = both(V.I, A.new(V.ctx, (n, m), cs, 'c'), k, A.new(V.ctx, (m,), rf, 'b'))
        F = a.snap()
    elif V.ctx.prove(T.gt(n, k)):
        _, a = both(V.I, A.new(V.ctx, (k, m), gm, 'c'), n, A.new(V.ctx, (m,), rg, 'b'))
        G = a.snap()
    fl = lambda q: T.land(rf(q), rg(q))
    total = dropped(lambda j, q: T.add(T.to_cx(F(j, q)), T.to_cx(G(j, q))), fl)
    if V.ctx.prove(T.eq(W.shape[0], 1)) and not V.ctx.prove(T.eq(L, 1)):
        V.ensure_all('zero function', (1, m), lambda i, q: T.land(eqc(C.snap()(i, q), 0), eqc(W.snap()(i, q), 0)))
        lg = [x for x in vals.log if x[0] == 'vals2coeffs']
        j, q = V.int('j', 0), V.int('q', 0)
        V.assume(T.land(T.lt(j, L), T.lt(q, m)))
        z = [eqc(total(j, q), 0)] + [eqc(x[4](j, q), 0) for x in lg]
        V.ensure('only when the values or the coefficients vanish', T.lor(*z))
        return
    ensure_parts(V, 'values', W, (L, m), dropped(total, flag_of(R)) if drop else total)
    lg = [x for x in vals.log if x[0] == 'vals2coeffs']
    V.ensure('one conversion of the sum', len(lg) == 1 and same(V.ctx, lg[0][1], total, (L, m), lg[0][3]))
    if V.ctx.prove(T.eq(C.shape[0], L)):
        ensure_parts(V, 'coefficients', C, (L, m), lg[0][4])
    if inplace:
        q = V.int('q', 0)
        V.assume(q < m)
        V.ensure('flags', T.eq(flag_of(R)(q), fl(q)))


@contract(TU + 'multiply#number', 'C09')
def t_mul_number(V):
    """f * s, s * f, f *= s: coefficients and values are multiplied"""
    f, c, v, n, m = trig(V, 'f')
    M = Made(V)
    s, sv = t_number(V, m, arr=False) if V.choose('number', 'row') == 'number' else (None, None)
    if s is None:
        s = V.arr('s', (1, m), V.choose('f', 'c'))
        V.assume(T.gt(m, 1))
        sv = lambda q: s.elem(0, q)
    form = V.choose('f*s', 's*f', 'in place')
    cs, vs, fz = c.snap(), v.snap(), freeze_obj(V, f)
    rs = f.fields['isReal'].snap()
    r = V.numpy('multiply', *((s, f) if form == 's*f' else (f, s)), **(dict(out=(f,)) if form == 'in place' else {}))
    C, W, R, drop = result(V, M, r, f, form == 'in place')
    P = lambda fn: (lambda i, q: T.mul(T.to_cx(fn(i, q)), T.to_cx(sv(q))))
    ensure_parts(V, 'coefficients', C, (n, m), P(cs))
    ensure_parts(V, 'values', W, (n, m), dropped(P(vs), flag_of(R)) if drop else P(vs))
    if drop:
        fresh_buf(V, 'own storage', C, c)
        ensure_obj_frozen(V, 'operand', fz)
    else:
        q = V.int('q', 0)
        V.assume(q < m)
        V.ensure('flagged columns are real', T.implies(flag_of(R)(q), T.land(rs(q), T.eq(T.to_cx(sv(q)).im, 0))))


@contract(TU + 'multiply#constant', 'C09')
def t_mul_const(V):
    """a factor with one mode scales the other one column by column"""
    f, c, v, n, m = trig(V, 'f', m=V.int('m', 2))
    g, d, w, _, _ = trig(V, 'g', n=1, m=m)
    M = Made(V)
    order = V.choose(0, 1)
    V.assume(T.gt(n, 1))
    fz, gz = freeze_obj(V, f), freeze_obj(V, g)
    cs, ds, vs = c.snap(), d.snap(), v.snap()
    r = V.numpy('multiply', *((f, g) if order else (g, f)))
    C, W, R = made(V, M, r)
    ensure_parts(V, 'coefficients', C, (n, m), lambda i, q: T.mul(T.to_cx(cs(i, q)), T.to_cx(ds(0, q))))
    ensure_parts(V, 'values', W, (n, m), dropped(lambda i, q: T.mul(T.to_cx(vs(i, q)), T.to_cx(ds(0, q))), flag_of(R)))
    ensure_obj_frozen(V, 'left operand', fz)
    ensure_obj_frozen(V, 'right operand', gz)


FOURIER_PAIR = 'discrete Fourier transform pair: vals2coeffs(coeffs2vals(c)) = c in exact arithmetic'


def trig_chop(V, CH, want, length, tolk):
    """standardChopCmplx as seen by its callers, see lib.chop_hook (complex entries)"""
    def h(I, coeffs, tol, minimum=17):
        ctx = I.ctx
        _, k = column_of(ctx, coeffs)
        ctx.oblige(T.eq(coeffs.shape[0], length), 'standardChop gets a whole column', 'call')
        i = ctx.fresh('row', 'int')
        ctx.oblige(T.implies(T.land(T.le(0, i), T.lt(i, length)), eqc(coeffs.elem(i), want(i, k))), 'standardChop gets the moduli of the coefficients', 'call')
        ctx.oblige(T.eq(tol, tolk(k)), 'standardChop gets the tolerance', 'call')
        r = CH(T.to_z3(k))
        ctx.assume(z3.And(r >= 0, r <= T.to_z3(length)))
        return r
    V.stub(DT + 'standardChopCmplx', h, DT + 'standardChopCmplx')


def stored(st):
    """names assigned in the loop"""
    return sorted({x.id for x in ast.walk(st) if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store) and not x is getattr(st, 'target', None)})


def simp_inv(I, fr, st, ordn, loops):
    """running maximum of the cutoffs"""
    if not isinstance(st, ast.For):
        return None
    M = I.verifying.state['M']
    from .cheb import maxed

    def prov(env):
        nm = [x for x in maxed(st) if env.has(x)] or [x for x in stored(st) if env.has(x) and T.is_scalar(env[x]) and T.is_int(env[x])]
        if len(nm) != 1:
            raise Unsupported('no running maximum')
        return [('running maximum of the cutoffs', T.eq(env[nm[0]], T.maxv(1, M(T.to_z3(env.k)))))]
    return prov


@contract(TR + 'trig_simplify.simplify_coeffs', 'C09', inv={TR + 'trig_simplify.simplify_coeffs': simp_inv}, budget=300)
def simplify_coeffs(V):
    """the modes -K..K of the coefficients given, K half the largest chop point of the columns (never more modes than given), and
    their values; what is chopped are the moduli of the coefficients of the modes 0, 1 and -1, 2 and -2, ...; operand unchanged"""
    h, odd = V.int('h', 0), V.choose(True, False)
    if not odd:
        V.assume(h >= 1)
    n, m = T.add(T.mul(2, h), 1 if odd else 0), V.int('m', 1)
    c, real, eps = V.arr('c', (n, m), 'c'), V.arr('real', (m,), 'b'), V.real('eps')
    fz, cs = V.freeze(c), c.snap()
    vals = Vals(V)
    both = prolong_stub(V, vals)
    lens = []

    def back(I, w, **k):
        for nm, s, r, sh, rs in vals.log:
            if nm == 'coeffs2vals' and same(I.ctx, w.snap(), rs, w.shape, sh):
                assumed(I.ctx, FOURIER_PAIR)
                return A.new(I.ctx, sh, lambda i, q: T.to_cx(s(i, q)), 'c')
        raise Unsupported('coefficients of other values')
    V.stub(TF + 'vals2coeffs', back, TF + 'vals2coeffs')

    def pro(I, cc, N, isReal=None):
        lens.append(N)
        return both(I, cc, N, isReal)
    V.stub(TR + 'trig_simplify.prolong', pro, TR + 'trig_simplify.prolong')
    ctx = V.ctx
    CH = ctx.func('CH', 'i', 'i')
    M = max_schema(ctx, CH)
    V.c.state = dict(M=M)
    _, F = modes(cs, n)

    def moduli(i, k):
        j = T.floordiv(T.add(i, 1), 2)
        a = T.add(ctx.absv(F(j, k)), ctx.absv(F(T.sub(0, j), k)))
        return T.ite(T.eq(i, 0), ctx.absv(F(0, k)), a)

    def chop(I, col, tol, minimum=17):
        N = lens[-1] if lens else n
        H = T.floordiv(N, 2)
        ctx.oblige(T.land(T.ge(N, 17), T.gt(N, n)), 'padded length', 'call')
        _, k = column_of(ctx, col)
        ctx.oblige(T.ge(col.shape[0], T.sub(N, 1)), 'standardChop gets a whole column', 'call')
        i = ctx.fresh('row', 'int')
        ctx.oblige(T.implies(T.land(T.le(0, i), T.lt(i, col.shape[0])), T.land(T.eq(T.to_cx(col.elem(i)).re, moduli(i, k)), T.eq(T.to_cx(col.elem(i)).im, 0))),
                   'standardChop gets the moduli of the coefficients', 'call')
        ctx.oblige(T.eq(tol, eps), 'standardChop gets the tolerance', 'call')
        r = CH(T.to_z3(k))
        ctx.assume(z3.And(r >= 0, r <= T.to_z3(col.shape[0])))
        return r
    V.stub(DT + 'standardChopCmplx', chop, DT + 'standardChopCmplx')
    w, d = V.call(TR + 'trig_simplify.simplify_coeffs', c, real, eps)
    cut = T.minv(T.maxv(1, M(T.to_z3(m))), n)
    K = T.floordiv(cut, 2)
    K = T.ite(T.eq(T.mod(cut, 2), 0), K, T.floordiv(T.sub(cut, 1), 2))
    L = T.add(T.mul(2, K), 1)
    ensure_parts(V, 'coefficients', d, (L, m), resized(cs, n, L))
    fresh_buf(V, 'own storage', d, c)
    V.ensure_frozen('operand', fz)
    vals.ensure('values', w, d)


@contract(TT + '.__eq__', 'C09')
def t_eq(V):
    """equal exactly when shape, coefficients and values are; operands unchanged"""
    f, c, v, n, m = trig(V, 'f')
    k, l = (n, m) if V.choose('same shape', 'other') == 'same shape' else (V.int('k', 1), V.int('l', 1))
    g, d, w, _, _ = trig(V, 'g', n=k, m=l)
    if k is not n:
        V.assume(T.lor(T.ne(k, n), T.ne(l, m)))
    fz, gz = freeze_obj(V, f), freeze_obj(V, g)
    r = V.method(f, '__eq__', g)
    ensure_obj_frozen(V, 'left operand', fz)
    ensure_obj_frozen(V, 'right operand', gz)
    if k is not n:
        V.ensure('shapes differ', T.lnot(r))
        return
    i, q = V.int('i', 0), V.int('q', 0)
    V.assume(T.land(i < n, q < m))
    here = lambda i, q: T.land(eqc(c.elem(i, q), d.elem(i, q)), eqc(v.elem(i, q), w.elem(i, q)))
    V.ensure('equal: entries agree', T.implies(r, here(i, q)))
    V.ctx.forall((n, m), here)
    V.ensure('entries agree: equal', r)


def a_simplify(V, log):
    """simplify_coeffs: the same modes in an odd length, the values theirs"""
    def f(I, c, real, eps=None):
        (n, m), s = c.shape, c.snap()
        h = I.ctx.fresh('cut', 'int')
        I.ctx.assume(h >= 0)
        L = T.add(T.mul(2, h), 1)
        d = A.new(I.ctx, (L, m), resized(s, n, L), 'c')
        w = I.call(V.get(TF + 'coeffs2vals'), (d,), {})
        log.append((s, n, L, d, w.snap()))
        return w, d
    V.stub(TR + 'trig_simplify.simplify_coeffs', f, TR + 'trig_simplify.simplify_coeffs')


@contract(TU + 'multiply', 'C09', budget=300)
def t_mul(V):
    """f * g: the values multiply on a grid with enough modes for the product, the coefficients are theirs, then simplified;
    squares of real functions and f conj(f) are not negative; operands unchanged"""
    cols = V.choose('same', 'left one', 'right one')
    m = V.int('m', 1 if cols == 'same' else 2)
    f, c, v, n, m1 = trig(V, 'f', n=V.int('n', 2), m=1 if cols == 'left one' else m)
    g, d, w, k, m2 = trig(V, 'g', n=V.int('k', 2), m=1 if cols == 'right one' else m)
    vals, M, log = Vals(V, True), Made(V), []
    both = prolong_stub(V, vals)
    a_simplify(V, log)
    eq = V.choose('product', 'square', 'conjugate') if cols == 'same' else 'product'
    asked = []

    def equal(I, x, y):
        asked.append((x, y))
        if eq == 'square':
            return True
        return eq == 'conjugate' and len(asked) == 2
    V.stub(TT + '.__eq__', equal, TT + '.__eq__')
    fz, gz = freeze_obj(V, f), freeze_obj(V, g)
    cs, ds, rf, rg = c.snap(), d.snap(), f.fields['isReal'].snap(), g.fields['isReal'].snap()
    r = V.numpy('multiply', f, g)
    ensure_obj_frozen(V, 'left operand', fz)
    ensure_obj_frozen(V, 'right operand', gz)
    V.ensure('asks whether the factors are equal', len(asked) >= 1 and asked[0][0] is f and asked[0][1] is g)
    if not log:
        V.ensure('simplified', False)
        return
    s, N, L, dd, ww = log[0]
    need = T.add(T.mul(2, T.add(T.floordiv(n, 2), T.floordiv(k, 2))), 1)
    V.ensure('enough modes for the product', T.ge(N, need))
    _, a = both(V.I, A.new(V.ctx, (n, m1), cs, 'c'), N, A.new(V.ctx, (m1,), rf, 'b'))
    _, b = both(V.I, A.new(V.ctx, (k, m2), ds, 'c'), N, A.new(V.ctx, (m2,), rg, 'b'))
    F, G = a.snap(), b.snap()
    f1 = (lambda j, q: T.to_cx(F(j, 0))) if cols == 'left one' else (lambda j, q: T.to_cx(F(j, q)))
    g1 = (lambda j, q: T.to_cx(G(j, 0))) if cols == 'right one' else (lambda j, q: T.to_cx(G(j, q)))
    if eq == 'square':
        g1 = f1
    if eq == 'conjugate':
        g1 = lambda j, q: T.Cx(f1(j, q).re, T.neg(f1(j, q).im))
    prod = lambda j, q: T.mul(f1(j, q), g1(j, q))
    lg = [x for x in vals.log if x[0] == 'vals2coeffs']
    ok = len(lg) >= 1 and same(V.ctx, lg[0][1], prod, (N, m), lg[0][3])
    V.ensure('coefficients of the product of the values', ok)
    V.ensure('these are simplified', s is lg[0][4] or same(V.ctx, s, lg[0][4], (N, m), (N, m)))
    if not [x for x in M.data if x[0] is r]:
        V.ensure('a new function', False)
        return
    C, W, R = made(V, M, r)
    i, q = V.int('i', 0), V.int('q', 0)
    V.assume(T.land(i < L, q < m))
    if not V.ensure_shape('shape', C, (L, m)):
        return
    pos = len(lg) == 2
    allreal = V.ctx.prove(rf(q))
    V.ensure('made positive only where the product is', not pos or eq == 'conjugate' or eq == 'square' and allreal)
    if pos:
        V.ensure('values of the product are not negative', T.land(T.eq(T.to_cx(W.snap()(i, q)).re, V.ctx.absv(T.to_cx(ww(i, q)))), T.eq(T.to_cx(W.snap()(i, q)).im, 0)))
        ensure_parts(V, 'coefficients are theirs', C, (L, m), lg[1][4])
    else:
        ensure_parts(V, 'coefficients', C, (L, m), dd.snap())
        both_real = lambda q: T.land(rf(0 if cols == 'left one' else q), rg(0 if cols == 'right one' else q))
        fl = flag_of(R)
        ensure_parts(V, 'values', W, (L, m), dropped(ww, lambda q: T.lor(both_real(q), fl(q))))


@contract(TU + 'true_divide', 'C09', budget=200)
def t_div(V):
    """f / s and f /= s divide coefficients and values; s / g and f / g sample the quotient of the values; operands unchanged"""
    kind = V.choose('f/s', 'f/row', 's/g', 'f/g')
    f, c, v, n, m = trig(V, 'f')
    M = Made(V)
    cs, vs, fz = c.snap(), v.snap(), freeze_obj(V, f)
    if kind in ('f/s', 'f/row'):
        if kind == 'f/s':
            s = V.choose('real', 'complex')
            s = V.real('s') if s == 'real' else T.Cx(V.real('s.re'), V.real('s.im'))
            V.assume(T.ge(V.ctx.absv(s), Fraction(1, 10 ** 16)))
            sv = lambda q: s
            if T.is_cx(s):
                V.assume(T.gt(T.add(T.mul(s.re, s.re), T.mul(s.im, s.im)), 0))
        else:
            s = V.arr('s', (m,), 'f')
            V.assume(T.gt(m, 1))
            V.ctx.forall(m, lambda q: T.ne(s.elem(q), 0))
            sv = lambda q: s.elem(q)
        form = V.choose(False, True)
        r = V.numpy('true_divide', f, s, **(dict(out=(f,)) if form else {}))
        C, W, R, drop = result(V, M, r, f, form)
        P = lambda fn: (lambda i, q: T.div(T.to_cx(fn(i, q)), sv(q)))
        ensure_parts(V, 'coefficients', C, (n, m), P(cs))
        ensure_parts(V, 'values', W, (n, m), dropped(P(vs), flag_of(R)) if drop else P(vs))
        if drop:
            fresh_buf(V, 'own storage', C, c)
            ensure_obj_frozen(V, 'operand', fz)
        return
    val = feval_stub(V)
    if kind == 's/g':
        s = V.choose('real', 'integer')
        s = V.real('s') if s == 'real' else V.int('s')
        r = V.numpy('true_divide', s, f)
        ensure_obj_frozen(V, 'operand', fz)
        V.method(f, 'feval', V.arr('x0', (2,)))
        sampled(V, M, r, m, 'quotient', lambda x, q: T.div(T.to_cx(T.to_real(s)), val(f)(x, q)))
        return
    g, d, w, k, _ = trig(V, 'g', m=m)
    gz = freeze_obj(V, g)
    r = V.numpy('true_divide', f, g)
    ensure_obj_frozen(V, 'left operand', fz)
    ensure_obj_frozen(V, 'right operand', gz)
    for h in (f, g):
        V.method(h, 'feval', V.arr('x0', (2,)))
    sampled(V, M, r, m, 'quotient', lambda x, q: T.div(val(f)(x, q), val(g)(x, q)))


@contract(TU + 'power', 'C09')
def t_pow(V):
    """f ** p samples the powers of the values; f unchanged"""
    f, c, v, n, m = trig(V, 'f')
    M, val = Made(V), feval_stub(V)
    fz = freeze_obj(V, f)
    p = V.choose(2, 3, 5)
    r = V.numpy('power', f, p)
    ensure_obj_frozen(V, 'operand', fz)
    V.method(f, 'feval', V.arr('x0', (2,)))

    def want(x, q):
        z = w = val(f)(x, q)
        for _ in range(p - 1):
            w = T.mul(w, z)
        return w
    sampled(V, M, r, m, 'power', want)


@contract(TT + '.__getitem__', 'C07')
def t_getitem(V):
    """column q: its coefficients and values; function unchanged, storage own"""
    f, c, v, n, m = trig(V, 'f')
    M = Made(V)
    fz, cs, vs = freeze_obj(V, f), c.snap(), v.snap()
    q = V.int('q', 0)
    V.assume(q < m)
    r = V.I.np.getitem(f, q) if hasattr(V.I.np, 'getitem') else V.method(f, '__getitem__', q)
    ensure_obj_frozen(V, 'function', fz)
    C, W, R = made(V, M, r)
    ensure_parts(V, 'coefficients', C, (n, 1), lambda i, _: cs(i, q))
    ensure_parts(V, 'values', W, (n, 1), dropped(lambda i, _: vs(i, q), flag_of(R)))
    fresh_buf(V, 'own storage', C, c)
    fresh_buf(V, 'own values', W, v)


@contract(TT + '.const_index', 'C07')
def t_const(V):
    """place of mode 0"""
    f, c, v, n, m = trig(V, 'f')
    V.called = True
    V.ensure('place of the constant mode', T.eq(V.attr(f, 'const_index'), T.floordiv(n, 2)))


TRF = TR + 'refine.'


def callable_(V, m, flat=False):
    F = (V.ctx.func('F.re', 'fi', 'f'), V.ctx.func('F.im', 'fi', 'f'))
    el = lambda x, j: T.Cx(F[0](T.to_z3(T.to_real(x)), T.to_z3(j)), F[1](T.to_z3(T.to_real(x)), T.to_z3(j)))

    def op(I, x):
        xs = x.snap()
        return A.new(V.ctx, x.shape, lambda i: el(xs(i), 0), 'c') if flat else A.new(V.ctx, (x.shape[0], m), lambda i, j: el(xs(i), j), 'c')
    return SymFun('op', op), el


def tpoint(j, N):
    return T.add(-1, T.div(T.mul(2, T.to_real(j)), T.to_real(N)))


@contract(TRF + 'Refine.__call__#nested values', 'C07')
def t_nested(V):
    """every entry is a sample at its equispaced point, the number of points doubles and never exceeds the maximum length; else it
    gives up unchanged"""
    flat = V.choose(False, True)
    m = 1 if flat else V.int('m', 1)
    op, F = callable_(V, m, flat)
    N = V.int('N', 1)
    r = V.call(TRF + 'Refine', op=op, strategy='nested')
    r.fields['values'] = A.new(V.ctx, (N, m), lambda i, j: F(tpoint(i, N), j), 'c')
    t, c, v, n, _ = trig(V, 't')
    ml = V.attr(t, 'maxLength')
    w, give = V.call(r, t)
    if V.ctx.prove(give if T.kind(give) == 'b' else T.ne(give, 0)):
        V.ensure('gives up only when the next grid is too long', T.gt(T.mul(2, N), ml))
        V.ensure_array('samples kept', w, (N, m), lambda i, j: F(tpoint(i, N), j))
        return
    V.ensure('does not give up', T.lnot(give) if T.kind(give) == 'b' else T.eq(give, 0))
    M = T.mul(2, N)
    V.ensure('at most the maximum length', T.le(M, ml))
    ensure_parts(V, 'samples at the points', w, (M, m), lambda i, j: F(tpoint(i, M), j))
    V.ensure('samples are kept', r.fields['values'] is w)


@contract(TRF + 'Refine.__call__#resample values', 'C07')
def t_resample(V):
    """a first or later sampling: samples at equispaced points, the one at -1 is the average of both ends; no more points than the
    maximum length, else it gives up"""
    flat = V.choose(False, True)
    m = 1 if flat else V.int('m', 1)
    op, F = callable_(V, m, flat)
    N, give0 = V.int('N', 1), V.choose(False, True)
    strat = V.choose('nested', 'resample')
    r = V.call(TRF + 'Refine', op=op, strategy=strat)
    t, c, v, n, _ = trig(V, 't')
    V.stub(TRF + 'RefineBase.get_n', lambda I, s, f: (N, give0))
    old = r.fields['values']
    w, give = V.call(r, t)
    V.ensure('gives up when told', give is give0)
    if give0:
        V.ensure('unchanged', w is old)
        return
    val = lambda i, j: T.ite(T.eq(i, 0), scale(half, T.add(F(T.to_real(-1), j), F(T.to_real(1), j))), F(tpoint(i, N), j))
    ensure_parts(V, 'samples at the points', w, (N, m), val)
    V.ensure('samples are kept', r.fields['values'] is w)


@contract(TT + '.inner', 'C09', budget=200)
def t_inner(V):
    """the rectangle rule, on enough points for the product, of f conj(g) for every pair of columns; operands unchanged"""
    one = V.choose(True, False)
    f, c, v, n, m = trig(V, 'f', m=1 if one else V.int('m', 2))
    g, d, w, k, l = trig(V, 'g', m=1 if one else V.int('l', 2))
    vals = Vals(V)
    both = prolong_stub(V, vals)
    fz, gz = freeze_obj(V, f), freeze_obj(V, g)
    cs, ds, rf, rg = c.snap(), d.snap(), f.fields['isReal'].snap(), g.fields['isReal'].snap()
    if not one:
        V.assume(T.eq(m, l))
    V.stub(TT + '.__eq__', lambda I, a, b: I.ctx.fresh('equal', 'bool'), TT + '.__eq__')
    r = V.numpy('inner', f, g)
    ensure_obj_frozen(V, 'left operand', fz)
    ensure_obj_frozen(V, 'right operand', gz)
    N = T.add(n, k)
    _, a = both(V.I, A.new(V.ctx, (n, m), cs, 'c'), N, A.new(V.ctx, (m,), rf, 'b'))
    _, b = both(V.I, A.new(V.ctx, (k, l), ds, 'c'), N, A.new(V.ctx, (l,), rg, 'b'))
    F, G = a.snap(), b.snap()
    p, q = (0, 0) if one else (V.int('p', 0), V.int('q', 0))
    V.assume(T.land(T.lt(p, m), T.lt(q, l)))

    def term(j):
        x, y = T.to_cx(F(j, p)), T.to_cx(G(j, q))
        return T.mul(scale(T.div(Fraction(2), T.to_real(N)), x), T.Cx(y.re, T.neg(y.im)))
    want = T.to_cx(V.ctx.Sum(0, T.sub(N, 1), term))
    V.ensure('shape', (r.ndim if isinstance(r, Arr) else 0) == (0 if one else 2))
    got = T.to_cx(r.snap()(*([] if one else [p, q])) if isinstance(r, Arr) else r)
    V.ensure('real part', T.eq(got.re, want.re))
    V.ensure('imaginary part', T.lor(T.eq(got.im, want.im), T.land(rf(p), rg(q), T.eq(got.im, 0))))


# ------------------------------------------------------------------ periodic functions on [a, b]
FUN = 'funpy.fun.Fun'


def pfun(V, name, a=None, b=None):
    """an arbitrary periodic function on [a, b]"""
    from .fun import interval, domain_arr, MAP
    if a is None:
        a, b = interval(V, name)
    t = trig(V, name)[0]
    d = domain_arr(V, a, b)
    return V.new(FUN, onefun=t, domain=d, mapping=V.call(MAP, d)), t, (a, b)


def same_place(V, r, f, ab):
    V.ensure_array('domain kept', V.attr(r, 'domain'), (2,), lambda i: T.ite(T.eq(i, 0), *ab))
    V.ensure('mapping kept', V.attr(r, 'mapping') is V.attr(f, 'mapping'))


def power_of(h, k):
    p = F1
    for _ in range(k):
        p = T.mul(p, h)
    return p


def entry(x):
    return x.elem(*[0] * x.ndim) if isinstance(x, Arr) else x


@contract('funpy.fun.diff#periodic', ('C08', 'C06'))
def p_diff(V):
    """derivative of order k: the one of the reference function divided by ((b-a)/2)^k"""
    f, t, (a, b) = pfun(V, 'f')
    k = V.choose(0, 1, 2, 3)
    got, div = [], []
    res, out = trig(V, 'r')[0], trig(V, 'q')[0]
    V.stub('funpy.trig.trigtech.diff', lambda I, g, n=1, axis=0: (got.append((g, n)), res)[1], TT + '.diff')
    V.stub(TU + 'true_divide', lambda I, x, y, **kw: (div.append((x, y)), out)[1], TU + 'true_divide')
    fz = freeze_obj(V, t)
    r = V.numpy('diff', f, n=k)
    V.ensure('derivative of the reference function', len(got) == 1 and got[0][0] is t)
    V.ensure('same order', T.eq(got[0][1], k))
    V.ensure('divided once', len(div) == 1 and div[0][0] is res)
    V.ensure('chain rule', T.eq(entry(div[0][1]), power_of(T.div(T.sub(b, a), 2), k)))
    V.ensure('result', V.attr(r, 'onefun') is out)
    same_place(V, r, f, (a, b))
    ensure_obj_frozen(V, 'operand', fz)


@contract('funpy.fun.cumsum#periodic', ('C08', 'C06'))
def p_cumsum(V):
    """antiderivative of order k: the one of the reference function times ((b-a)/2)^k"""
    f, t, (a, b) = pfun(V, 'f')
    k = V.choose(None, 1, 2, 3)
    got, mul = [], []
    res, out = trig(V, 'r')[0], trig(V, 'q')[0]
    V.stub('funpy.trig.trigtech.cumsum', lambda I, g, m=1, **kw: (got.append((g, m)), res)[1], TT + '.cumsum')

    def times(I, x, y, **kw):
        mul.append((x, y) if x is res else (y, x))
        return out
    V.stub(TU + 'multiply', times, TU + 'multiply')
    fz = freeze_obj(V, t)
    r = V.numpy('cumsum', f) if k is None else V.numpy('cumsum', f, k)
    V.ensure('antiderivative of the reference function', len(got) == 1 and got[0][0] is t)
    V.ensure('same order', T.eq(got[0][1], k or 1))
    V.ensure('scaled once', len(mul) == 1 and mul[0][0] is res)
    V.ensure('chain rule', T.eq(entry(mul[0][1]), power_of(T.div(T.sub(b, a), 2), k or 1)))
    V.ensure('result', V.attr(r, 'onefun') is out)
    same_place(V, r, f, (a, b))
    ensure_obj_frozen(V, 'operand', fz)


@contract('funpy.fun.integrals#periodic', ('C08', 'C06'))
def p_sums(V):
    """integrals and inner products on [a, b]: those of the reference functions times (b-a)/2"""
    from .fun import interval
    a, b = interval(V, 'd')
    f, t, _ = pfun(V, 'f', a, b)
    g, s, _ = pfun(V, 'g', a, b)
    which = V.choose('sum', 'inner', 'innerw', 'dot')
    got = []
    v = T.Cx(V.real('vr'), V.real('vi'))

    def ip(I, x, y=None, **k):
        got.append((x, y))
        return v
    V.stub('funpy.trig.trigtech.sum', lambda I, x, axis=0, **k: ip(I, x), TT + '.sum')
    for nm in ('inner', 'dot', 'innerw'):
        V.stub('funpy.trig.trigtech.' + nm, ip, TT + '.inner')
    fz, gz = freeze_obj(V, t), freeze_obj(V, s)
    r = V.call('funpy.fun.innerw', f, g) if which == 'innerw' else V.numpy(which, *((f,) if which == 'sum' else (f, g)))
    V.ensure('of the reference functions', len(got) == 1 and got[0][0] is t and got[0][1] is (None if which == 'sum' else s))
    V.ensure('scaled', eqc(entry(r), T.mul(v, T.div(T.sub(b, a), 2))))
    ensure_obj_frozen(V, 'left operand', fz)
    ensure_obj_frozen(V, 'right operand', gz)


@contract('funpy.fun.parts#periodic', ('C08', 'C06'))
def p_parts(V):
    """real and imaginary part and shift: those of the reference function on the same interval"""
    f, t, ab = pfun(V, 'f')
    which = V.choose('real', 'imag', 'roll')
    got = []
    res = trig(V, 'r')[0]
    sh = V.real('shift')
    one = lambda I, x, *y: (got.append((x,) + y), res)[1]
    V.stub('funpy.trig.trigtech.real', one)
    V.stub('funpy.trig.trigtech.imag', one)
    V.stub(OPS + 'circshift', one, OPS + 'circshift')
    fz = freeze_obj(V, t)
    r = V.numpy(which, f, *((sh,) if which == 'roll' else ()))
    V.ensure('of the reference function', len(got) == 1 and got[0][0] is t)
    if which == 'roll':
        V.ensure('by the shift', T.eq(got[0][1], sh))
    V.ensure('result', V.attr(r, 'onefun') is res)
    same_place(V, r, f, ab)
    ensure_obj_frozen(V, 'operand', fz)


@contract(FUN + '.__call__#periodic', ('C07', 'C06'))
def p_call(V):
    """f(x) is the value of the reference function at the preimage of x, for every x in [a, b]"""
    f, t, (a, b) = pfun(V, 'f')
    N = V.int('N', 2)
    x = V.arr('x', (N,))
    V.ctx.forall(N, lambda i: T.land(T.le(a, x.elem(i)), T.le(x.elem(i), b)))
    got = []
    val = V.arr('val', (N,), 'c')

    def h(I, s, y):
        got.append((s, y.snap(), y.shape))
        return A.new(I.ctx, (N,), lambda i: val.elem(i), 'c')
    V.stub(TT + '.horner', h, TT + '.horner')
    fz, ft = V.freeze(x), freeze_obj(V, t)
    r = V.call(f, x)
    V.ensure('one evaluation of the reference function', len(got) == 1 and got[0][0] is t)
    V.ensure('points', len(got[0][2]) == 1 and T.eq(got[0][2][0], N))
    V.ensure_all('at the preimages', (N,), lambda i: T.eq(got[0][1](i), T.sub(T.div(T.mul(2, T.sub(x.elem(i), a)), T.sub(b, a)), 1)))
    if V.ensure_shape('one value per point', r, (N,)):
        V.ensure_all('its values', (N,), lambda i: eqc(r.elem(i), val.elem(i)))
    V.ensure_frozen('points unchanged', fz)
    ensure_obj_frozen(V, 'function', ft)
