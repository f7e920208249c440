"""Roots and extrema (C21)"""
from .lib import *
from . import cheb, grids, calculus, fun as fun_  # noqa: F401
from pyvc.interp import PyClass, Native
from .factor import meth

MM = 'funpy.cheb.minmax.'
PT = 'funpy.cheb.pts.'

EXTREMA = 'a polynomial takes its extrema over [-1, 1] at an end or at a zero of its derivative in [-1, 1] (classical)'


class Function:
    """a real function on [-1, 1] with its grid, its values there, and the zeros of its derivative"""

    def __init__(self, V, tag=''):
        ctx = self.ctx = V.ctx
        self.n = V.int('n' + tag, 1)
        F = ctx.func('F' + tag, 'f', 'f')
        self.F = lambda x: F(T.to_z3(T.to_real(x)))
        self.x = V.arr('x' + tag, (self.n,), 'f')
        self.nr = V.int('roots' + tag, 0)
        self.r = V.arr('r' + tag, (self.nr,), 'f')
        xs, rs = self.xs, self.rs = self.x.snap(), self.r.snap()
        ctx.forall(self.n, lambda i: T.land(T.le(-1, xs(i)), T.le(xs(i), 1)))
        ctx.forall(self.nr, lambda i: T.land(T.le(-1, rs(i)), T.le(rs(i), 1)))
        vals = A.new(ctx, (self.n, 1), lambda i, j: self.F(xs(i)), 'f')

        def call(o, y):
            y = y if isinstance(y, Arr) else V.c.I.np.arr(y)
            s = y.snap()
            # one column: the values at two or more points form a vector
            return A.new(ctx, y.shape, lambda *i: self.F(s(*i)), 'f')
        self.f = Obj(PyClass('Function', [], {'__call__': meth('__call__', call), '__len__': meth('__len__', lambda o: self.n)}, None))
        self.f.fields.update(shape=(self.n, 1), values=vals, n=self.n, m=1, x=self.x)
        self.fp = Obj(PyClass('Derivative', [], {'roots': meth('roots', lambda o: self.r)}, None))
        self.fp.fields.update(shape=(V.int('nd' + tag, 1), 1))


@contract(MM + 'minmaxCol', 'C21')
def minmaxCol(V):
    """reported minimum (maximum): attained at the reported position in [-1, 1], not above (below) the value at any end, stationary or
    grid point"""
    ctx = V.ctx
    assumed(ctx, EXTREMA)
    G = Function(V)
    r = V.call(MM + 'minmaxCol', G.f, G.fp, G.x)
    if not (isinstance(r, tuple) and len(r) == 2):
        V.ensure('values and positions', False)
        return
    vals, pos = r
    if not (V.ensure_shape('values', vals, (2, 1)) and V.ensure_shape('positions', pos, (2, 1))):
        return
    v, p = [vals.elem(i, 0) for i in (0, 1)], [pos.elem(i, 0) for i in (0, 1)]
    q = ctx.fresh('q', 'int')
    for k, nm, cmp in ((0, 'minimum', T.le), (1, 'maximum', T.ge)):
        V.ensure(nm + ' in the interval', T.land(T.le(-1, p[k]), T.le(p[k], 1)))
        V.ensure(nm + ' attained', T.eq(v[k], G.F(p[k])))
        for e in (-1, 1):
            V.ensure('%s and the value at %d' % (nm, e), cmp(v[k], G.F(Fraction(e))))
        V.ensure_all(nm + ' and the stationary points', (G.nr,), lambda i: cmp(v[k], G.F(G.rs(i))))
        V.ensure_all(nm + ' and the grid', (G.n,), lambda i: cmp(v[k], G.F(G.xs(i))))


def columns_inv(I, fr, st, o, loops):
    ctx = I.ctx
    sp = I.verifying.state

    def prov(env):
        arrs = [v for _, v in env.arrays() if v.whole and v.ndim == 2 and ctx.prove(T.eq(v.shape[0], 2))]
        if len(arrs) != 2:
            raise Unsupported('the two tables')
        mem = sp.setdefault('order', {})
        out = []
        # which table holds what is decided by the order of creation
        for nm, a in zip(('values', 'positions'), arrs):
            out.append((nm, (lambda i, j, a=a, nm=nm: T.eq(a.elem(i, j), sp[nm](i, j))), (2, env.k)))
        return out
    return prov


@contract(CT + '.minandmax', 'C21', inv={CT + '.minandmax': columns_inv})
def minandmax(V):
    """column by column: the function, its derivative and its grid"""
    ctx = V.ctx
    f, c, n, m = tech(V, 'f')
    fz = freeze_obj(V, f)
    d, dc, dn, _ = tech(V, 'derivative', m=m)
    val, pos = ctx.func('extreme', 'ii', 'f'), ctx.func('position', 'ii', 'f')
    sp = V.c.state = {'values': lambda i, j: val(T.to_z3(i), T.to_z3(j)), 'positions': lambda i, j: pos(T.to_z3(i), T.to_z3(j))}
    grid = V.arr('grid', (n,), 'f')
    gs = grid.snap()
    V.stub(PT + 'chebpts_type2_compute', lambda I, N, *k: grid if ctx.prove(T.eq(N, n)) else A.symbolic(ctx, 'othergrid', (N,), 'f'))

    def diff(I, g, *a, **k):
        ctx.oblige(g is f and not [x for x in a if x != 1] and all(x in (1, 0) for x in k.values()), 'derivative of the function', 'call')
        return d
    V.stub('funpy.cheb.chebtech.diff', diff)
    col = {}

    def getitem(I, g, j):
        o = Obj(PyClass('Column', [], {}, None))
        col[id(o)] = (o, g, j)
        return o
    V.stub(CT + '.__getitem__', getitem)

    def mmc(I, g, gp, x):
        def of(o, w):
            if o is w:
                return T.implies(T.eq(m, 1), True) if True else True, 0
            e = col.get(id(o))
            return (e is not None and e[1] is w), (e[2] if e else 0)
        a, ja = of(g, f)
        b, jb = of(gp, d)
        ctx.oblige(T.land(a, b, T.eq(ja, jb)), 'one column of the function and of its derivative', 'call')
        if g is f:
            ctx.oblige(T.eq(m, 1), 'single column', 'call')
        q = ctx.fresh('q', 'int')
        ok = isinstance(x, Arr) and x.ndim == 1 and T.land(T.eq(x.shape[0], n), T.implies(T.land(T.le(0, q), T.lt(q, n)), T.eq(x.elem(q), gs(q))))
        ctx.oblige(ok, 'grid of the function', 'call')
        j = ja
        return (A.new(ctx, (2, 1), lambda i, q: sp['values'](i, j), 'f'), A.new(ctx, (2, 1), lambda i, q: sp['positions'](i, j), 'f'))
    V.stub(MM + 'minmaxCol', mmc, MM + 'minmaxCol')
    r = V.method(f, 'minandmax')
    if not (isinstance(r, tuple) and len(r) == 2):
        V.ensure('values and positions', False)
        return
    V.ensure_array('values', r[0], (2, m), sp['values'])
    V.ensure_array('positions', r[1], (2, m), sp['positions'])
    ensure_obj_frozen(V, 'function unchanged', fz)


@contract('funpy.fun.minandmax', 'C21')
def fun_minandmax(V):
    """values of the reference function, positions mapped to the interval"""
    ctx = V.ctx
    f, t, c, n, m, (a, b) = fun_.fun(V, 'f')
    vals, pos = V.arr('vals', (2, m), 'f'), V.arr('pos', (2, m), 'f')
    ps = pos.snap()
    ctx.forall((2, m), lambda i, j: T.land(T.le(-1, ps(i, j)), T.le(ps(i, j), 1)))
    V.stub(CT + '.minandmax', lambda I, g, *x, **k: (vals, pos) if g is t else (None, None), CT + '.minandmax')
    r = V.call('funpy.fun.minandmax', f)
    if not (isinstance(r, tuple) and len(r) == 2):
        V.ensure('values and positions', False)
        return
    vs = vals.snap()
    V.ensure_array('values', r[0], (2, m), vs)
    V.ensure_array('positions', r[1], (2, m), lambda i, j: T.add(a, T.mul(T.div(T.sub(b, a), 2), T.add(ps(i, j), 1))))
    if isinstance(r[1], Arr) and r[1].ndim == 2:
        V.ensure_all('positions in the interval', (2, m), lambda i, j: T.land(T.le(a, r[1].elem(i, j)), T.le(r[1].elem(i, j), b)))


@contract('funpy.fun.roots', 'C21')
def fun_roots(V):
    """the roots of the reference function mapped to the interval"""
    ctx = V.ctx
    f, t, c, n, m, (a, b) = fun_.fun(V, 'f', m=1)
    k = V.int('k', 2)
    rs = V.arr('r', (k,), 'f')
    s = rs.snap()
    ctx.forall(k, lambda i: T.land(T.le(-1, s(i)), T.le(s(i), 1)))
    V.stub(CT + '.roots', lambda I, g, *x, **kw: rs if g is t else None)
    r = V.call('funpy.fun.roots', f)
    V.ensure_array('preimages are the roots', r, (k,), lambda i: T.add(a, T.mul(T.div(T.sub(b, a), 2), T.add(s(i), 1))))
    if isinstance(r, Arr) and r.ndim == 1:
        V.ensure_all('in the interval', (k,), lambda i: T.land(T.le(a, r.elem(i)), T.le(r.elem(i), b)))


@contract(DT + 'chebptsAB', ('C21', 'C19'))
def chebptsAB(V):
    """the Chebyshev grid mapped affinely to [a, b]"""
    n = V.int('n', 1)
    a, b = V.real('a'), V.real('b')
    x = V.arr('grid', (n,), 'f')
    V.stub(PT + 'chebpts_type2_compute', lambda I, N, *k: x if V.ctx.prove(T.eq(N, n)) else None, PT + 'chebpts_type2_compute')
    xs = x.snap()
    r = V.call(DT + 'chebptsAB', n, [a, b])
    V.ensure_array('mapped grid', r, (n,), lambda i: T.add(T.div(T.add(a, b), 2), T.mul(T.div(T.sub(b, a), 2), xs(i))))


@contract(DT + 'roots_scalar', 'C21', uses=(DT + 'polyval',))
def roots_scalar(V):
    """the zero constant has a root, other constants have none, the roots of other functions are those of a multiple of their coefficients"""
    ctx = V.ctx
    f, c, n, m = tech(V, 'f', m=1)
    cs = c.snap()
    k = V.int('k', 2)
    rs = V.arr('r', (k,), 'f')
    V.assume(T.lor(T.eq(n, 1), T.gt(scale_of(V, f), 0)))
    got = []

    def main(I, cc, htol, sp, *a, **kw):
        got.append((cc, cc.snap() if isinstance(cc, Arr) else None))
        ctx.oblige(T.land(T.lt(-1, sp), T.lt(sp, 1)), 'the interval is split in its interior', 'call')
        ctx.oblige(T.gt(htol, 0), 'positive tolerance', 'call')
        return rs
    V.stub(DT + 'roots_main', main, None)
    r = V.call(DT + 'roots_scalar', f, V.real('tolerance', Fraction(1, 10 ** 17)))
    if not isinstance(r, Arr):
        V.ensure('an array', False)
        return
    if got:
        V.ensure('roots of the coefficients', r.buf is rs.buf or r is rs)
        cc, s = got[0]
        if not V.ensure_shape('coefficients', cc, (n,)):
            return
        i = ctx.fresh('i', 'int')
        V.ensure_all('a positive multiple of the coefficients', (n,), lambda i: T.eq(T.mul(s(i), scale_of(V, f)), cs(i, 0)))
    else:
        V.ensure('constant', T.eq(n, 1))
        V.ensure('root exactly for the zero function', T.eq(T.eq(cs(0, 0), 0), T.eq(r.shape[0], 1)))
        V.ensure('no other number of roots', T.lor(T.eq(r.shape[0], 1), T.eq(r.shape[0], 0)))
        if ctx.prove(T.eq(r.shape[0], 1)):
            V.ensure('in the interval', T.land(T.le(-1, r.elem(0)), T.le(r.elem(0), 1)))


def scale_of(V, f):
    v = V.attr(f, 'vscale')
    return v.elem(*[0] * v.ndim) if isinstance(v, Arr) else v


COLLEAGUE = 'for c_d != 0 the eigenvalues of the pencil (A, B) whose columns say t A = z t B with t = (T_{d-1}(z), ..., T_0(z)) exactly for the zeros z of ' \
            'the series are these zeros with multiplicities (colleague matrix, Good 1961; the columns are checked, the theorem is assumed)'
SPLITS = 'the coefficients of T_l on a part of the interval are columns of the matrices of fft_weights (checked at run time only), interpolation of ' \
         'a polynomial of degree n - 1 at n points is exact'


def eigvals_hook(M, A_, B=None, b=None, **kw):
    """the pencil is a multiple of the colleague pencil of the series, column by column"""
    ctx = M.ctx
    sp = ctx.rootspec
    B = b if b is not None else B
    if kw or B is None:
        raise Unsupported('another eigenvalue problem')
    from pyvc.spmodel import Sp
    el = lambda X: X.el if isinstance(X, Sp) else M.arr(X).snap()
    shape = lambda X: X.shape if isinstance(X, Sp) else M.arr(X).shape
    n, c = sp['n'](), sp['c']
    d = T.sub(n, 1)
    for X in (A_, B):
        for k in shape(X):
            ctx.oblige(T.eq(k, d), 'size of the colleague matrix', 'call')
    a, bb = el(A_), el(B)
    i, j = ctx.fresh('row', 'int'), ctx.fresh('column', 'int')
    np_ = ctx.push()
    try:
        ctx.assume(T.to_z3(T.land(T.le(0, i), T.lt(i, d), T.lt(0, j), T.lt(j, d))))
        # z T_k = (T_{k-1} + T_{k+1}) / 2, z T_0 = T_1 with k = d - 1 - j
        half = Fraction(1, 2)
        ctx.oblige(T.eq(a(i, j), T.ite(T.eq(i, T.sub(j, 1)), T.ite(T.eq(j, T.sub(d, 1)), F1, half), T.ite(T.eq(i, T.add(j, 1)), half, F0))),
                   'recurrence of the Chebyshev polynomials', 'call')
        ctx.oblige(T.eq(bb(i, j), T.ite(T.eq(i, j), F1, F0)), 'identity beside the leading coefficient', 'call')
    finally:
        ctx.pop(np_)
    # column 0: 2 sum_i a_i0 T_{d-1-i} = c-multiple of T_{d-2} c_d - sum_{k<d} c_k T_k, b_00 the multiple of c_d
    np_ = ctx.push()
    try:
        ctx.assume(T.to_z3(T.land(T.le(0, i), T.lt(i, d))))
        lead = bb(0, 0)
        cd = c(d)
        ctx.oblige(T.ne(lead, 0), 'leading coefficient', 'call')
        ctx.oblige(T.implies(T.gt(i, 0), T.eq(bb(i, 0), 0)), 'one leading coefficient', 'call')
        # a_i0 / lead = (-c_{d-1-i} + [i = 1] c_d) / (2 c_d)
        ctx.oblige(T.eq(T.mul(T.mul(2, cd), a(i, 0)), T.mul(lead, T.add(T.neg(c(T.sub(T.sub(d, 1), i))), T.ite(T.eq(i, 1), cd, F0)))),
                   'the coefficients of the series', 'call')
    finally:
        ctx.pop(np_)
    assumed(ctx, COLLEAGUE)
    ev = A.symbolic(ctx, 'eigenvalue', (d,), 'c')
    sp['ev'] = ev.snap()
    sp['d'] = d
    return ev


@contract(DT + 'roots_main', 'C21', hooks={'scipy.linalg.eigvals': eigvals_hook}, timeout=10)
def roots_main(V):
    """reported: the zeros of the series up to terms below the tolerance, all in [-1, 1]; every zero in [-1, 1] is reported"""
    ctx = V.ctx
    assumed(ctx, SPLITS)
    N = V.int('n', 1)
    c = V.arr('c', (N,), 'f')
    cs = c.snap()
    eps = V.real('eps', Fraction(1, 10 ** 17), Fraction(1, 10))
    htol = V.real('htol', Fraction(1, 10 ** 17), Fraction(1, 10))
    split = V.real('split')
    V.assume(z3.And(split > -1, split < 1))
    tail = T.mul(T.mul(5, eps), ctx.Sum(0, T.sub(N, 1), lambda k: ctx.absv(cs(k))))
    top = V.int('top', 0)       # the last coefficient that counts
    V.assume(top < N)
    V.assume(T.implies(T.gt(N, 1), T.gt(ctx.absv(cs(top)), tail)))
    tops = lambda k: T.le(ctx.absv(cs(k)), tail)
    ctx.forall(N, tops, lo=T.add(top, 1))
    V.assume(T.ge(tail, 0))
    sp = ctx.rootspec = {'n': lambda: T.add(top, 1), 'c': cs}
    calls, fits = [], []
    TL = {}

    def weights(I, s, *k):
        ctx.oblige(T.eq(s, split), 'point of division', 'call')
        TL.update({t: A.symbolic(ctx, 'weights' + t, (513, 513), 'f') for t in 'LR'})
        return TL['L'], TL['R']
    V.stub(DT + 'fft_weights', weights, None)
    series_ = ctx.func('series', 'f', 'f')
    grid = ctx.func('grid', 'ii', 'f')
    V.stub(PT + 'chebpts_type2_compute', lambda I, m, *k: A.new(ctx, (m,), lambda i: grid(T.to_z3(m), T.to_z3(i)), 'f'), PT + 'chebpts_type2_compute')

    def clenshaw(I, x, cc):
        ctx.oblige(isinstance(cc, Arr) and cc.ndim == 1 and isinstance(x, Arr) and x.ndim == 1, 'a series and points', 'call')
        s, q = cc.snap(), ctx.fresh('q', 'int')
        ctx.oblige(T.eq(cc.shape[0], sp['n']()), 'number of coefficients', 'call')
        ctx.oblige(T.implies(T.land(T.le(0, q), T.lt(q, sp['n']())), T.eq(s(q), cs(q))), 'coefficients of the series', 'call')
        xs = x.snap()
        return A.new(ctx, (x.shape[0], 1), lambda i, j: series_(T.to_z3(xs(i))), 'f')
    V.stub(DT + 'clenshaw', clenshaw, DT + 'clenshaw_scalar')

    def polyfit(I, v, *k):
        ctx.oblige(isinstance(v, Arr) and v.ndim == 2 and T.eq(v.shape[1], 1), 'one column of values', 'call')
        o = A.symbolic(ctx, 'fit%d' % len(fits), v.shape, 'f')
        fits.append((o.snap(), v.shape[0], v.snap()))
        return o
    V.stub(DT + 'polyfit', polyfit, DT + 'polyfit')
    real = V.get(DT + 'roots_main')
    inside = []

    def rec(I, *a, **k):
        if not inside:
            inside.append(1)
            return I.run_func(real, a, k)
        cc, ht, s = a[:3]
        ctx.oblige(len(a) == 4 and not k and isinstance(cc, Arr) and cc.ndim == 1, 'the zeros of one series', 'call')
        ctx.oblige(T.land(T.eq(s, split), T.eq(a[3], eps)), 'same division and tolerance', 'call')
        ctx.oblige(T.land(T.gt(ht, 0), T.ge(cc.shape[0], 1)), 'a series and a positive tolerance', 'call')
        rho = A.symbolic(ctx, 'rho%d' % len(calls), (V.int('nrho%d' % len(calls), 0),), 'f')
        rs = rho.snap()
        ctx.forall(rho.shape[0], lambda i: T.land(T.le(-1, rs(i)), T.le(rs(i), 1)))
        calls.append((cc.shape[0], cc.snap(), rho.shape[0], rs))
        return rho
    V.stub(DT + 'roots_main', rec, None)
    r = V.call(DT + 'roots_main', c, htol, split, eps)
    if not calls:
        ensure_roots(V, r, sp, cs, top, htol)
        return
    V.ensure('both parts', len(calls) == 2)
    if not isinstance(r, Arr) or r.ndim != 1 or len(calls) != 2:
        V.ensure('an array of roots', False)
        return
    n = sp['n']()
    for t, (lo, hi), (m, s, _, _) in zip('LR', ((Fraction(-1), split), (split, F1)), calls):
        phi = lambda x: T.add(T.div(T.add(lo, hi), 2), T.mul(T.div(T.sub(hi, lo), 2), x))
        V.ensure('length of part ' + t, T.eq(m, n))
        fit = [f for f in fits if V.ctx.prove(T.eq(f[1], m)) and same(V, lambda i: f[0](i, 0), s, m)]
        if fit:
            # interpolated: the samples are the values of the series at the images of the grid
            V.ensure_all('samples of part ' + t, (n,), lambda i: T.eq(fit[-1][2](i, 0), series_(T.to_z3(T.simp(phi(grid(T.to_z3(n), T.to_z3(i))))))))
        elif TL:
            V.ensure_all('coefficients of part ' + t, (n,), lambda i: T.eq(s(i), ctx.Sum(0, T.sub(n, 1), lambda l: T.mul(TL[t].elem(i, l), cs(l)))))
        else:
            V.ensure('coefficients of part ' + t, False)
    (_, _, nl, rl), (_, _, nr, rr) = calls
    V.ensure('all roots of both parts', T.eq(r.shape[0], T.add(nl, nr)))
    at = lambda lo, hi, x: T.add(T.div(T.add(lo, hi), 2), T.mul(T.div(T.sub(hi, lo), 2), x))
    V.ensure_all('roots of the left part', (nl,), lambda i: T.eq(r.elem(i), at(Fraction(-1), split, rl(i))))
    V.ensure_all('roots of the right part', (nr,), lambda i: T.eq(r.elem(T.add(nl, i)), at(split, F1, rr(i))))
    V.ensure_all('in the interval', (T.add(nl, nr),), lambda i: T.land(T.le(-1, r.elem(i)), T.le(r.elem(i), 1)))


def same(V, s, t, n):
    i = V.ctx.fresh('i', 'int')
    return V.ctx.prove(T.implies(T.land(T.le(0, i), T.lt(i, n)), T.eq(s(i), t(i))))


def ensure_roots(V, r, sp, cs, top, htol):
    ctx = V.ctx
    if not isinstance(r, Arr) or r.ndim != 1:
        V.ensure('an array of roots', False)
        return
    V.ensure_all('in the interval', (r.shape[0],), lambda i: T.land(T.le(-1, r.elem(i)), T.le(r.elem(i), 1)))
    n = T.add(top, 1)
    if 'ev' not in sp:
        z = T.neg(T.div(cs(0), cs(1)))
        near = T.le(ctx.absv(z), T.add(1, htol))
        one = T.eq(r.shape[0], 1)
        V.ensure('constant or linear', T.le(n, 2))
        V.ensure('number of roots of the constant', T.implies(T.eq(n, 1), T.eq(r.shape[0], T.ite(T.eq(cs(0), 0), 1, 0))))
        V.ensure('number of roots of the linear function', T.implies(T.eq(n, 2), T.eq(r.shape[0], T.ite(near, 1, 0))))
        if not ctx.prove(T.eq(r.shape[0], 0)):
            V.ensure('root of the linear function', T.implies(T.land(T.eq(n, 2), one), T.le(ctx.absv(T.sub(r.elem(0), z)), htol)))
            V.ensure('no error inside', T.implies(T.land(T.eq(n, 2), one, T.le(ctx.absv(z), 1)), T.eq(r.elem(0), z)))
        return
    ev, d = sp['ev'], sp['d']
    e = ctx.fresh('e', 'int')
    V.assume(z3.And(e >= 0, e < T.to_z3(d)))
    real = lambda x: T.lt(T.absv(x.im), htol)
    # where the e-th eigenvalue went
    st = ctx.__dict__.get('sorts', [])
    su = ctx.__dict__.get('supports', [])
    V.ensure('every zero in the interval is reported', T.implies(T.land(T.eq(ev(e).im, 0), T.le(-1, ev(e).re), T.le(ev(e).re, 1)), reported(ctx, r, ev(e).re, e)))


def reported(ctx, r, x, e):
    """some entry of r is x: candidates are the places the models of sorting and selection give to entry e"""
    out = []
    q = T.to_z3(e)
    for s in ctx.__dict__.get('supports', []):
        out.append(s.R(q))
    base = list(out) + [q]
    for s, n, rr, dst in ctx.__dict__.get('sorts', []):
        out += [dst(w) for w in base]
    out.append(q)
    return T.lor(*[T.land(T.le(0, w), T.lt(w, r.shape[0]), T.eq(r.elem(w), x)) for w in out])
