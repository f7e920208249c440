from .lib import *

NW = 'funpy.newton.'
GHOST = None


def ghost(V, **fields):
    from pyvc.interp import PyClass
    o = Obj(PyClass('Ghost', [], {}, None))
    V.ctx.counter += 1
    o.born = V.ctx.counter
    V.ctx.reg[o.born] = o
    o.fields.update(fields)
    return o


class System:
    """an arbitrary nonlinear system as the drivers see it: residual, linear solve (which may fail), size.  The ghost fields
    record the last point of evaluation, the last correction that was computed, its squared norm and the counters."""

    def __init__(self, V, N, trial=None):
        self.V, self.N, self.trial = V, N, trial
        ctx = V.ctx
        z = A.symbolic(ctx, 'g.0', (N,), 'f')
        self.g = ghost(V, at=z, lin=z, dx=z, f=z, ok=False, solves=0, builds=0, first=z)
        self.n = 0
        self.frame = None

    def vec(self, nm):
        self.n += 1
        self.V.ctx.counter += 1
        return A.symbolic(self.V.ctx, '%s!%d' % (nm, self.V.ctx.counter), (self.N,), 'f')

    def set(self, nm, v):
        self.V.I.set_field(self.g, nm, v)

    def get(self, nm):
        return self.g.fields[nm]

    def keep(self, nm, a):
        """snapshot of a vector"""
        s = a.snap()
        self.set(nm, A.new(self.V.ctx, (self.N,), lambda i: s(i), 'f'))

    def same(self, a, b, name):
        ctx = self.V.ctx
        if not isinstance(a, Arr) or a.ndim != 1:
            ctx.oblige(False, name, 'call')
            return
        i = ctx.fresh('q', 'int')
        ctx.oblige(T.implies(T.land(T.le(0, i), T.lt(i, self.N)), T.eq(a.elem(i), b(i))), name, 'call')

    def nsystem(self):
        V = self.V
        o = ghost(V, size=self.N)
        o.fields['rhs'] = SymFun('rhs', self.rhs)
        o.fields['solve'] = SymFun('solve', self.solve)
        return o

    def types(self, *vectors):
        isvec = lambda v: isinstance(v, Arr) and v.ndim == 1 and v.shape[0] is self.N
        return {**{v: (isvec, lambda v=v: self.vec(v)) for v in vectors}, 'nsystem': (lambda v: isinstance(v, Obj) and v.fields.get('rhs') is not None and v.fields.get('size') is self.N, self.nsystem)}

    def factory(self):
        def make(I, x, *a, **k):
            self.keep('lin', x)
            self.set('builds', T.add(self.get('builds'), 1))
            return self.nsystem()
        return SymFun('NewtonSystem', make)

    def rhs(self, I, x):
        if self.trial is not None:
            self.trial(self, x)
        self.keep('at', x)
        f = self.vec('F')
        self.keep('f', f)
        return f

    def solve(self, I, b):
        self.same(b, lambda i: T.neg(self.get('f').elem(i)), 'the linear system is solved for minus the residual at the last point')
        d = self.vec('dx')
        self.keep('dx', d)
        ok = I.ctx.fresh('lin.ok', 'bool')
        self.set('ok', ok)
        self.set('solves', T.add(self.get('solves'), 1))
        return d, ok

    def inner(self):
        """a real inner product: the sum of the products, never negative on equal arguments"""
        def f(I, a, b):
            r = I.np.call('numpy.dot', [a, b], {})
            i = I.ctx.fresh('q', 'int')
            if a is b or I.ctx.prove(T.eq(a.elem(i), b.elem(i))):
                I.ctx.assume(T.to_z3(T.ge(r, 0)))
                I.ctx.positive = True
                assumed(I.ctx, 'the inner product handed to a Newton driver is positive on equal arguments')
            return r
        return SymFun('inner', f)

    def sq(self, a):
        s = a.snap()
        return self.V.ctx.Sum(0, T.sub(self.N, 1), lambda i: T.mul(s(i), s(i)))


def start(V, cb=False, **kw):
    N = V.int('N', 1)
    x = V.arr('x0', (N,))
    S = System(V, N, **kw)
    tol = V.real('tol', 0)
    cb = 'callback' if cb else V.choose('default', 'callback')
    ck = {} if cb == 'default' else {'callback': SymFun('callback', lambda I, *a: I.ctx.fresh('cb', 'bool'))}
    return N, x, S, tol, ck


def success_post(V, S, r, tol, miter):
    x, ok, k, nd = r[0], r[1], r[2], r[3]
    ok = ok if T.kind(ok) == 'b' else T.ne(ok, 0)
    V.ensure('success only after a solve that succeeded', T.implies(ok, S.get('ok')))
    V.ensure('success only if the last computed correction is at or below the tolerance', T.implies(ok, T.le(S.sq(S.get('dx')), T.mul(tol, tol))))
    V.ensure('no more than the maximum number of iterations', T.le(k, T.maxv(miter, 0)))
    V.ensure('iterations are counted', T.ge(k, 0))
    if V.ctx.prove(T.lnot(ok)):
        return ok
    xs = x.snap()
    V.ensure_all('on success the state is the last evaluated iterate plus the last correction', (S.N,),
                 lambda i: T.implies(ok, T.eq(xs(i), T.add(S.get('at').elem(i), S.get('dx').elem(i)))))
    return ok


SELF = {}


def standard_inv(I, fr, st, o, loops):
    S = I.ctx.S

    def inv(env):
        k, miter = env['k'], env['miter']
        x = env['x']
        return [('not yet successful', T.lnot(env['newton_success'])), ('iterations are counted', T.ge(k, 0)),
                ('one system per iteration', T.eq(S.get('builds'), k)), ('one solve per iteration', T.eq(S.get('solves'), k)),
                ('at most the maximum number of iterations', T.le(k, T.maxv(miter, 0)))]
    inv.peel = 1
    inv.types = S.types()
    return inv


@contract(NW + 'newton_standard.newton_standard', 'C16', inv={NW + 'newton_standard.newton_standard': standard_inv})
def newton_standard(V):
    """for every system, start, tolerance, iteration limit and callback: success means that the last linear solve succeeded
    with a correction at or below the tolerance and that the returned state is the point of evaluation plus this correction;
    at most miter iterations, one linearisation and one solve at the current point for each"""
    N, x, S, tol, ck = start(V)
    V.ctx.S = S
    miter = V.int('miter')
    r = V.call(NW + 'newton_standard.newton_standard', S.factory(), x, tol=tol, miter=miter, inner=S.inner(), **ck)
    ok = success_post(V, S, r, tol, miter)
    V.ensure('at most the maximum number of linear solves', T.le(S.get('solves'), T.maxv(miter, 0)))
    V.ensure_all('linearised where the residual was evaluated', (N,), lambda i: T.implies(ok, T.eq(S.get('lin').elem(i), S.get('at').elem(i))))
    V.ensure('reported correction norm', T.implies(ok, T.le(r[3], tol)))


def qnerr_inv(I, fr, st, o, loops):
    S = I.ctx.S
    import ast as _a
    if isinstance(st, _a.For):
        # the update loop changes v only
        return lambda env: []

    def inv(env):
        k, miter = env['k'], env['miter']
        sg, dx = env['sigma'], env['dx']
        last = dx.elem(k)
        if not isinstance(last, Arr):
            raise Unsupported('no vector in the list of corrections')
        ls, xs, at = last.snap(), env['x'].snap(), S.get('at').snap()
        return [('not yet successful', T.lnot(env['newton_success'])), ('iterations are counted', T.ge(k, 0)),
                ('at most the maximum number of iterations', T.le(k, T.maxv(miter, 0))),
                ('the squared norm of the current correction', T.eq(sg.elem(k), S.V.ctx.Sum(0, T.sub(S.N, 1), lambda i: T.mul(ls(i), ls(i))))),
                ('the residual was evaluated at the current iterate', lambda i: T.eq(xs(i), at(i)), S.N)]
    inv.peel = 1
    return inv


@contract(NW + 'qnerr.qnerr', 'C16', inv={NW + 'qnerr.qnerr': qnerr_inv}, budget=200)
def qnerr(V):
    """quasi-Newton iteration, called from nleq_err or on its own: success means that the correction applied last, from the last
    point of evaluation, is at or below the tolerance; at most miter iterations"""
    N, x, S, tol, ck = start(V)
    V.ctx.S = S
    miter = V.int('miter', 0)
    own = V.choose('called', 'own')
    theta = V.real('theta_max', 0)
    inner = S.inner()
    if own == 'own':
        r = V.call(NW + 'qnerr.qnerr', S.factory(), x, tol=tol, miter=miter, theta_max=theta, inner=inner, **ck)
    else:
        d0 = V.arr('d0', (N,))
        S.keep('at', x)
        r = V.call(NW + 'qnerr.qnerr', S.nsystem(), x, tol=tol, miter=miter, theta_max=theta, inner=inner, dx0=d0, nleqcalled=True, itr=V.int('itr', 0), **ck)
    y, ok, k, nd = r[0], r[1], r[2], r[3]
    ok = ok if T.kind(ok) == 'b' else T.ne(ok, 0)
    V.ensure('no more than the maximum number of iterations', T.le(k, miter))
    V.ensure('iterations are counted', T.ge(k, 0))
    if V.ctx.prove(T.lnot(ok)):
        return
    ys, at = y.snap(), S.get('at').snap()
    V.ensure('success only if the correction from the last point of evaluation is at or below the tolerance',
             T.implies(ok, T.le(V.ctx.Sum(0, T.sub(N, 1), lambda i: T.mul(T.sub(ys(i), at(i)), T.sub(ys(i), at(i)))), T.mul(tol, tol))))


def nleq_inv(I, fr, st, o, loops):
    S = I.ctx.S
    S.frame = fr
    outer = st is loops[0]

    def inv(env):
        base = [('not yet successful', T.lnot(env['newton_success'])), ('damping factor not limited', T.lnot(env['lambda_limitation'])),
                ('damping factor at most one', T.le(env['lam'], 1))]
        if not outer:
            return base + [('the last linear solve succeeded', env['linear_success'])]
        k = env['k']
        xs, at, fs, f = env['x'].snap(), S.get('at').snap(), env['fxk'].snap(), S.get('f').snap()
        return base + [('iterations are counted', T.ge(k, 1)), ('at most the maximum number of iterations', T.le(k, env['miter'])),
                       ('the residual was evaluated at the current iterate', lambda i: T.eq(xs(i), at(i)), S.N),
                       ('the residual is kept', lambda i: T.eq(fs(i), f(i)), S.N)]
    if outer:
        inv.first = True
        inv.types = S.types('fxk', 'dx', 'dxbar')
    return inv


def trial(S, x):
    """residuals away from the current iterate: at x + lam dx with lambda_min < lam <= 1"""
    v = S.frame.vars if S.frame is not None else {}
    if x is v.get('x') or v.get('x') is None:
        return
    base, d, lam = v['x'], v['dx'], v['lam']
    ctx = S.V.ctx
    i = ctx.fresh('q', 'int')
    ctx.oblige(T.implies(T.land(T.le(0, i), T.lt(i, S.N)), T.eq(x.elem(i), T.add(base.elem(i), T.mul(lam, d.elem(i))))), 'trial iterates are x + lam dx', 'call')
    ctx.oblige(T.land(T.le(v['lambda_min'], lam), T.le(lam, 1)), 'damping factor between the minimum and one', 'call')


def qnerr_stub(V, S, tol, miter):
    def h(I, system, x, **kw):
        ctx = I.ctx
        ctx.oblige(T.eq(kw.get('tol'), tol), 'qnerr works with the same tolerance', 'call')
        ctx.oblige(kw.get('nleqcalled') is True and isinstance(kw.get('dx0'), Arr), 'qnerr is given the accepted correction', 'call')
        m = kw.get('miter')
        ctx.oblige(T.ge(m, 0), 'qnerr is given a number of iterations', 'call')
        kp = ctx.fresh('kp', 'int')
        ctx.assume(T.to_z3(T.land(T.le(0, kp), T.le(kp, m))))
        y = S.vec('y')
        for nm in ('at', 'f', 'dx'):
            S.set(nm, S.vec('q' + nm))
        nd = ctx.fresh('qnd', 'real')
        ne = ctx.fresh('qne', 'int')
        return y, ctx.fresh('qok', 'bool'), kp, nd, ne, system
    V.stub(NW + 'qnerr.qnerr', h, NW + 'qnerr.qnerr')


def nleq(V, kind):
    N, x, S, tol, ck = start(V, trial=trial, cb=True)
    V.ctx.S = S
    miter = V.int('miter', 1)
    qnerr_stub(V, S, tol, miter)
    kw = dict(nonlin=V.choose(*kind)) if kind else dict(lam=V.real('lam', 0, 1), lambda_min=V.real('lmin', Fraction(1, 10 ** 13), 1))
    r = V.call(NW + 'nleq_err.nleq_err', S.factory(), x, tol=tol, miter=miter, inner=S.inner(), restricted=V.bool('restricted'),
               use_qnerr=V.bool('use_qnerr'), **kw, **ck)
    success_post(V, S, r, tol, miter)


NL = dict(inv={NW + 'nleq_err.nleq_err': nleq_inv}, uses=(NW + 'qnerr.qnerr',), budget=200, maxpaths=500)


@contract(NW + 'nleq_err.nleq_err', 'C16', **NL)
def nleq_err(V):
    """damped Newton iteration, any damping factor at the start: success means that the last solve succeeded with a correction
    at or below the tolerance and that the returned state is the point of evaluation plus this correction; at most miter
    iterations; every trial iterate is x + lam dx with lam above the minimum and at most one"""
    nleq(V, None)


@contract(NW + 'nleq_err.nleq_err#defaults', 'C16', **NL)
def nleq_err_defaults(V):
    """the default damping factors satisfy what the contract of nleq_err asks of given ones: 0 < minimum < start <= 1; the
    default number of iterations is positive"""
    N, x, S, tol, ck = start(V, cb=True)
    V.ctx.S = S

    def stop(I, x, *a, **k):
        raise PyRaise('Stop')
    kind = V.choose('mildly', 'highly', 'extremely')
    e = V.raises(lambda: V.call(NW + 'nleq_err.nleq_err', SymFun('NewtonSystem', stop), x, tol=tol, inner=S.inner(), nonlin=kind))
    V.ensure('starts with a linearisation', e is not None and e.exc == 'Stop')
    v = S.frame.vars
    V.ensure('minimum is positive', T.gt(v['lambda_min'], 0))
    V.ensure('start above the minimum', T.gt(v['lam'], v['lambda_min']))
    V.ensure('start at most one', T.le(v['lam'], 1))
    V.ensure('iterations allowed', T.ge(v['miter'], 1))


# ------------------------------------------------------------------ GIANT with the iterative linear solver
GI = NW + 'giant.giant_gbit'


class GSystem(System):
    def nsystem(self):
        o = System.nsystem(self)
        o.fields['matrix'] = SymFun('matrix', lambda I, *a, **k: (SymFun('linop', None), SymFun('precond', None), SymFun('proj', None)))
        o.fields['to_vspace'] = SymFun('to_vspace', None)
        o.fields['system'] = True
        return o


def gbit_stub(V, S):
    """the linear solver as seen by GIANT: a correction, whether it was found, and counters"""
    def h(I, linop, precd, b, **kw):
        d, ok = S.solve(I, b)
        cs = [I.ctx.fresh('cnt', 'int') for _ in range(3)]
        for c in cs:
            I.ctx.assume(c >= 0)
        return (d, ok) + tuple(cs)
    V.stub('funpy.linalg.gbit.gbit', h)


def giant_inv(I, fr, st, o, loops):
    S = I.ctx.S
    S.frame = fr
    outer = st is loops[0]

    def inv(env):
        base = [('not yet successful', T.lnot(env['newton_success'])), ('damping factor at most one', T.le(env['lam'], 1))]
        if not outer:
            return base + [('the last linear solve succeeded', env['success'])]
        k = env['k']
        xs, at, fs, f = env['x'].snap(), S.get('at').snap(), env['fxk'].snap(), S.get('f').snap()
        return base + [('iterations are counted', T.ge(k, 1)), ('at most the maximum number of iterations', T.le(k, env['max_iter'])),
                       ('the residual was evaluated at the current iterate', lambda i: T.eq(xs(i), at(i)), S.N),
                       ('the residual is kept', lambda i: T.eq(fs(i), f(i)), S.N)]
    if outer:
        inv.first = True
        inv.types = S.types('fxk', 'dx', 'dxbar')
    return inv


def giant(V, kind):
    """inexact damped Newton iteration: success means that the last linear solve succeeded with a correction at or below the
    tolerance and the returned state is the point of evaluation plus this correction; at most max_iter iterations; every trial
    iterate is x + lam dx with lam at least the minimum and at most one"""
    N = V.int('N', 1)
    x = V.arr('x0', (N,))
    S = GSystem(V, N, trial=trial)
    V.ctx.S = S
    tol = V.real('tol', 0)
    mx = V.int('max_iter', 1)
    gbit_stub(V, S)
    r = V.call(GI, S.factory(), x, tol=tol, max_iter=mx, inner=S.inner(), nonlin=kind, adaptmode=V.get(NW + 'giant.Adaptmode.' + V.choose('QUADRATIC', 'STANDARD')))
    ok = success_post(V, S, (r[0], r[1], r[2], None), tol, mx)


def _giant(kind):
    f = lambda V: giant(V, kind)
    f.__doc__ = giant.__doc__
    contract(GI + ('' if kind == 'mildly' else '#' + kind), 'C16', inv={GI: giant_inv}, budget=250, maxpaths=500)(f)


for _k in ('mildly', 'highly', 'extremely'):
    _giant(_k)
