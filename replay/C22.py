"""Generated code of equations, linearisations and parameter derivatives against automatic differentiation"""
from common import *
import contextlib
import io
import signal

GX, GW = np.polynomial.legendre.leggauss(120)
C = np.polynomial.chebyshev


class Hd:
    """numbers a + b e + c h + d e h with e^2 = h^2 = 0 at all quadrature nodes"""

    def __init__(self, v, e=0.0, h=0.0, eh=0.0):
        self.v, self.e, self.h, self.eh = (np.zeros_like(GX) + t for t in (v, e, h, eh))

    def app(self, f, f1, f2):
        return Hd(f, f1 * self.e, f1 * self.h, f1 * self.eh + f2 * self.e * self.h)

    def __add__(s, o):
        return Hd(s.v + o.v, s.e + o.e, s.h + o.h, s.eh + o.eh)

    def __sub__(s, o):
        return Hd(s.v - o.v, s.e - o.e, s.h - o.h, s.eh - o.eh)

    def __mul__(s, o):
        return Hd(s.v * o.v, s.v * o.e + s.e * o.v, s.v * o.h + s.h * o.v, s.v * o.eh + s.eh * o.v + s.e * o.h + s.h * o.e)

    def pow(s, k):
        return s.app(s.v ** k, k * s.v ** (k - 1) if k else 0 * s.v, k * (k - 1) * s.v ** (k - 2) if k > 1 else 0 * s.v)


UN = {'exp': lambda t: t.app(np.exp(t.v), np.exp(t.v), np.exp(t.v)), 'sin': lambda t: t.app(np.sin(t.v), np.cos(t.v), -np.sin(t.v)),
      'cos': lambda t: t.app(np.cos(t.v), -np.sin(t.v), -np.cos(t.v)),
      'tanh': lambda t: t.app(np.tanh(t.v), 1 - np.tanh(t.v) ** 2, -2 * np.tanh(t.v) * (1 - np.tanh(t.v) ** 2))}


class Env:
    """functions by series on [-1, 1] (scaled domain), parameters, directions"""

    def __init__(self, rng, names, pars, cons, dom):
        self.dom, self.names, self.pars, self.cons = dom, names, pars, cons
        deg = lambda: int(rng.randint(1, 5))
        rnd = lambda: np.round(rng.uniform(-1, 1, deg() + 1), 3) / 2
        self.u, self.p, self.q = ({n: rnd() for n in names} for _ in range(3))
        self.c = {n: rnd() for n in cons}
        self.h = (dom[1] - dom[0]) / 2
        self.x = dom[0] + self.h * (GX + 1)
        self.dir = {n: 0.0 for n in names}      # functions perturbed in direction p
        self.dir2 = {n: 0.0 for n in names}     # and in direction q
        self.pdir = {n: 0.0 for n in pars}
        self.big = 0.0

    def der(self, s, k):
        return C.chebval(GX, C.chebder(s, k)) / self.h ** k if k < len(s) else 0 * GX

    def func(self, n, k=0):
        if n in self.c:
            return Hd(self.der(self.c[n], k))
        return Hd(self.der(self.u[n], k), self.dir[n] * self.der(self.p[n], k), self.dir2[n] * self.der(self.q[n], k))


def ev(t, E):
    o = t[0]
    if o == 'num':
        return Hd(float(t[1]))
    if o == 'x':
        return Hd(E.x)
    if o == 'par':
        return Hd(E.pars[t[1]], h=E.pdir[t[1]])
    if o == 'fun':
        return E.func(t[1])
    if o == 'diff':
        return E.func(t[1], t[2])
    if o == '+':
        return ev(t[1], E) + ev(t[2], E)
    if o == '-':
        return ev(t[1], E) - ev(t[2], E)
    if o == '*':
        return ev(t[1], E) * ev(t[2], E)
    if o == '^':
        a = ev(t[1], E)
        E.big = max(E.big, float(np.max(np.abs(a.v))) / 20)
        return a.pow(t[2])
    if o == 'inv':          # 1 / (2 + t^2)
        d = Hd(2.0) + ev(t[1], E).pow(2)
        return d.app(1 / d.v, -1 / d.v ** 2, 2 / d.v ** 3)
    if o == 'D':            # derivative of a product or power
        return ev(xder(t[1]), E)
    if o == 'sqrt':         # sqrt(1 + t^2)
        a = ev(t[1], E)
        w = np.sqrt(1 + a.v ** 2)
        return a.app(w, a.v / w, 1 / w ** 3)
    if o == 'int':
        a = ev(t[1], E)
        s = lambda w: np.dot(GW, w) * E.h
        return Hd(s(a.v), s(a.e), s(a.h), s(a.eh))
    a = ev(t[1], E)
    E.big = max(E.big, float(np.max(np.abs(a.v))))
    return UN[o](a)


def xder(t):
    o = t[0]
    if o == 'fun':
        return ('diff', t[1], 1)
    if o == 'diff':
        return ('diff', t[1], t[2] + 1)
    if o == '*':
        return ('+', ('*', xder(t[1]), t[2]), ('*', t[1], xder(t[2])))
    return ('num', int(o == 'x'))


def show(t):
    o = t[0]
    if o in ('num', 'par', 'fun'):
        return str(t[1])
    if o == 'x':
        return 'x'
    if o == 'diff':
        return 'diff(%s, x, %d)' % (t[1], t[2]) if t[2] > 1 else 'diff(%s, x)' % t[1]
    if o in '+-*':
        return '(%s %s %s)' % (show(t[1]), o, show(t[2]))
    if o == '^':
        return '(%s)**%d' % (show(t[1]), t[2])
    if o == 'inv':
        return '1/(2 + (%s)**2)' % show(t[1])
    if o == 'D':
        return 'diff(%s, x)' % show(t[1])
    if o == 'sqrt':
        return 'sqrt(1 + (%s)**2)' % show(t[1])
    if o == 'int':
        return 'int(%s, x)' % show(t[1])
    return '%s(%s)' % (o, show(t[1]))


def leaf(rng, E, order):
    k = rng.randint(9)
    pick = lambda s: s[rng.randint(len(s))]
    if k < 4:
        return ('fun', pick(E.names))
    if k < 6 and order:
        return ('diff', pick(E.names), int(rng.randint(1, order + 1)))
    if k == 6:
        return ('par', pick(list(E.pars)))
    if k == 7:
        return ('fun', pick(E.cons)) if E.cons else ('x',)
    return ('x',) if rng.randint(2) else ('num', int(rng.randint(1, 4)))


def tree(rng, E, depth, order):
    if depth == 0 or rng.randint(6) == 0:
        return leaf(rng, E, order)
    k = rng.randint(14)
    sub = lambda: tree(rng, E, depth - 1, order)
    if k < 3:
        return ('+', sub(), sub())
    if k < 4:
        return ('-', sub(), sub())
    if k < 8:
        return ('*', sub(), sub())
    if k == 8:
        return ('^', sub(), int(rng.randint(2, 4)))
    if k == 9:
        return ('inv', leaf(rng, E, order))
    if k == 10:
        return ('sqrt', leaf(rng, E, order))
    if k == 11 and order:
        return ('D', ('*', ('fun', E.names[rng.randint(len(E.names))]), leaf(rng, E, order - 1)))
    return (('exp', 'sin', 'cos', 'tanh')[rng.randint(4)], leaf(rng, E, order))


def size(t):
    return 1 + sum(size(s) for s in t[1:] if isinstance(s, tuple))


class Slow(Exception):
    pass


@contextlib.contextmanager
def patience(seconds):
    """sympy may take very long to simplify: such systems are left out"""
    def late(*a):
        raise Slow()
    old = signal.signal(signal.SIGALRM, late)
    signal.alarm(seconds)
    try:
        yield
    finally:
        signal.signal(signal.SIGALRM, old)
        signal.alarm(40)


def tolerant(fn):
    def g(rng, i):
        try:
            fn(rng, i)
        except Slow:
            pass
    g.__name__ = fn.__name__
    return g


def uses(t, kind):
    return t[0] == kind or any(uses(s, kind) for s in t[1:] if isinstance(s, tuple))


def system(*a, **k):
    """a system whose terms stay of moderate size"""
    while True:
        E, eqn = draw(*a, **k)
        E.dir = {n: 1.0 for n in E.names}
        vs = [ev(t, E) for t in eqn]
        E.dir = {n: 0.0 for n in E.names}
        if sum(map(size, eqn)) <= 16 and E.big < 2.5 and all(np.max(np.abs(v.v)) + np.max(np.abs(v.e)) < 1e4 for v in vs):
            return E, eqn


def draw(rng, nonlocal_=False, order=3, depth=3):
    names = ['u', 'v', 'w'][:rng.randint(1, 4)]
    pars = {'a': float(np.round(rng.uniform(0.5, 2), 3)), 'b': float(np.round(rng.uniform(0.5, 2), 3))}
    cons = ['g'] if rng.randint(3) == 0 else []
    dom = [-1, 1] if rng.randint(2) else [float(np.round(rng.uniform(-2, 0), 2)), float(np.round(rng.uniform(0.5, 2), 2))]
    E = Env(rng, names, pars, cons, dom)
    eqn = [tree(rng, E, depth, order) for _ in names]
    if nonlocal_:
        # one integral of the functions themselves, times a coefficient
        for i in range(len(eqn)):
            if rng.randint(3):
                g = ('int', ('*', ('fun', names[rng.randint(len(names))]), tree(rng, E, 1, 0)) if rng.randint(3) else ('^', ('fun', names[0]), 2))
                eqn[i] = ('+', eqn[i], ('*', tree(rng, E, 1, order), g))
    return E, eqn


def build(E, eqn, cts=(), **kw):
    Source, run = need('funpy.colloc.source.compiler', 'Source'), need('funpy.colloc.source.support', 'execute_pycode')
    NS = need('funpy.vectorspaces', 'Namespace')
    Fun = need('funpy.fun', 'Fun')
    s = Source([show(t) for t in eqn], [show(t) for t in cts], [], list(E.names), {n: 'lambda x: 0*x' for n in E.cons}, [], dict(E.pars), [], domain=E.dom)
    with patience(20), contextlib.redirect_stdout(io.StringIO()):
        s.compile(**kw)
    ns = NS()
    run(s.common, ns)
    f = lambda c: Fun(coeffs=np.asfortranarray(np.array(c)[:, None]), domain=E.dom, simplify=False)
    for n in E.cons:
        ns[n] = f(E.c[n])
    for n, v in E.pars.items():
        ns[n] = v
    return s, ns, f, run


def at(g, E):
    v = np.asarray(g(E.x))
    return v.reshape(-1) if v.size > 1 else np.full(GX.shape, float(v.reshape(-1)[0])) if v.size else v


def values(fn, args, E):
    return at(fn(*args), E)


TOL = 1e-8


def residual(s, ns, E, eqn, us, run, src='eqn', what='residual'):
    vec = getattr(s, src)
    run(vec.emit(), ns)
    check(len(vec.functions) == len(eqn), what + ': number of equations')
    for i, (g, t) in enumerate(zip(vec.functions, eqn)):
        close(values(ns[g.symbol_name], us, E), ev(t, E).v, TOL, '%s of %s' % (what, show(t)))


def apply_block(ns, blk, us, E, n, p, run):
    run(blk.emit(), ns)
    out = np.zeros_like(GX)
    info = ns[blk.symbol_name]()
    nd = len(blk.dops)
    check(len(info) == nd + 1, 'information of the block')
    orders = [o.order for o in blk.dops]
    check(orders == list(range(nd)), 'derivative terms of the block by order')
    for k, o in enumerate(blk.dops):
        c = values(ns[o.symbol_name], us, E)
        check(info[k] or not np.any(c), 'a term reported off has the coefficient zero')
        out = out + c * E.der(p, o.order)
    for o in blk.iops:
        c, d = (values(ns[g], us, E) for g in (o.symbol_name_c, o.symbol_name_i))
        check(info[-1] or not np.any(c * np.dot(GW, np.abs(d))), 'an integral term reported off is zero')
        out = out + c * np.dot(GW, d * E.der(p, 0)) * E.h
    return out


def linear(s, ns, E, eqn, us, run, src, what):
    L = s.syp_src[src]
    check(tuple(L.shape) == (len(eqn), len(E.names)), what + ': shape')
    for i, t in enumerate(eqn):
        for j, n in enumerate(E.names):
            E.dir = {k: 1.0 * (k == n) for k in E.names}
            close(apply_block(ns, L[i, j], us, E, n, E.p[n], run), ev(t, E).e, TOL, '%s with respect to %s of %s in %s' % (what, n, show(t), E.names), scale=None)


@case('C22', quick=40)
@tolerant
def local_equations(rng, i):
    """systems without integrals"""
    E, eqn = system(rng)
    s, ns, f, run = build(E, eqn)
    us = [f(E.u[n]) for n in E.names]
    residual(s, ns, E, eqn, us, run)
    linear(s, ns, E, eqn, us, run, 'deqn', 'linearisation')


@case('C22', quick=25)
@tolerant
def integral_equations(rng, i):
    """systems with integral terms"""
    E, eqn = system(rng, nonlocal_=True, depth=2)
    s, ns, f, run = build(E, eqn)
    us = [f(E.u[n]) for n in E.names]
    residual(s, ns, E, eqn, us, run)
    linear(s, ns, E, eqn, us, run, 'deqn', 'linearisation')


@case('C22', quick=15)
@tolerant
def constraints(rng, i):
    """integral constraints beside the equations"""
    E, eqn = system(rng, depth=1)
    cts = [('int', ('*', ('fun', n), leaf(rng, E, 0)) if rng.randint(2) else ('fun', n)) for n in E.names]
    s, ns, f, run = build(E, eqn, cts)
    us = [f(E.u[n]) for n in E.names]
    residual(s, ns, E, cts, us, run, 'cts', 'constraint')
    linear(s, ns, E, cts, us, run, 'dcts', 'linearised constraint')


@case('C22', quick=40)
@tolerant
def parameters(rng, i):
    """derivative with respect to a parameter"""
    E, eqn = system(rng, nonlocal_=rng.randint(4) == 0, depth=2)
    n = ('a', 'b')[rng.randint(2)]
    if not any(uses(t, 'par') and n in show(t) for t in eqn):
        eqn[-1] = ('+', ('*', ('par', n), ('fun', E.names[0])), eqn[-1])
    s, ns, f, run = build(E, eqn, cpars=['a', 'b'][:1 + rng.randint(2)] if n == 'a' else ['b'], par=True)
    us = [f(E.u[k]) for k in E.names]
    vec = s.dp[n]
    run(vec.emit(), ns)
    check(len(vec.functions) == len(eqn), 'number of equations')
    E.pdir[n] = 1.0
    for g, t in zip(vec.functions, eqn):
        close(values(ns[g.symbol_name], us, E), ev(t, E).h, TOL, 'derivative with respect to %s of %s' % (n, show(t)))


@case('C22', quick=25)
@tolerant
def second_derivatives(rng, i):
    """action of the linearisation, of the second derivative, and of the parameter derivative of the linearisation"""
    NV = need('funpy.colloc.source.NonlinearVectorFunctionSource', 'NonlinearVectorFunctionSource')
    import sympy
    E, eqn = system(rng, depth=2, order=2)
    s, ns, f, run = build(E, eqn)
    us = [f(E.u[k]) for k in E.names]
    ps, qs = [f(E.p[k]) for k in E.names], [f(E.q[k]) for k in E.names]
    E.dir, E.dir2 = {k: 1.0 for k in E.names}, {k: 1.0 for k in E.names}
    m = len(E.names)

    def funcs(expr, kind, name):
        v = NV(expr, s.ftype, s.domain, name=name, functions=list(s.get_function_names(type=kind)))
        run(v.emit(), ns)
        return [ns[g.symbol_name] for g in v.functions]
    for g, t in zip(funcs(s.lin.action, 'bilin', 'act'), eqn):
        close(values(g, us + ps, E), ev(t, E).e, TOL, 'action of the linearisation of %s' % show(t))
    with patience(20), contextlib.redirect_stdout(io.StringIO()):
        H = s.bilinear(s.lin, s.diffOrder, name='dd')
    ex = sympy.zeros(m, 1)
    for k in range(m):
        ex[k, 0] = H[k].biaction
    s.get_pfuns(2)
    for g, t in zip(funcs(ex, 'trilin', 'second'), eqn):
        close(values(g, us + ps + qs, E), ev(t, E).eh, TOL, 'second derivative of %s' % show(t))
    n = ('a', 'b')[i % 2]
    with patience(20):
        s.bilinear_dp(s.diffOrder, [n], name='dxdp')
    v = s.dxdp[n]
    run(v.emit(), ns)
    E.dir2 = {k: 0.0 for k in E.names}
    E.pdir[n] = 1.0
    for g, t in zip(v.functions, eqn):
        close(values(ns[g.symbol_name], us + ps, E), ev(t, E).eh, TOL, 'derivative with respect to %s of the linearisation of %s' % (n, show(t)))


@case('C22', quick=6)
@tolerant
def integral_of_derivative(rng, i):
    """the functions enter an integral through their derivatives only"""
    E, _ = system(rng, depth=1)
    eqn = [('*', ('fun', n), ('int', ('^', ('diff', n, 1), 2))) for n in E.names]
    s, ns, f, run = build(E, eqn)
    us = [f(E.u[n]) for n in E.names]
    residual(s, ns, E, eqn, us, run)
    try:
        linear(s, ns, E, eqn, us, run, 'deqn', 'linearisation')
    except Violation as e:
        raise Violation(str(e), 'derivative-under-integral')
