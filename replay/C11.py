from chebgen import *
import triggen
from copy import deepcopy

KINDS = ['cont', 'tp', 'tpc', 'defl']


def mods():
    V = need('funpy.vectorspaces.cont_state', 'ContinuationState')
    T = need('funpy.vectorspaces.tp_state', 'TwoParameterState')
    P = need('funpy.vectorspaces.tp_cont_state', 'TwoParContState')
    D = need('funpy.vectorspaces.deflation_state', 'DeflationState')
    return V, T, P, D, need('funpy.vectorspaces.parameter', 'Parameter'), need('funpy.fun', 'Fun'), need('funpy.vectorspaces.namespace', 'Namespace')


def fun(rng, dom, m, n=None):
    Fun = need('funpy.fun', 'Fun')
    c = mat(rng, n=n, m=m, kind=rng.choice(['flat', 'decay', 'int']), nmax=20)
    return Fun(coeffs=c, domain=np.array(dom), simplify=False)


def state(rng, kind=None, dom=None, m=None, weights=True, n=None):
    V, T, P, D, Par, Fun, NS = mods()
    kind = rng.choice(KINDS) if kind is None else kind
    dom = [-1.0, 1.0] if dom is None else dom
    m = int(rng.choice([1, 2])) if m is None else m
    pv = lambda: float(np.round(rng.uniform(-3, 3), 3))
    ns = dict(mu=pv(), nu=pv())
    nw = {'cont': 2, 'tp': 4, 'tpc': 3, 'defl': 1}[kind]
    kw = dict(weights=rng.uniform(0.5, 2, nw)) if weights else {}
    f = fun(rng, dom, m, n)
    if kind == 'cont':
        s = V(a=Par(lam=pv()), u=f, **kw, **ns)
    elif kind == 'tp':
        s = T(p1=Par(lam=pv()), p2=Par(rho=pv()), u=f, phi=fun(rng, dom, m, n), **kw, **ns)
    elif kind == 'tpc':
        s = P(p1=Par(lam=pv()), p2=Par(rho=pv()), u=f, **kw, **ns)
    else:
        s = D(u=f, **kw, **ns)
    return s


def snap(s):
    return dict(cls=type(s), cols=[f.shape[1] for f in s.funcs], coeffs=[frozen(f.coeffs) for f in s.funcs], dom=[frozen(f.domain) for f in s.funcs],
                reals=[(r.name, float(np.real(r.value))) for r in s.reals], w=frozen(s.weights), ns={k: float(v) for k, v in s.ns.items()})


def unchanged(s, d, what):
    e = snap(s)
    check(e['cls'] is d['cls'], what + ': kind')
    check(e['reals'] == d['reals'], '%s: parameters %s, were %s' % (what, e['reals'], d['reals']))
    check(e['ns'] == d['ns'], '%s: namespace %s, was %s' % (what, e['ns'], d['ns']))
    same(e['w'], d['w'], what + ': weights')
    check(len(e['coeffs']) == len(d['coeffs']), what + ': number of functions')
    for a, b, x, y in zip(e['coeffs'], d['coeffs'], e['dom'], d['dom']):
        same(a, b, what + ': function')
        same(x, y, what + ': domain')


def pts_(d, k=9):
    return np.linspace(d[0], d[1], k)


def vals(s, x):
    return [np.asarray(f(x)).reshape(x.size, f.shape[1]) for f in s.funcs]


def cv(d, x):
    """values of the snapshot's functions"""
    out = []
    for c, dom in zip(d['coeffs'], d['dom']):
        t = (2 * x - dom[0] - dom[1]) / (dom[1] - dom[0])
        out.append(val(c, t))
    return out


def result(s, d, fv, rv, what, tol=1e-11):
    """state s has functions with values fv on the grid, parameters rv; kind, names, namespace and weights as in snapshot d"""
    check(type(s) is d['cls'], '%s: kind %s, expected %s' % (what, type(s), d['cls']))
    x = pts_(d['dom'][0])
    check(len(s.funcs) == len(fv) and len(s.reals) == len(rv), what + ': number of parts')
    for got, want, f, dom in zip(vals(s, x), fv, s.funcs, d['dom']):
        close(got, want, tol, what + ': function part', scale=max(1.0, np.max(np.abs(want))))
        same(f.domain, dom, what + ': domain')
    for r, want, (n, _) in zip(s.reals, rv, d['reals']):
        check(r.name == n, '%s: parameter name %s, expected %s' % (what, r.name, n))
        close(float(np.real(r.value)), want, tol, what + ': parameter %s' % n)
    check({k: float(v) for k, v in s.ns.items()} == d['ns'], '%s: parameter values %s, were %s' % (what, dict(s.ns), d['ns']))
    same(s.weights, d['w'], what + ': weights')


@case('C11', quick=250, contracts=('BaseState.__array_ufunc__',))
def arithmetic(rng, i):
    kind = KINDS[i % 4]
    dom = [-1.0, 1.0] if rng.randint(2) else sorted(rng.uniform(-3, 3, 2))
    m = int(rng.choice([1, 2]))
    s = state(rng, kind, dom, m)
    same_n = rng.randint(2)
    t = state(rng, kind, dom, m, n=s.funcs[0].n if same_n else None)
    t.weights = np.copy(s.weights)
    k = float(np.round(rng.uniform(0.3, 3), 2)) * (1 if rng.randint(2) else -1)
    k = int(rng.choice([2, -3])) if rng.randint(4) == 0 else k
    k = np.float64(k) if rng.randint(5) == 0 else k
    ds, dt = snap(s), snap(t)
    x = pts_(dom)
    a, b = cv(ds, x), cv(dt, x)
    ra, rb = [r for _, r in ds['reals']], [r for _, r in dt['reals']]
    op = rng.choice(['add', 'sub', 'neg', 'mul', 'rmul', 'div', 'addn', 'raddn', 'rsubn', 'iadd', 'isub', 'imul', 'idiv', 'iaddn'])
    what = '%s of %s states' % (op, kind)
    f2 = lambda g: ([g(p, q) for p, q in zip(a, b)], [g(p, q) for p, q in zip(ra, rb)])
    f1 = lambda g: ([g(p) for p in a], [g(p) for p in ra])
    W = {'add': f2(lambda p, q: p + q), 'sub': f2(lambda p, q: p - q), 'neg': f1(lambda p: -p), 'mul': f1(lambda p: p * k), 'rmul': f1(lambda p: p * k),
         'div': f1(lambda p: p / k), 'addn': f1(lambda p: p + k), 'raddn': f1(lambda p: k + p), 'rsubn': f1(lambda p: k - p)}
    W.update(iadd=W['add'], isub=W['sub'], imul=W['mul'], idiv=W['div'], iaddn=W['addn'])
    r = s
    if op == 'add':
        r = s + t
    elif op == 'sub':
        r = s - t
    elif op == 'neg':
        r = -s
    elif op == 'mul':
        r = s * k
    elif op == 'rmul':
        r = k * s
    elif op == 'div':
        r = s / k
    elif op == 'addn':
        r = s + k
    elif op == 'raddn':
        r = k + s
    elif op == 'rsubn':
        r = k - s
    elif op == 'iadd':
        r += t
    elif op == 'isub':
        r -= t
    elif op == 'imul':
        r *= k
    elif op == 'idiv':
        r /= k
    elif op == 'iaddn':
        r += k
    result(r, ds, W[op][0], W[op][1], what)
    if op.startswith('i'):
        check(r is s, what + ': returns another object')
    else:
        unchanged(s, ds, what + ': left operand')
        check(r is not s, what + ': result is the operand')
        # the result is not tied to the operand
        for f in r.funcs:
            f.coeffs[0] += 1
        for q in r.reals:
            q.value = q.value + 1
        r.weights[0] = 17.0
        unchanged(s, ds, what + ': left operand after changing the result')
    unchanged(t, dt, what + ': right operand')


@case('C11', quick=80, contracts=('real', 'imag', 'conj'))
def parts(rng, i):
    s = state(rng, KINDS[i % 4])
    d = snap(s)
    x = pts_(d['dom'][0])
    a, ra = cv(d, x), [r for _, r in d['reals']]
    result(np.real(s), d, a, ra, 'real part')
    result(np.imag(s), d, [0 * v for v in a], [0.0 for _ in ra], 'imaginary part')
    result(np.conj(s), d, a, ra, 'conjugate')
    unchanged(s, d, 'operand of real/imag/conj')


@case('C11', quick=60, contracts=('zeros_like', 'ones_like'))
def constants(rng, i):
    s = state(rng, KINDS[i % 4])
    d = snap(s)
    x = pts_(d['dom'][0])
    for f, v in ((np.zeros_like, 0.0), (np.ones_like, 1.0)):
        r = f(s)
        check(type(r) is type(s), 'kind of %s' % f.__name__)
        for g, c in zip(r.funcs, d['coeffs']):
            close(np.asarray(g(x)).reshape(x.size, -1), np.full((x.size, c.shape[1]), v), 1e-13, f.__name__ + ': function')
        for q, (n, _) in zip(r.reals, d['reals']):
            check(q.name == n and float(q.value) == v, '%s: parameter %s' % (f.__name__, q))
    unchanged(s, d, 'operand of zeros_like/ones_like')


def ip(c, e, dom):
    h = (dom[1] - dom[0]) / 2
    return sum(h * NC.chebval(1.0, NC.chebint(NC.chebmul(c[:, j], e[:, j]), lbnd=-1)) for j in range(c.shape[1]))


@case('C11', quick=150, contracts=('inner', 'BaseState.norm'))
def products(rng, i):
    kind = KINDS[i % 4]
    dom = [-1.0, 1.0] if rng.randint(2) else sorted(rng.uniform(-3, 3, 2))
    m = int(rng.choice([1, 2, 3]))
    s, t = state(rng, kind, dom, m), state(rng, kind, dom, m)
    t.weights = np.copy(s.weights)
    ds, dt = snap(s), snap(t)
    w, nf = ds['w'], len(ds['coeffs'])
    want = sum(w[k] * ip(ds['coeffs'][k], dt['coeffs'][k], dom) for k in range(nf))
    want += sum(w[nf + k] * ds['reals'][k][1] * dt['reals'][k][1] for k in range(len(ds['reals'])))
    sc = max(1.0, max(bound(c) for c in ds['coeffs']) * max(bound(c) for c in dt['coeffs']) * 40)
    got = np.inner(s, t)
    check(np.size(got) == 1, 'inner product is not a number: %s' % (got,))
    close(float(np.squeeze(got)), want, 1e-12, 'inner product of %s states, %d columns' % (kind, m), scale=sc)
    close(float(np.squeeze(np.inner(t, s))), want, 1e-12, 'swapped inner product', scale=sc)
    sq = sum(w[k] * ip(ds['coeffs'][k], ds['coeffs'][k], dom) for k in range(nf)) + sum(w[nf + k] * ds['reals'][k][1] ** 2 for k in range(len(ds['reals'])))
    close(float(np.squeeze(s.norm())), np.sqrt(max(sq, 0)), 1e-9, 'norm of a %s state' % kind, scale=max(1.0, np.sqrt(sc)))
    if m == 1 and hasattr(s, 'reals'):
        close(float(np.squeeze(np.sum(np.dot(s, t)))), want, 1e-12, 'dot product of %s states' % kind, scale=sc)
    unchanged(s, ds, 'operand of inner and norm')
    unchanged(t, dt, 'operand of inner')


@case('C11', quick=60, contracts=('BaseState.normalize',))
def unit(rng, i):
    s = state(rng, KINDS[i % 4])
    d = snap(s)
    x = pts_(d['dom'][0])
    a, ra = cv(d, x), [r for _, r in d['reals']]
    nrm = float(np.squeeze(s.norm()))
    if nrm < 1e-6:
        return
    r = s.normalize()
    check(r is s, 'normalize returns the state')
    result(s, d, [v / nrm for v in a], [v / nrm for v in ra], 'normalize', tol=1e-9)
    close(float(np.squeeze(s.norm())), 1.0, 1e-9, 'norm after normalize')
    f = state(rng, KINDS[i % 4])
    d = snap(f)
    a, ra = cv(d, x), [q for _, q in d['reals']]
    check(f.flip() is f, 'flip returns the state')
    result(f, d, [-v for v in a], [-v for v in ra], 'flip')


@case('C11', quick=80, contracts=('Parameter.__array_ufunc__',))
def parameters(rng, i):
    P = need('funpy.vectorspaces.parameter', 'Parameter')
    a, b, k = rng.uniform(-3, 3, 3)
    k = k if abs(k) > 0.1 else 1.5
    p, q = P(lam=a), P(lam=b)
    for r, w, n in ((p + q, a + b, '+'), (p - q, a - b, '-'), (-p, -a, 'neg'), (p * k, a * k, '* number'), (k * p, a * k, 'number *'), (p / k, a / k, '/'),
                    (k - p, k - a, 'number -'), (p + k, a + k, '+ number'), (p * q, a * b, '*'), (abs(p), abs(a), 'abs')):
        check(isinstance(r, P) and r.name == 'lam', 'kind of ' + n)
        close(float(r.value), w, 1e-14, n)
    check(p.value == a and q.value == b, 'operands of parameter arithmetic')
    close(float(np.inner(p, q)), a * b, 1e-14, 'inner')
    close(float(np.dot(p, q)), a * b, 1e-14, 'dot')
    z = P(lam=a + 1j * b)
    close(complex(np.conj(z).value), a - 1j * b, 1e-15, 'conj')
    close(float(np.real(z).value), a, 1e-15, 'real')
    close(float(np.imag(z).value), b, 1e-15, 'imag')
    p0 = p
    p += q
    check(p is p0 and p.name == 'lam', '+= returns another object')
    close(float(p.value), a + b, 1e-14, '+=')
    p *= k
    close(float(p.value), (a + b) * k, 1e-14, '*=')
    p /= k
    p -= q
    close(float(p.value), a, 1e-13, '-=')
    check(q.value == b, 'right operand of +=')


@case('C11', quick=40, contracts=('BaseState.__array_ufunc__',))
def periodic(rng, i):
    """states over Fourier functions: complex valued parts"""
    V, T, P, D, Par, Fun, NS = mods()
    n = int(rng.choice([5, 7, 9]))
    def mk():
        c = rng.uniform(-1, 1, (n, 1)) + 1j * rng.uniform(-1, 1, (n, 1))
        tt = need('funpy.trig.trigtech', 'trigtech')
        return Fun(onefun=tt(coeffs=np.asfortranarray(c)), domain=np.array([-1.0, 1.0]), type='trig'), c
    f, c = mk()
    g, d = mk()
    a, b = float(rng.uniform(-2, 2)), float(rng.uniform(-2, 2))
    s, t = V(a=Par(lam=a), u=f), V(a=Par(lam=b), u=g)
    x = np.linspace(-1, 1, 11)
    E = np.exp(1j * np.pi * np.outer(x, np.arange(-(n // 2), n // 2 + 1)))
    u, v = (E @ c).ravel(), (E @ d).ravel()
    for r, w, p, nm in ((s + t, u + v, a + b, '+'), (s - t, u - v, a - b, '-'), (2.0 * s, 2 * u, 2 * a, 'number *'), (-s, -u, -a, 'neg'),
                        (np.real(s), u.real, a, 'real'), (np.imag(s), u.imag, 0.0, 'imag'), (np.conj(s), np.conj(u), a, 'conj')):
        close(np.asarray(r.u(x)).ravel(), w, 1e-11, 'trigonometric state: ' + nm)
        close(complex(r.a), p, 1e-13, 'parameter: ' + nm)
    close(np.asarray(s.u(x)).ravel(), u, 1e-12, 'operand')
    close(np.asarray(t.u(x)).ravel(), v, 1e-12, 'operand')
