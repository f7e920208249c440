"""Operators with variable coefficients"""
from chebgen import *
from numbers import Number

XS = np.linspace(-1, 1, 33)


def fn(rng, dom, deg=None):
    Fun = need('funpy.fun', 'Fun')
    deg = int(rng.randint(0, 5)) if deg is None else deg
    return Fun(coeffs=np.asfortranarray(np.round(rng.uniform(-4, 4, (deg + 1, 1)), 3)), domain=dom, simplify=False)


def box(fs):
    a = np.empty(len(fs), dtype=object)
    for k, f in enumerate(fs):
        a[k] = f
    return a


def blockof(rng, dom, order, nnl, nl=False):
    QB = need('funpy.colloc.quasiOpBlock', 'QuasiOpBlock')
    on = rng.randint(4, size=order + 1) > 0
    z = need('funpy.fun', 'Fun')
    A = [fn(rng, dom) if on[k] else z(coeffs=np.zeros((1, 1), order='F'), domain=dom, simplify=False) for k in range(order + 1)]
    kw = {}
    if nnl:
        kw = dict(icoeffs=box([fn(rng, dom) for _ in range(nnl)]), integrand=box([fn(rng, dom) for _ in range(nnl)]))
    if nl:
        kw['nl_coeffs'] = box([fn(rng, dom) for _ in range(order + 1)])
    return QB('b', info=np.array(list(on) + [nnl > 0]), nl_info=np.array([nl, False]), coeffs=box(A), **kw)


def series(f):
    return np.array(f.coeffs)[:, 0]


def snap(b):
    return dict(c=[series(f) for f in b.getCoeffs()], i=None if b.getICoeffs() is None else [(series(f), series(g)) for f, g in zip(b.getICoeffs(), b.getIntegrand())],
                nl=[series(f) for f in b.getNlCoeffs()] if np.any(b.nl_info()) else None, info=np.array(b.info()), nli=np.array(b.nl_info()),
                ids=[id(f) for f in b.getCoeffs()] + ([] if b.getICoeffs() is None else [id(f) for f in b.getICoeffs()] + [id(f) for f in b.getIntegrand()]))


def unchanged(b, s, what):
    t = snap(b)
    check((t['i'] is None) == (s['i'] is None) and len(t['c']) == len(s['c']) and t['ids'] == s['ids'], what + ': terms of the operand')
    for x, y in zip(t['c'], s['c']):
        same(x, y, what + ': coefficient of the operand')
    for x, y in zip(t['i'] or [], s['i'] or []):
        same(x[0], y[0], what + ': integral coefficient of the operand')
        same(x[1], y[1], what + ': integrand of the operand')
    for x, y in zip(t['nl'] or [], s['nl'] or []):
        same(x, y, what + ': non-local coefficient of the operand')
    same(t['info'], s['info'], what + ': info of the operand')
    same(t['nli'], s['nli'], what + ': info of the operand')


def applied(b, u, dom):
    """L[u] at XS straight from the parts of the operator, terms reported off left out"""
    h = (dom[1] - dom[0]) / 2
    out = np.zeros(XS.size)
    info = np.asarray(b.info())
    for j, f in enumerate(b.getCoeffs()):
        if info[j]:
            out += NC.chebval(XS, series(f)) * NC.chebval(XS, dercoef(u[:, None], j)[:, 0]) / h ** j
    if info[-1]:
        for f, g in zip(b.getICoeffs(), b.getIntegrand()):
            out += NC.chebval(XS, series(f)) * h * NC.chebval(1.0, NC.chebint(NC.chebmul(series(g), u), lbnd=-1))
    return out


def nlapplied(b, u, dom):
    if not np.any(b.nl_info()):
        return np.zeros(XS.size)
    h = (dom[1] - dom[0]) / 2
    return sum((NC.chebval(XS, series(f)) * NC.chebval(XS, dercoef(u[:, None], j)[:, 0]) / h ** j for j, f in enumerate(b.getNlCoeffs())), np.zeros(XS.size))


class Src:
    constraints = []

    def __init__(self, b, order):
        self.b, self.order = b, order

    def getOutputSpace(self):
        return self.order

    def getCoeffs(self):
        return box([box([f]) for f in self.b.getCoeffs()])

    def getICoeffs(self):
        return None if self.b.getICoeffs() is None else box([box([f]) for f in self.b.getICoeffs()])

    def getIntegrand(self):
        return None if self.b.getIntegrand() is None else box([box([f]) for f in self.b.getIntegrand()])

    def info(self):
        return self.b.info()


def matrix(b, order, dom, n=24):
    US = need('funpy.colloc.ultraS.ultraS', 'ultraS')
    d = US(source=None, dimension=n, domain=dom)
    d.source = Src(b, order)
    L, S = d.quasi2diffmat(d.source, format='csr')
    return np.asarray(L.todense() if hasattr(L, 'todense') else L)


def combos(rng, a, b, c):
    """(name, operator, weights)"""
    return [('-A', lambda: -a, (-1, 0)), ('+A', lambda: +a, (1, 0)), ('A + B', lambda: a + b, (1, 1)), ('A - B', lambda: a - b, (1, -1)), ('c * A', lambda: c * a, (c, 0)),
            ('A * c', lambda: a * c, (c, 0)), ('A + A', lambda: a + a, (2, 0)), ('A - A', lambda: a - a, (0, 0)), ('c * A - B * c', lambda: c * a - b * c, (c, -c)),
            ('-(A + B) * c + B', lambda: -(a + b) * c + b, (-c, 1 - c)), ('(A + B) + (A - B)', lambda: (a + b) + (a - b), (2, 0)), ('c * (A - c * B)', lambda: c * (a - c * b), (c, -c * c))]


def scalar(rng):
    return [2, -1, 0.5, -1.5, 0, np.float64(3.25), np.int64(2)][rng.randint(7)]


@case('C20', quick=150, contracts=('QuasiOpBlock',))
def blocks(rng, i):
    dom = [np.array([-1.0, 1.0]), np.array([0.0, 3.0])][rng.randint(2)]
    order = int(rng.randint(0, 4))
    nl = [(0, 0), (1, 0), (0, 1), (1, 1)][rng.randint(4)]
    a = blockof(rng, dom, order, int(rng.choice([0, 0, 1, 2])), bool(nl[0]))
    b = blockof(rng, dom, order, int(rng.choice([0, 0, 1, 2])), bool(nl[1]))
    c = scalar(rng)
    sa, sb = snap(a), snap(b)
    u = rng.uniform(-1, 1, 6)
    la, lb, na, nb = applied(a, u, dom), applied(b, u, dom), nlapplied(a, u, dom), nlapplied(b, u, dom)
    K = combos(rng, a, b, c)
    for q in rng.permutation(len(K))[:5]:
        nm, op, (p, r) = K[q]
        d = op()
        tol, sc = 1e-12, max(1.0, np.max(np.abs(la)), np.max(np.abs(lb))) * (1 + abs(float(c))) ** 2
        close(applied(d, u, dom), p * la + r * lb, tol, '(%s)[u]' % nm, scale=sc)
        close(nlapplied(d, u, dom), p * na + r * nb, tol, 'non-local part of %s' % nm, scale=max(sc, np.max(np.abs(na)), np.max(np.abs(nb))))
        unchanged(a, sa, nm)
        unchanged(b, sb, nm)
        if q == 4:
            x, y = snap(d), snap(a * c)
            check(all(np.array_equal(s, t) for s, t in zip(x['c'], y['c'])), 'scalar from the left and from the right')
    if i % 5 == 0:
        n = 20
        A, B = matrix(a, order, dom, n), matrix(b, order, dom, n)
        nm, op, (p, r) = K[rng.randint(len(K))]
        M = matrix(op(), order, dom, n)
        close(M, p * A + r * B, 1e-11, 'matrix of %s' % nm, scale=max(1.0, np.max(np.abs(A)), np.max(np.abs(B))) * (1 + abs(float(c))) ** 2)
        unchanged(a, sa, 'matrix of ' + nm)


@case('C20', quick=80, contracts=('QuasiOp',))
def systems(rng, i):
    Q = need('funpy.colloc.quasiOp', 'QuasiOp')
    dom = np.array([-1.0, 2.0])
    order = int(rng.randint(0, 3))
    shape = (int(rng.randint(1, 4)), int(rng.randint(1, 4)))

    def make():
        q = Q(shape)
        for j in np.ndindex(shape):
            q[j] = blockof(rng, dom, order, int(rng.choice([0, 0, 1])))
        return q
    a, b, c = make(), make(), scalar(rng)
    sa, sb = {j: snap(a[j]) for j in np.ndindex(shape)}, {j: snap(b[j]) for j in np.ndindex(shape)}
    ia, ib = {j: id(a[j]) for j in sa}, {j: id(b[j]) for j in sb}
    u = rng.uniform(-1, 1, 5)
    K = combos(rng, a, b, c)
    for q in rng.permutation(len(K))[:4]:
        nm, op, (p, r) = K[q]
        d = op()
        check(type(d) is Q and d.shape == shape, nm + ': shape')
        for j in np.ndindex(shape):
            la, lb = applied(a[j], u, dom), applied(b[j], u, dom)
            close(applied(d[j], u, dom), p * la + r * lb, 1e-12, '(%s)[u], block %s' % (nm, j), scale=max(1.0, np.max(np.abs(la)), np.max(np.abs(lb))) * (1 + abs(float(c))) ** 2)
            unchanged(a[j], sa[j], nm)
            unchanged(b[j], sb[j], nm)
            check(id(a[j]) == ia[j] and id(b[j]) == ib[j], nm + ': blocks of the operands')
    if shape[0] != shape[1]:
        t = Q((shape[1], shape[0]))
        try:
            a + t
            check(False, 'operators of different shapes added')
        except ValueError:
            pass


@case('C20', quick=60, contracts=('Residual',))
def residuals(rng, i):
    R = need('funpy.colloc.rhs', 'Residual')
    n, m = int(rng.randint(1, 9)), int(rng.randint(1, 4))
    va, vb = np.asfortranarray(rng.uniform(-1, 1, (n, m))), np.asfortranarray(rng.uniform(-1, 1, (n, m)))
    a, b, c = R({}, n_disc=n, values=va.copy()), R({}, n_disc=n, values=vb.copy()), scalar(rng)
    for nm, op, (p, r) in combos(rng, a, b, c):
        close(op().values, p * va + r * vb, 1e-13, nm, scale=(1 + abs(float(c))) ** 2)
        same(a.values, va, nm)
        same(b.values, vb, nm)
    Fun = need('funpy.fun', 'Fun')
    k = [int(v) for v in rng.randint(1, 12, m)]
    fs = [np.asfortranarray(rng.uniform(-1, 1, (q, 1))) for q in k]
    funs = [Fun(coeffs=f.copy(order='F'), simplify=False) for f in fs]
    s = R({}, n_disc=n, rhs=[(lambda *u, f=f: f) for f in funs])
    state = Fun(coeffs=np.asfortranarray(rng.uniform(-1, 1, (n, m))), simplify=False)
    s.update(state)
    want = np.zeros((n, m))
    for j, f in enumerate(fs):
        want[:min(n, k[j]), j] = f[:n, 0]
    close(s.values, want, 0, 'values of a residual')
    for f, g in zip(funs, fs):
        same(f.coeffs, g, 'right hand side function')


@case('C20', quick=80, contracts=('Functional',))
def functionals(rng, i):
    """the functional of d applied to u is the integral of d * u"""
    F = need('funpy.support.Functional', 'Functional')
    Fun = need('funpy.fun', 'Fun')
    a = float(rng.choice([-1.0, 0.0, 2.0]))
    dom = np.array([a, a + float(rng.choice([1.0, 2.0, 3.0]))])
    h = (dom[1] - dom[0]) / 2
    n, m = int(rng.randint(1, 16)), int(rng.randint(1, 4))
    d, u = np.asfortranarray(rng.uniform(-1, 1, (n, m))), np.asfortranarray(rng.uniform(-1, 1, (n, m)))
    f = Fun(coeffs=d.copy(order='F'), domain=dom, simplify=False)
    J = F(f, basis='coeff')
    same(f.coeffs, d, 'function of the functional')
    g = Fun(coeffs=u.copy(order='F'), domain=dom, simplify=False)
    want = h * sum(NC.chebval(1.0, NC.chebint(NC.chebmul(d[:, j], u[:, j]), lbnd=-1)) for j in range(m))
    row = np.asarray(J.rhs[0]).flatten()
    check(row.size == n * m, 'length of the functional')
    close(float(row @ u.flatten(order='F')), want, 1e-12, 'functional of a product', scale=max(1.0, h * m * n))
    same(g.coeffs, u, 'function the functional is applied to')


@case('C20', quick=40, contracts=('linearFunctional',))
def parameterised(rng, i):
    L = need('funpy.colloc.linearFunctional', 'linearFunctional')
    names = ['a', 'b', 'c'][:int(rng.randint(1, 4))]
    l = L({}, n_disc=5)
    k = {p: [float(v) for v in rng.uniform(-1, 1, int(rng.randint(1, 4)))] for p in names}
    l.functions = {p: [(lambda u, up, v=v: np.array([v * u + up])) for v in k[p]] for p in names}
    l._call = l.call_dict

    class U(list):
        cpar = names[-1]
    u, up = U([2.0]), [0.5]
    for p in names:
        close(l(u, up, pname=p), [v * 2.0 + 0.5 for v in k[p]], 1e-15, 'functional for parameter ' + p)
    close(l(u, up), [v * 2.0 + 0.5 for v in k[names[-1]]], 1e-15, 'functional for the continuation parameter')
    l.functions = [f for p in names for f in l.functions[p]]
    l._call = l.call_list
    close(l(u, up), [v * 2.0 + 0.5 for p in names for v in k[p]], 1e-15, 'list of functionals')
