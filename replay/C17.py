from common import *
import numpy as np
import scipy.sparse as sps
import scipy.sparse.linalg as LAS
L = np.polynomial.legendre


def mk(rng, dom, n=None, m=1, scale=1.0):
    Fun = need('funpy.fun', 'Fun')
    n = int(rng.choice([1, 2, 3, 4, 7])) if n is None else n
    c = scale * rng.uniform(-1, 1, (n, m))
    return Fun(coeffs=np.array(c, order='F'), domain=np.array(dom, dtype=float), type='cheb', simplify=False), c


XS, WS = L.leggauss(60)
T = np.polynomial.chebyshev


def h1(a, b, dom):
    """H1 inner product of two series, summed over columns"""
    h = (dom[1] - dom[0]) / 2
    s = 0.0
    for j in range(a.shape[1]):
        s += h * np.sum(WS * T.chebval(XS, a[:, j]) * T.chebval(XS, b[:, j]))
        s += np.sum(WS * T.chebval(XS, T.chebder(a[:, j])) * T.chebval(XS, T.chebder(b[:, j]))) / h
    return s


def pad(c, n):
    r = np.zeros((n, c.shape[1]))
    r[:c.shape[0]] = c
    return r


def setup(rng):
    dom = (-1.0, 1.0) if rng.randint(2) else (float(rng.uniform(-2, 0)), float(rng.uniform(0.3, 3)))
    m = int(rng.choice([1, 1, 2, 3]))
    u, cu = mk(rng, dom, m=m)
    K = int(rng.choice([0, 1, 1, 2, 3]))
    ks = [mk(rng, dom, m=m, scale=rng.choice([1.0, 1.0, 0.01])) for _ in range(K)]
    return dom, m, u, cu, ks


def factor(cu, ks, dom, shift, power):
    eta = 1.0
    for _, c in ks:
        n = max(cu.shape[0], c.shape[0])
        d = pad(cu, n) - pad(c, n)
        eta *= shift + h1(d, d, dom) ** (-power / 2)
    return eta


@case('C17', quick=150, contracts=('deflation',))
def value(rng, i):
    f = need('funpy.newton.deflation', 'deflation')
    dom, m, u, cu, ks = setup(rng)
    kw = {}
    if rng.randint(2):
        kw = dict(shift=float(rng.choice([0.0, 0.5, 1.0, 2.0])), power=float(rng.choice([1.0, 2.0, 3.0])))
    got = f(u, known_solutions=[k for k, _ in ks], **kw)
    want = factor(cu, ks, dom, kw.get('shift', 1.0), kw.get('power', 2.0))
    close(float(got), want, 1e-9, 'deflation factor (%d known, %s)' % (len(ks), kw), scale=abs(want))
    if not ks:
        check(got == 1.0, 'no known solution: factor %s' % got)
    for g, c in [(u, cu)] + ks:
        same(np.asarray(g.coeffs), c, 'function given to deflation')
    if ks:   # unbounded near a known solution
        last = 0.0
        for e in (1e-1, 1e-3, 1e-5):
            v = ks[0][0] + e * np.ones_like(ks[0][0])
            r = f(v, known_solutions=[ks[0][0]])
            check(r > last * 10, 'factor %s at distance %s from a known solution, %s before' % (r, e, last))
            last = r


@case('C17', quick=150, contracts=('deflation_linearization',))
def derivative(rng, i):
    f = need('funpy.newton.deflation', 'deflation_linearization')
    dom, m, u, cu, ks = setup(rng)
    kw = {}
    if rng.randint(2):
        kw = dict(shift=float(rng.choice([0.0, 0.5, 1.0, 2.0])), power=float(rng.choice([1.0, 2.0, 3.0])))
    sh, p = kw.get('shift', 1.0), kw.get('power', 2.0)
    eta, d = f(u, known_solutions=[k for k, _ in ks], **kw)
    want = factor(cu, ks, dom, sh, p)
    close(float(eta), want, 1e-9, 'factor with the derivative', scale=abs(want))
    if not ks:
        check(eta == 1.0 and d is None, 'no known solution: %s, %s' % (eta, d))
        return
    v = rng.uniform(-1, 1, cu.shape)
    s = 0.0
    big = 0.0
    for _, c in ks:
        n = max(cu.shape[0], c.shape[0])
        w = pad(cu, n) - pad(c, n)
        q = h1(w, w, dom)
        t = -p * q ** (-(p + 2) / 2) * h1(w, pad(v, n), dom) / (sh + q ** (-p / 2))
        s += t
        big = max(big, abs(t), p * q ** (-(p + 1) / 2) / (sh + q ** (-p / 2)))
    got = d(v.flatten(order='F'))
    close(float(np.squeeze(got)), want * s, 1e-8, 'derivative of the factor in a direction (lengths %s, %s; %s)' % (cu.shape, [c.shape for _, c in ks], kw), scale=abs(want) * max(big, abs(s)))
    Fun = need('funpy.fun', 'Fun')
    g = Fun(coeffs=np.array(v, order='F'), domain=np.array(dom, dtype=float), type='cheb', simplify=False)
    close(float(np.squeeze(d(g))), float(np.squeeze(got)), 1e-10, 'derivative in the direction of a function', scale=abs(want) * max(big, abs(s)))
    for g, c in [(u, cu)] + ks:
        same(np.asarray(g.coeffs), c, 'function given to deflation_linearization')


@case('C17', quick=100, contracts=('FrechetDeflated', 'FrechetDeflatedPrecond'))
def operator(rng, i):
    F, P = need('funpy.newton.FrechetDeflated', 'FrechetDeflated'), need('funpy.newton.FrechetDeflatedPrecond', 'FrechetDeflatedPrecond')
    n = int(rng.choice([1, 2, 3, 6]))
    A = rng.uniform(-1, 1, (n, n)) + 2 * np.eye(n)
    b, dv, x = rng.uniform(-1, 1, n), rng.uniform(-1, 1, n), rng.uniform(-1, 1, n)
    eta = float(rng.uniform(1.0, 30.0))
    M = sps.csr_matrix(A)
    lu = LAS.splu(sps.csc_matrix(A))
    fun = lambda c: np.dot(dv, np.asarray(c))
    f0, p0 = F(M), P(lu, b)
    close(f0._matvec(x), A @ x, 1e-13, 'operator without known solutions')
    close(p0._matvec(x), np.linalg.solve(A, x), 1e-10, 'preconditioner without known solutions')
    close(f0.to_matrix().toarray(), A, 0, 'matrix without known solutions')
    D = eta * A + np.outer(b, dv)
    if np.linalg.cond(D) > 1e4 or np.linalg.cond(A) > 1e4:
        return
    b0, x0 = b.copy(), x.copy()
    f1 = F(M, eta=eta, b=b, deta=fun)
    close(f1._matvec(x), D @ x, 1e-12, 'deflated operator')
    p1 = P(lu, b, ks=1, functional=fun, eta=eta)
    close(p1._matvec(x), np.linalg.solve(D, x), 1e-8, 'deflated correction from undeflated solves')
    close(p1._matvec(f1._matvec(x)), x, 1e-8, 'deflated solve after the deflated operator')
    T1 = f1.to_matrix()
    close(np.asarray(T1.toarray() if sps.issparse(T1) else T1), D, 1e-12, 'matrix of the deflated operator')
    same(b, b0, 'residual')
    same(x, x0, 'vector')
    same(M.toarray(), A, 'matrix')
