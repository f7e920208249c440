from chebgen import *
from fractions import Fraction


def geg(lam, n, x):
    """values of the first n basis polynomials of index lam (lam = 0: Chebyshev) at x: (len(x), n)"""
    x = np.asarray(x, dtype=float)
    V = np.zeros((x.size, n))
    if n > 0:
        V[:, 0] = 1
    if n > 1:
        V[:, 1] = x if lam == 0 else 2 * lam * x
    for k in range(1, n - 1):
        if lam == 0:
            V[:, k + 1] = 2 * x * V[:, k] - V[:, k - 1]
        else:
            V[:, k + 1] = (2 * (k + lam) * x * V[:, k] - (k + 2 * lam - 1) * V[:, k - 1]) / (k + 1)
    return V


def conv(n, a, b):
    """exact conversion matrix from index a to index b >= a, as rationals"""
    M = [[Fraction(int(i == j)) for j in range(n)] for i in range(n)]
    for lam in range(a, b):
        S = [[Fraction(0)] * n for _ in range(n)]
        for k in range(n):
            if lam == 0:
                S[k][k] = Fraction(1) if k == 0 else Fraction(1, 2)
                if k >= 2:
                    S[k - 2][k] = Fraction(-1, 2)
            else:
                S[k][k] = Fraction(lam, lam + k)
                if k >= 2:
                    S[k - 2][k] = -Fraction(lam, lam + k)
        N = [[Fraction(0)] * n for _ in range(n)]
        for i in range(n):
            for j in (i, i + 2):
                if j < n and S[i][j]:
                    for l in range(n):
                        if M[j][l]:
                            N[i][l] += S[i][j] * M[j][l]
        M = N
    return np.array([[float(v) for v in r] for r in M])


def dense(A):
    return np.asarray(A.toarray() if hasattr(A, 'toarray') else A, dtype=float)


def size(rng, lo=2, hi=40):
    return int(rng.choice([lo, 3, 4, 5, 8, 9, 16, 17, rng.randint(lo, hi + 1)]))


def fmt(rng):
    return rng.choice(['csr', 'csc', None])


@case('C10', quick=120, contracts=('diffmat',))
def differentiation(rng, i):
    D, = [need('funpy.colloc.ultraS.matrices', 'diffmat')]
    n = size(rng, 1, 150)
    m = int(rng.choice([0, 1, 1, 2, 3, 4]))
    A = dense(D(n, m, format=fmt(rng)))
    want = np.zeros((n, n))
    for k in range(n):
        if k - m >= 0:
            # d^m T_k = 2^(m-1) (m-1)! k C^(m)_(k-m)
            want[k - m, k] = 1.0 if m == 0 else 2.0 ** (m - 1) * float(np.prod(np.arange(1, m))) * k
    close(A, want, 1e-14, 'differentiation matrix of order %d, size %d' % (m, n))


@case('C10', quick=40, contracts=('diffmat',))
def derivative_values(rng, i):
    D = need('funpy.colloc.ultraS.matrices', 'diffmat')
    n, m = size(rng, 1, 30), int(rng.choice([1, 2, 3]))
    c = rng.uniform(-1, 1, (n, 1))
    x = np.linspace(-1, 1, 2 * n + 3)
    got = geg(m, n, x) @ (dense(D(n, m, format='csr')) @ c)
    want = val(dercoef(c, m), x)
    close(got, want, 1e-11, 'order %d derivative of %s' % (m, brief(c)), scale=float(n) ** (2 * m) * n)


@case('C10', quick=150, contracts=('convertmat', 'spconvert'))
def conversion(rng, i):
    C, I = need('funpy.colloc.ultraS.matrices', 'convertmat', 'convertmat_inv')
    n, k1 = size(rng, 2, 30 if i % 4 else 130), int(rng.randint(0, 3))
    k2 = k1 + int(rng.choice([-1, 0, 0, 1, 2]))
    if n > 30:
        k2 = min(k2, k1 + 1)
    A = dense(C(n, k1, k2, format=fmt(rng)))
    close(A, conv(n, k1, k2 + 1), 1e-14, 'conversion %d -> %d size %d' % (k1, k2 + 1, n))
    B = dense(I(n, k1, k2, format=rng.choice(['csr', 'csc'])))
    close(B @ A, np.eye(n), 1e-11, 'conversion %d -> %d and back, size %d' % (k1, k2 + 1, n), scale=max(1.0, np.max(np.abs(B))))
    close(A @ B, np.eye(n), 1e-11, 'inverse conversion %d -> %d and forth, size %d' % (k2 + 1, k1, n), scale=max(1.0, np.max(np.abs(B))))


def cheb(c):
    return tech(c, ishappy=True)


@case('C10', quick=300, contracts=('multmat', 'sptoeplitz_fast', 'sphankel'))
def multiplication(rng, i):
    M = need('funpy.colloc.ultraS.matrices', 'multmat')
    lam = int(rng.choice([0, 0, 1, 1, 2, 3, 4]))
    big = i % 6 == 5
    k = int(rng.choice([100, 101, 128, 150])) if big else size(rng, 2, 40)
    nf = int(rng.choice([1, 2, 3, 4, k // 2 + 1, max(1, k - 1), k, k + 1, k + 7]))
    nf = min(nf, 30) if lam > 1 or big else nf
    kind = rng.choice(['flat', 'decay', 'one', 'odd', 'even', 'nomean', 'gap', 'gap'])
    c = rng.uniform(-1, 1, (nf, 1))
    if kind == 'decay':
        c /= (1.0 + np.arange(nf)[:, None]) ** 2
    elif kind == 'one':
        j = rng.randint(nf)
        c[np.arange(nf) != j] = 0
    elif kind == 'odd':
        c[::2] = 0
    elif kind == 'even':
        c[1::2] = 0
    elif kind == 'nomean':
        c[0] = 0
    elif kind == 'gap':
        c[rng.randint(nf):max(0, nf - rng.randint(1, 4))] = 0
    c = np.asfortranarray(c)
    f = cheb(c)
    A = dense(M(k, f, lam, format=fmt(rng) or 'csr'))
    check(A.shape == (k, k), 'shape %s' % (A.shape,))
    same(f.coeffs, c, 'multiplied function')
    if nf > k:
        # the function is cut at the matrix size
        c = c[:k]
        nf = k
    # exact on every vector whose product is represented
    L = k - nf + 1
    x = np.sin(np.linspace(-1.5, 1.5, 2 * k + 5))
    V = geg(lam, k, x)
    want = V[:, :L] * val(c, x)
    close(V @ A[:, :L], want, 1e-10, 'multiplication matrix lam=%d k=%d by c=%s (%s)' % (lam, k, brief(c.ravel()), kind),
          scale=bound(c) * max(1.0, np.max(np.abs(V[:, :L]))))
    # and its truncation elsewhere: first k coefficients of the product
    K = k + nf
    x = np.cos(np.pi * (np.arange(K) + 0.5) / K)
    if lam == 0:
        W = geg(0, K, x)
        P = np.linalg.solve(W, W[:, :k] * val(c, x))
        close(A, P[:k], 1e-10, 'truncated multiplication matrix lam=0 k=%d by c=%s' % (k, brief(c.ravel())), scale=bound(c))
    elif lam == 1 or K <= 60:
        W = geg(lam, K, x)
        P = np.linalg.solve(W, W[:, :k] * val(c, x))
        close(A, P[:k], 1e-8, 'truncated multiplication matrix lam=%d k=%d by c=%s' % (lam, k, brief(c.ravel())), scale=bound(c) * max(1.0, np.max(np.abs(P[:k]))))


@case('C10', quick=150, contracts=('ultra2ultra',))
def ultra(rng, i):
    U = need('funpy.ultra', 'ultra2ultra')
    c = mat(rng, nmax=25)
    n, m = c.shape
    a, b = [int(v) for v in rng.choice([0, 1, 2, 3], 2)]
    c0 = frozen(c)
    arg = c if rng.randint(3) else c[:, ::1]
    d = np.asarray(U(arg, a, b))
    same(c, c0, 'input of ultra2ultra(%d, %d)' % (a, b))
    check(d.shape == c.shape, 'shape %s of %s' % (d.shape, c.shape))
    if a <= b:
        want = conv(n, a, b) @ c0
    else:
        want = np.linalg.solve(conv(n, b, a), c0)
    close(d, want, 1e-10, 'ultra2ultra %d -> %d of %s' % (a, b, brief(c0)), scale=max(bound(c0), np.max(np.abs(want))))
    d0 = frozen(d)
    e = np.asarray(U(d, b, a))
    same(d, d0, 'input of ultra2ultra(%d, %d)' % (b, a))
    close(e, c0, 1e-9, 'there and back %d -> %d -> %d of %s' % (a, b, a, brief(c0)), scale=max(bound(c0), np.max(np.abs(d))))


@case('C10', quick=60, contracts=('Fun.from_ultra',))
def from_ultra(rng, i):
    Fun = need('funpy.fun', 'Fun')
    n, m, lam = size(rng, 1, 20), int(rng.choice([1, 2, 3])), int(rng.choice([0, 1, 2]))
    dom = sorted(rng.uniform(-3, 3, 2))
    v = rng.uniform(-1, 1, n * m)
    v0 = v.copy()
    f = Fun.from_ultra(v, m, lam, domain=np.array(dom))
    same(v, v0, 'coefficient vector given to from_ultra')
    C = v0.reshape((n, m), order='F')
    want = np.linalg.solve(conv(n, 0, lam), C) if lam else C
    close(f.coeffs, want, 1e-10, 'from_ultra lam=%d' % lam, scale=max(1.0, np.max(np.abs(want))))


@case('C10', quick=40, contracts=('intmat',))
def integration(rng, i):
    I, R = need('funpy.colloc.ultraS.matrices', 'intmat', 'realmat')
    k = size(rng, 2, 60)
    A = dense(I(k, format='csr'))
    w = np.array([0.0 if j % 2 else 2.0 / (1.0 - j * j) for j in range(k)])
    want = np.zeros((k, k))
    want[0] = w
    close(A, want, 1e-14, 'integration matrix, size %d' % k)
    B = dense(R(k, format='csr'))
    want = np.zeros((k, k))
    want[0, 0] = 1
    close(B, want, 0, 'projection on constants, size %d' % k)


class Src:
    """a source with the given operator coefficients"""
    def __init__(self, space, coeffs, icoeffs, integrand):
        self.space, self.c, self.i, self.d = space, coeffs, icoeffs, integrand
        self.constraints = []

    def getOutputSpace(self):
        return self.space

    def getCoeffs(self):
        return self.c

    def getICoeffs(self):
        return self.i

    def getIntegrand(self):
        return self.d

    def info(self):
        return np.array([True] * self.c.shape[0] + [self.i is not None])


@case('C10', quick=60, contracts=('ultraS.quasi2diffmat',))
def operator(rng, i):
    """L[u] = sum a_j u^(j) + c int d u as a matrix: Chebyshev coefficients in, coefficients of the output basis out"""
    US, Fun = need('funpy.colloc.ultraS.ultraS', 'ultraS'), need('funpy.fun', 'Fun')
    order = int(rng.choice([0, 1, 2, 3]))
    dom = np.array(sorted(rng.uniform(-2, 2, 2)))
    dom[1] = max(dom[1], dom[0] + 0.3)
    n = int(rng.choice([24, 33]))

    def fn(deg):
        c = np.asfortranarray(rng.uniform(-1, 1, (deg + 1, 1)))
        return Fun(coeffs=c, domain=dom, simplify=False), c

    def box(fs):
        a = np.empty(len(fs), dtype=object)
        for k, f in enumerate(fs):
            a[k] = np.empty(1, dtype=object)
            a[k][0] = f
        return a
    A = [fn(rng.randint(0, 4)) for _ in range(order + 1)]
    nl = int(rng.choice([0, 0, 1, 2]))
    C = [fn(rng.randint(0, 4)) for _ in range(nl)]
    D = [fn(rng.randint(0, 4)) for _ in range(nl)]
    s = Src(order, box([a[0] for a in A]), box([a[0] for a in C]) if nl else None, box([a[0] for a in D]) if nl else None)
    disc = US(source=None, dimension=n, domain=dom)
    disc.source = s
    L, S = disc.quasi2diffmat(s, format='csr')
    for (f, c) in A + C + D:
        same(f.coeffs, c, 'coefficient function')
    deg = 6
    u = rng.uniform(-1, 1, (deg, 1))
    uu = np.zeros((n, 1))
    uu[:deg] = u
    x = np.linspace(-1, 1, 41)
    h = (dom[1] - dom[0]) / 2
    want = np.zeros((x.size, 1))
    for j, (f, c) in enumerate(A):
        want += val(c, x) * val(dercoef(u, j), x) / h ** j
    for (f, c), (g, d) in zip(C, D):
        p = NC.chebmul(d[:, 0], u[:, 0])
        q = NC.chebint(p, lbnd=-1)
        want += val(c, x) * h * NC.chebval(1.0, q)
    got = geg(order, n, x) @ (dense(L) @ uu)
    close(got, want, 1e-9, 'operator of order %d with %d integral terms' % (order, nl), scale=max(1.0, np.max(np.abs(want))) / min(h, 1) ** order)
    close(dense(S), conv(n, 0, order), 1e-13, 'change of basis of the operator')
