from common import *
import numpy as np
import itertools
import scipy.sparse as sps


def parity(p):
    p = list(p)
    s, seen = 1, set()
    for i in range(len(p)):
        if i in seen:
            continue
        k, j = 0, i
        while j not in seen:
            seen.add(j)
            j = p[j]
            k += 1
        s *= (-1) ** (k - 1)
    return s


PERMS = [list(p) for n in range(1, 6) for p in itertools.permutations(range(n))]


@case('C13', quick=160, contracts=('minimumSwaps',))
def swaps(rng, i):
    f = need('funpy.linalg.helpers', 'minimumSwaps')
    p = PERMS[i] if i < len(PERMS) else list(rng.permutation(int(rng.randint(1, 30))))
    q = np.array(p)
    got = f(q)
    check((-1) ** got == parity(p), 'minimumSwaps(%s) = %s, wrong parity' % (p, got))
    cycles = len(p) - (got if True else 0)
    n, seen, c = len(p), set(), 0
    for j in range(n):
        if j not in seen:
            c += 1
            while j not in seen:
                seen.add(j)
                j = p[j]
    check(got == n - c, 'minimumSwaps(%s) = %s, minimum is %d' % (p, got, n - c))
    same(q, np.array(p), 'permutation')


def matrix(rng, n=None, m=None, sparse=False):
    n = int(rng.choice([1, 2, 3, 4, 5, 8])) if n is None else n
    m = n if m is None else m
    for _ in range(500):
        A = rng.uniform(-1, 1, (n, m))
        k = rng.randint(6)
        if k == 0:
            A = np.round(3 * A)
        elif k == 1 and n == m:
            A = np.eye(n)[rng.permutation(n)] * rng.choice([-1, 2, 3], n)
        elif k == 2:
            A = np.triu(A)
        elif k == 3:
            A = A * (rng.uniform(0, 1, A.shape) < 0.5)
        s = np.linalg.svd(A, compute_uv=False)
        if s[-1] > 0.02:
            return A
    return np.eye(n, m)


@case('C13', quick=120, contracts=('logdet', 'logdet_detail_superlu'))
def logdet(rng, i):
    f = need('funpy.linalg.helpers', 'logdet')
    A = matrix(rng, n=int(rng.choice([1, 2, 3, 4, 6, 9])))
    S = [sps.csr_matrix, sps.csc_matrix, sps.coo_matrix][i % 3](A)
    sg, ld = f(S)
    ws, wl = np.linalg.slogdet(A)
    check(sg == ws, 'sign %s, expected %s for %s' % (sg, ws, A.tolist()))
    close(ld, wl, 1e-9, 'logdet of %s' % A.tolist())
    same(S.toarray(), A, 'matrix')


class Factors:
    """a factorisation object as umfpack hands it out: L U = (R^-1 A)[rows][:, columns]"""
    def __init__(self, L, U, R, p, q):
        self.L, self.U, self.R, self.perm_r, self.perm_c = sps.csr_matrix(L), sps.csr_matrix(U), R, np.array(p), np.array(q)


@case('C13', quick=120, contracts=('logdet_detail_superlu', 'logdet_detail_umfpack'))
def detail(rng, i):
    n = int(rng.choice([1, 2, 3, 4, 5]))
    L = np.tril(rng.uniform(-1, 1, (n, n)), -1) + np.eye(n)
    U = np.triu(rng.uniform(-1, 1, (n, n)), 1) + np.diag(rng.choice([-2.0, 0.5, 1.5], n))
    p, q = rng.permutation(n), rng.permutation(n)
    R = rng.uniform(0.5, 2, n) if i % 2 else np.ones(n)
    P, Q = np.eye(n)[:, p], np.eye(n)[q]          # P[p[k], k] = 1, Q[k, q[k]] = 1
    # P R^-1 A Q = L U
    A = np.diag(R) @ P.T @ L @ U @ Q.T
    F = Factors(L, U, R, p, q)
    ws, wl = np.linalg.slogdet(A)
    f = need('funpy.linalg.helpers', 'logdet_detail_umfpack' if i % 2 else 'logdet_detail_superlu')
    sg, ld = f(F)
    check(sg == ws, '%s: sign %s, expected %s: permutations %s %s, diagonal %s' % (f.__name__, sg, ws, p, q, np.diag(U)))
    close(ld, wl, 1e-9, f.__name__)
    if i % 2:
        D = need('funpy.linalg.helpers', 'Determinant')
        d = D(lu=F)
        s2, l2 = d()
        check(s2 == ws, 'Determinant: sign')
        close(d.det(), np.linalg.det(A), 1e-9, 'Determinant.det', scale=1 + np.exp(wl))
        d = D(lu=F)
        close(d.det(), np.linalg.det(A), 1e-9, 'Determinant.det without a call before', scale=1 + np.exp(wl))


@case('C13', quick=300, contracts=('givensAlgorithm',))
def givens(rng, i):
    f = need('funpy.linalg.helpers', 'givensAlgorithm')
    pool = [0.0, 1.0, -1.0, 2.0, -3.5, 1e-20, -1e-18, 1e17, -1e20, 1e-8, 5.0, np.finfo(float).eps, 1 / np.finfo(float).eps]
    a, b = (float(rng.choice(pool)) if rng.randint(2) else float(rng.uniform(-3, 3)) for _ in range(2))
    if i % 3 == 0:
        t = 10.0 ** int(rng.randint(-90, 91))
        a, b = a * t, b * t
    c, s, r = f(a, b)
    w = float(np.hypot(a, b))
    t = 'givens(%r, %r) = %r' % (a, b, (c, s, r))
    check(abs(c * c + s * s - 1) < 1e-12, t + ': not a rotation')
    check(abs(c * a + s * b - r) <= 1e-12 * w, t + ': first entry')
    check(abs(-s * a + c * b) <= 1e-12 * w, t + ': second entry is not annihilated')
    check(abs(abs(r) - w) <= 1e-12 * w, t + ': length')


@case('C13', quick=160, contracts=('slogdet_hessenberg', 'detH'))
def hessenberg(rng, i):
    n = int(rng.choice([1, 2, 3, 4, 6, 9]))
    for _ in range(300):
        H = np.triu(rng.uniform(-2, 2, (n, n)), -1)
        k = rng.randint(5)
        if k == 0:
            H = np.round(H)
        elif k == 1 and n > 1:
            j = int(rng.randint(n - 1))
            H[j + 1, j] = 0.0
        elif k == 2:
            H = np.triu(H)
        elif k == 3:
            H[:, -1] *= rng.uniform(0, 1, n) < 0.5
        if np.linalg.svd(H, compute_uv=False)[-1] > 0.02:
            break
    H0 = H.copy()
    ws, wl = np.linalg.slogdet(H)
    sg, ld = need('funpy.linalg.helpers', 'slogdet_hessenberg')(H)
    check(sg == ws, 'slogdet_hessenberg: sign %s, expected %s for %s' % (sg, ws, H.tolist()))
    close(ld, wl, 1e-9, 'slogdet_hessenberg')
    same(H, H0, 'matrix')
    d = need('funpy.linalg.helpers', 'detH')(H)
    close(d, np.linalg.det(H), 1e-9, 'detH of %s' % H.tolist(), scale=1 + np.exp(wl))
    same(H, H0, 'matrix')


def orth(Q, what):
    close(Q.T @ Q, np.eye(Q.shape[1]), 1e-12, what + ': columns are not orthonormal')


@case('C13', quick=120, contracts=('qr',))
def qr(rng, i):
    f = need('funpy.linalg', 'qr')
    n, m = int(rng.choice([1, 2, 3, 5])), int(rng.choice([1, 2, 3, 5]))
    A = matrix(rng, n, m) if n == m else rng.uniform(-1, 1, (n, m))
    A0 = A.copy()
    piv = bool(i % 2)
    mode = ['full', 'economic'][i % 4 // 2]
    out = f(A, pivoting=piv, mode=mode)
    Q, R, k = out[0], out[1], out[-1]
    B = A[:, out[2]] if piv else A
    orth(Q, 'qr')
    close(Q @ R, B, 1e-12, 'Q R')
    close(R, np.triu(R), 0, 'R is not upper triangular')
    if n >= m or mode == 'full':
        if Q.shape[0] == Q.shape[1]:
            check(np.sign(np.linalg.det(Q)) == (-1.0) ** k, 'number of reflections %d, det Q = %g' % (k, np.linalg.det(Q)))
    same(A, A0, 'matrix')


@case('C13', quick=120, contracts=('QR',))
def qrsolve(rng, i):
    QR = need('funpy.linalg', 'QR')
    A = matrix(rng)
    n = A.shape[0]
    A0 = A.copy()
    s = QR(A if i % 3 else sps.csr_matrix(A), pivoting=True)
    b = rng.uniform(-1, 1, n)
    b0 = b.copy()
    sc = np.linalg.cond(A)
    close(A @ s.solve(b), b, 1e-12, 'QR.solve', scale=sc)
    close(A.T @ s.solve_adj(b), b, 1e-12, 'QR.solve_adj', scale=sc)
    same(b, b0, 'right hand side')
    dt = np.linalg.det(A)
    check(s.det_sign() == np.sign(dt), 'QR.det_sign %s, det %g, %s' % (s.det_sign(), dt, A.tolist()))
    close(float(s.det()), dt, 1e-10, 'QR.det', scale=1 + abs(dt))
    same(A, A0, 'matrix')
    t = QR(A, pivoting=False)
    check(t.det_sign() == np.sign(dt), 'QR.det_sign without pivoting')
    close(float(t.det()), dt, 1e-10, 'QR.det without pivoting', scale=1 + abs(dt))


@case('C13', quick=80, contracts=('QR',))
def qrsingular(rng, i):
    QR = need('funpy.linalg', 'QR')
    n = int(rng.choice([2, 3, 4, 6]))
    u, v = np.linalg.qr(rng.randn(n, n))[0], np.linalg.qr(rng.randn(n, n))[0]
    sv = rng.uniform(0.5, 2, n)
    sv[-1] = 0.0
    A = (u * sv) @ v
    s = QR(A, tol=1e-10)
    check(s.is_singular, 'a singular matrix is not recognised')
    phi, psi = s.null()
    check(np.linalg.norm(phi) > 0.1 and np.linalg.norm(psi) > 0.1, 'null vectors')
    close(A @ phi, np.zeros(n), 1e-10, 'right null vector', scale=1 + np.linalg.norm(phi))
    close(A.T @ psi, np.zeros(n), 1e-10, 'left null vector')
    b = A @ rng.uniform(-1, 1, n)
    x = s.particular(b)
    close(A @ x, b, 1e-9, 'particular solution', scale=1 + np.linalg.norm(x))
    b = A.T @ rng.uniform(-1, 1, n)
    x = s.particular_adj(b)
    close(A.T @ x, b, 1e-9, 'particular solution of the adjoint', scale=1 + np.linalg.norm(x))


@case('C13', quick=120, contracts=('lucp',))
def lucp(rng, i):
    f = need('funpy.linalg.lucp', 'lucp')
    n, m = int(rng.choice([1, 2, 3, 4, 6])), int(rng.choice([1, 2, 3, 4, 6]))
    if rng.randint(3):
        m = n
    A = matrix(rng, n, m) if n == m else rng.uniform(-1, 1, (n, m))
    k = rng.randint(4)
    if k == 0:
        A = np.round(5 * A).astype(int)
    elif k == 1 and n > 1:
        A[-1] = A[0]
    A0 = A.copy()
    full = bool(i % 2)
    L, U, p, q = f(A, full=full)
    L, U = (np.asarray(X) if full else X.toarray() for X in (L, U))
    p, q = np.asarray(p), np.asarray(q)
    same(A, A0, 'matrix')
    check(sorted(p) == list(range(n)) and sorted(q) == list(range(m)), 'permutations %s %s' % (p, q))
    close(L @ U, A0[p][:, q].astype(float), 1e-7, 'L U = A[p][:, q]')
    close(L, np.tril(L), 0, 'L is not lower triangular')
    close(np.diag(L), np.ones(min(n, m)), 0, 'diagonal of L')
    close(U, np.triu(U), 0, 'U is not upper triangular')
    check(np.max(np.abs(L)) <= 1 + 1e-12, 'complete pivoting: |L| <= 1')


@case('C13', quick=60, contracts=('null_vector',))
def nullvectors(rng, i):
    f = need('funpy.linalg.nullspace', 'null_vector')
    n = int(rng.choice([2, 3, 4, 6]))
    u, v = np.linalg.qr(rng.randn(n, n))[0], np.linalg.qr(rng.randn(n, n))[0]
    sv = rng.uniform(0.5, 2, n)
    sv[-1] = 0.0
    A = (u * sv) @ v
    A0 = A.copy()
    phi, psi = f(A, left=True)
    same(A, A0, 'matrix')
    close(np.linalg.norm(phi), 1.0, 1e-10, 'norm')
    close(np.linalg.norm(psi), 1.0, 1e-10, 'norm')
    close(A0 @ phi, np.zeros(n), 1e-7, 'right null vector')
    close(A0.T @ psi, np.zeros(n), 1e-7, 'left null vector')
    phi = need('funpy.linalg', 'right_null_vector')(A)
    close(A0 @ phi, np.zeros(n), 1e-7, 'right null vector')


@case('C13', quick=80, contracts=('QRCholesky',))
def cholesky(rng, i):
    QC = need('funpy.linalg', 'QRCholesky')
    n = int(rng.choice([2, 3, 4, 6]))
    k = int(rng.choice([0, 1, 2]))
    m = n - k
    if m < 1:
        return
    A = rng.uniform(-1, 1, (m, n))
    sv = np.linalg.svd(A, compute_uv=False)
    if sv[-1] < 0.05:
        return
    s = QC(A, rank=m)
    b = rng.uniform(-1, 1, m)
    x = s.solve(b)
    close(x, np.linalg.pinv(A) @ b, 1e-10, 'QRCholesky.solve with %d x %d' % (m, n), scale=10 / sv[-1])
    if k == 0:
        dt = np.linalg.det(A)
        close(float(s.det()), dt, 1e-10, 'QRCholesky.det')
