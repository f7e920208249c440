from common import *
import numpy as np


class Exact:
    """an inner solver that is exact for A and its adjoint"""
    def __init__(self, A, singular=False):
        self.A = A
        self.shape = A.shape
        self.is_singular = singular
        if singular:
            u, s, vt = np.linalg.svd(A)
            self.phi, self.psi = vt[-1], u[:, -1]
            self.pinv = np.linalg.pinv(A, rcond=1e-10)

    def solve(self, b):
        return np.linalg.solve(self.A, b)

    def solve_adj(self, b):
        return np.linalg.solve(self.A.T, b)

    def null(self):
        return self.phi.copy(), self.psi.copy()

    def particular(self, b):
        # any particular solution will do
        return self.pinv @ b + 0.3 * self.phi

    def particular_adj(self, b):
        return self.pinv.T @ b - 0.2 * self.psi

    def det(self):
        return np.linalg.det(self.A)


def wellcond(rng, n, tries=200):
    for _ in range(tries):
        A = rng.uniform(-1, 1, (n, n)) + (2.0 if rng.randint(2) else 0.0) * np.eye(n)
        if rng.randint(4) == 0:
            A = np.round(3 * A)
        if rng.randint(4) == 0:
            A = A + A.T
        if np.linalg.matrix_rank(A) == n and np.linalg.cond(A) < 200:
            return A
    return np.eye(n) + 0.1


def rank_one_deficient(rng, n):
    A = wellcond(rng, n)
    u, s, vt = np.linalg.svd(A)
    s[-1] = 0.0
    if rng.randint(2):
        u, vt = np.linalg.qr(rng.randn(n, n))[0], np.linalg.qr(rng.randn(n, n))[0]
    return (u * s) @ vt


def bordered(A, b, c, d):
    n = A.shape[0]
    M = np.zeros((n + 1, n + 1))
    M[:n, :n] = A
    M[n, :n] = b
    M[:n, n] = c
    M[n, n] = d
    return M


def system(rng, singular):
    for _ in range(300):
        n = int(rng.choice([1, 2, 3, 4, 7])) if not singular else int(rng.choice([2, 3, 4, 7]))
        A = rank_one_deficient(rng, n) if singular else wellcond(rng, n)
        b, c = rng.uniform(-1, 1, n), rng.uniform(-1, 1, n)
        if rng.randint(5) == 0 and not singular:
            c = np.zeros(n)
        d = float(rng.choice([0.0, 1.0, rng.uniform(-2, 2)]))
        M = bordered(A, b, c, d)
        if np.linalg.cond(M) < 500:
            return A, b, c, d, M
    raise RuntimeError('no system')


def solves(M, x, rhs, what, tol=1e-9):
    x = np.asarray(x)
    if x.shape != rhs.shape:
        raise Violation('%s: shape %s' % (what, x.shape))
    n = M.shape[0] - 1
    r = M @ x - rhs
    s = 1 + np.max(np.abs(rhs)) + np.max(np.abs(M)) * np.max(np.abs(x))
    if not np.all(np.isfinite(x)) or np.max(np.abs(r)) > tol * s:
        raise Violation('%s: residual %.3e in the first rows, %.3e in the last; M=%s rhs=%s' % (
            what, np.max(np.abs(r[:n])) if n else 0, abs(r[-1]), M.tolist(), rhs.tolist()))


def rhs_for(rng, n):
    r = rng.uniform(-2, 2, n)
    k = rng.randint(6)
    if k == 0:
        r[-1] = 0.0
    elif k == 1:
        r[:-1] = 0.0
    elif k == 2:
        return np.round(3 * r).astype(int)
    return r


@case('C12', quick=200, contracts=('BEM.solve', 'BEM.solve_adj', 'BEM.prepare'))
def bem(rng, i):
    BEM = need('funpy.linalg', 'BEM')
    A, b, c, d, M = system(rng, i % 3 == 2)
    keep = [np.array(v) for v in (A, b, c)]
    s = BEM(Exact(A, i % 3 == 2), b, c, d)
    check(tuple(s.shape) == M.shape, 'shape')
    rhs = rhs_for(rng, M.shape[0])
    r0 = rhs.copy()
    f = rhs[:-1].astype(float)
    e = np.zeros(M.shape[0])
    e[-1] = 1.0
    for rep in range(2):
        solves(M, s.solve(rhs), r0, 'BEM.solve (singular=%s)' % s.is_singular)
        solves(M.T, s.solve_adj(rhs), r0, 'BEM.solve_adj (singular=%s)' % s.is_singular)
        solves(M, s.solve_zero(f), np.hstack((f, 0.0)), 'BEM.solve_zero (singular=%s)' % s.is_singular)
        if not s.is_singular:
            solves(M, s.solve_null(), e, 'BEM.solve_null')
            solves(M.T, s.solve_null_adj(), e, 'BEM.solve_null_adj')
        else:
            # up to the size: the null space of the first block row with vanishing parameter
            t = np.asarray(s.solve_null())
            close(M[:-1] @ t, np.zeros(len(t) - 1), 1e-9, 'BEM.solve_null (singular)', scale=1.0)
            t = np.asarray(s.solve_null_adj())
            close(M.T[:-1] @ t, np.zeros(len(t) - 1), 1e-9, 'BEM.solve_null_adj (singular)', scale=1.0)
        x = np.asarray(s.min_norm(f))
        want = np.linalg.lstsq(M[:-1], f, rcond=None)[0]
        close(x, want, 1e-7, 'BEM.min_norm', scale=1 + np.max(np.abs(want)))
        same(rhs, r0, 'right hand side')
        for v, w, nm in zip((A, b, c), keep, 'Abc'):
            same(v, w, nm)


@case('C12', quick=100, contracts=('BEM.update_row', 'BEM.update_col'))
def bem_updates(rng, i):
    """a history of border updates: solves afterwards are those of the updated system"""
    BEM = need('funpy.linalg', 'BEM')
    sing = i % 4 == 3
    A, b, c, d, M = system(rng, sing)
    n = A.shape[0]
    s = BEM(Exact(A, sing), b.copy(), c.copy(), d)
    log = []
    for k in range(5):
        for _ in range(200):
            nb, nc, nd = b, c, float(rng.uniform(-2, 2))
            if k % 2 == int(i % 2):
                nb, what = rng.uniform(-1, 1, n), 'row'
            else:
                nc, what = rng.uniform(-1, 1, n), 'col'
            if np.linalg.cond(bordered(A, nb, nc, nd)) < 2000:
                break
        else:
            return
        b, c, d = nb, nc, nd
        log.append(what)
        kb, kc = b.copy(), c.copy()
        if what == 'row':
            s.update_row(b, d)
        else:
            s.update_col(c, d)
        M = bordered(A, b, c, d)
        rhs = rhs_for(rng, n + 1)
        solves(M, s.solve(rhs), rhs, 'BEM.solve after %s' % log)
        solves(M.T, s.solve_adj(rhs), rhs, 'BEM.solve_adj after %s' % log)
        same(b, kb, 'row border')
        same(c, kc, 'column border')


def wide(rng):
    for _ in range(500):
        n = int(rng.choice([1, 2, 3, 5]))
        m = int(rng.choice([1, 2, 3, 4]))
        A = wellcond(rng, n)
        bs = [rng.uniform(-1, 1, n + k) for k in range(m)]
        cs = [rng.uniform(-1, 1, n + k) for k in range(m)]
        ds = [float(rng.uniform(-2, 2)) for k in range(m)]
        M = A
        ok = True
        for k in range(m):
            M = bordered(M, bs[k], cs[k], ds[k])
            ok = ok and np.linalg.cond(M) < 300
        if ok:
            return A, bs, cs, ds, M
    raise RuntimeError('no system')


@case('C12', quick=150, contracts=('BEMW.solve', 'BEMW.solve_adj', 'BEMW.prepare', 'BEMW.solve_detail', 'BEMW.solve_adj_detail'))
def bemw(rng, i):
    BEMW = need('funpy.linalg', 'BEMW')
    A, bs, cs, ds, M = wide(rng)
    keep = [A.copy()] + [v.copy() for v in bs + cs]
    s = BEMW(Exact(A), list(bs), list(cs), list(ds))
    N = M.shape[0]
    check(tuple(s.shape) == M.shape, 'shape')
    close(s.mat, M, 1e-14, 'BEMW.mat')
    rhs = rhs_for(rng, N)
    r0 = rhs.copy()
    e = np.zeros(N)
    e[-1] = 1.0
    f = rhs[:-1].astype(float)
    for rep in range(2):
        solves(M, s.solve(rhs), r0, 'BEMW.solve n=%d m=%d' % (A.shape[0], len(bs)), tol=1e-8)
        solves(M.T, s.solve_adj(rhs), r0, 'BEMW.solve_adj n=%d m=%d' % (A.shape[0], len(bs)), tol=1e-8)
        solves(M, s.solve_null(), e, 'BEMW.solve_null', tol=1e-8)
        solves(M.T, s.solve_null_adj(), e, 'BEMW.solve_null_adj', tol=1e-8)
        solves(M, s.solve_zero(f), np.hstack((f, 0.0)), 'BEMW.solve_zero', tol=1e-8)
        solves(M.T, s.solve_zero_adj(f), np.hstack((f, 0.0)), 'BEMW.solve_zero_adj', tol=1e-8)
        x = np.asarray(s.min_norm(f))
        want = np.linalg.lstsq(M[:-1], f, rcond=None)[0]
        close(x, want, 1e-6, 'BEMW.min_norm', scale=1 + np.max(np.abs(want)))
        same(rhs, r0, 'right hand side')
        for v, w in zip([A] + bs + cs, keep):
            same(v, w, 'matrix or border')


@case('C12', quick=60, contracts=('BEMW.update_row', 'BEMW.update_col'))
def bemw_updates(rng, i):
    BEMW = need('funpy.linalg', 'BEMW')
    A, bs, cs, ds, M = wide(rng)
    n, m = A.shape[0], len(bs)
    gb, gc, gd = list(bs), list(cs), list(ds)
    s = BEMW(Exact(A), gb, gc, gd)
    given = [v.copy() for v in bs + cs] + [np.array(ds)]
    for k in range(3):
        j = int(rng.randint(m))
        for _ in range(200):
            nb, nc, nd = list(bs), list(cs), list(ds)
            nd[j] = float(rng.uniform(-2, 2))
            row = bool(rng.randint(2))
            (nb if row else nc)[j] = rng.uniform(-1, 1, n + j)
            T, ok = A, True
            for q in range(m):
                T = bordered(T, nb[q], nc[q], nd[q])
                ok = ok and np.linalg.cond(T) < 2000
            if ok:
                break
        else:
            return
        bs, cs, ds = nb, nc, nd
        if row:
            s.update_row(j, bs[j], ds[j])
        else:
            s.update_col(j, cs[j], ds[j])
        rhs = rhs_for(rng, n + m)
        solves(T, s.solve(rhs), rhs, 'BEMW.solve after update %s %d' % ('row' if row else 'col', j), tol=1e-8)
        solves(T.T, s.solve_adj(rhs), rhs, 'BEMW.solve_adj after update', tol=1e-8)
        for v, w in zip(gb + gc + [np.array(gd)], given):
            same(v, w, 'borders given to BEMW, by an update,')


@case('C12', quick=60, contracts=('BEM.solve',))
def nested(rng, i):
    """a bordered solver is itself an exact solver: borders of borders"""
    BEM = need('funpy.linalg', 'BEM')
    A, bs, cs, ds, M = wide(rng)
    s = Exact(A)
    for b, c, d in zip(bs, cs, ds):
        s = BEM(s, b, c, d)
    rhs = rhs_for(rng, M.shape[0])
    solves(M, s.solve(rhs), rhs, 'nested BEM.solve', tol=1e-8)
    solves(M.T, s.solve_adj(rhs), rhs, 'nested BEM.solve_adj', tol=1e-8)


@case('C12', quick=60, contracts=('BEM.nullspace', 'BEM.det'))
def bem_extras(rng, i):
    BEM = need('funpy.linalg', 'BEM')
    A, b, c, d, M = system(rng, False)
    s = BEM(Exact(A), b, c, d)
    dt = np.linalg.det(M)
    close(s.det(), dt, 1e-8, 'BEM.det', scale=1 + abs(dt))


@case('C12', quick=80, contracts=('BMatrix',))
def bmatrix(rng, i):
    import contextlib
    import io
    B = need('funpy.linalg', 'BMatrix')
    A, b, c, d, M = system(rng, bool(i % 2))
    if A.shape[0] < 2:
        return
    keep = [v.copy() for v in (A, b, c)]
    with contextlib.redirect_stdout(io.StringIO()):
        s = B(A, b, c, d)
        rhs = rhs_for(rng, M.shape[0])
        r0 = rhs.copy()
        x, t = s.solve(rhs), s.solve_null()
    solves(M, x, r0, 'BMatrix.solve (singular=%s)' % bool(i % 2))
    close(s._matvec(x), M @ x, 1e-12, 'BMatrix matvec', scale=10 + np.max(np.abs(x)))
    close(s.mat, M, 1e-14, 'BMatrix.mat')
    e = np.zeros(M.shape[0])
    e[-1] = 1.0
    if i % 2 == 0:
        solves(M, t, e, 'BMatrix.solve_null')
    else:
        close(M[:-1] @ t, np.zeros(len(t) - 1), 1e-9, 'BMatrix.solve_null (singular)', scale=10.0)
    same(rhs, r0, 'right hand side')
    for v, w in zip((A, b, c), keep):
        same(v, w, 'matrix or border')


@case('C12', quick=80, contracts=('FoldSolver',))
def fold(rng, i):
    F = need('funpy.linalg.fold_solve', 'FoldSolver')
    for _ in range(300):
        n = int(rng.choice([2, 3, 5]))
        A = rank_one_deficient(rng, n)
        E = Exact(A, True)
        B = rng.uniform(-1, 1, (n, n))
        c1, c2 = rng.uniform(-1, 1, n), rng.uniform(-1, 1, n)
        Z = np.zeros((n, n))
        M = np.vstack((np.hstack((A, Z, c1[:, None])), np.hstack((B, A, c2[:, None])),
                       np.hstack((np.zeros((1, n)), E.phi[None, :], np.zeros((1, 1))))))
        if np.linalg.cond(M) < 1000:
            break
    else:
        return
    s = F(E, lambda v: v, lambda v: B @ v, c1, c2)
    s.ddx_adj = lambda v: B.T @ v
    rhs = rng.uniform(-1, 1, 2 * n + 1)
    r0 = rhs.copy()
    solves(M, s.solve(rhs), r0, 'FoldSolver.solve', tol=1e-8)
    solves(M.T, s.solve_adj(rhs), r0, 'FoldSolver.solve_adj', tol=1e-8)
    same(rhs, r0, 'right hand side')
