from common import *
import numpy as np
import scipy.sparse as sps


def matrix(rng, fmt, dup=False):
    n, m = int(rng.choice([1, 2, 3, 4, 7])), int(rng.choice([1, 2, 3, 5]))
    A = rng.uniform(-1, 1, (n, m)) + (1j * rng.uniform(-1, 1, (n, m)) if rng.randint(3) == 0 else 0)
    A = A * (rng.uniform(0, 1, (n, m)) < rng.choice([0.0, 0.3, 0.6, 1.0]))
    if rng.randint(4) == 0:
        A[rng.randint(n)] = 0
    M = sps.csr_matrix(A) if fmt == 'csr' else sps.csc_matrix(A)
    if rng.randint(4) == 0 and M.nnz:        # explicitly stored zero
        M.data[rng.randint(M.nnz)] = 0
        A = M.toarray()
    if rng.randint(3) == 0:                  # unsorted indices
        for r in range(len(M.indptr) - 1):
            a, b = M.indptr[r], M.indptr[r + 1]
            p = rng.permutation(b - a)
            M.indices[a:b] = M.indices[a:b][p]
            M.data[a:b] = M.data[a:b][p]
        M.has_sorted_indices = False
    return A, M


def valid(M, what):
    n, m = M.shape
    maj, mnr = (n, m) if M.format == 'csr' else (m, n)
    check(len(M.indptr) == maj + 1, '%s: indptr has %d entries for %d' % (what, len(M.indptr), maj))
    check(M.indptr[0] == 0 and np.all(np.diff(M.indptr) >= 0), '%s: indptr %s' % (what, M.indptr))
    nz = M.indptr[-1]
    check(len(M.indices) == len(M.data) and len(M.data) == nz, '%s: %d indices, %d data, indptr ends at %d' % (what, len(M.indices), len(M.data), nz))
    check(nz == 0 or (M.indices.min() >= 0 and M.indices.max() < mnr), '%s: index out of range %s' % (what, M.indices))


def result(M, want, what):
    check(M.shape == want.shape, '%s: shape %s, expected %s' % (what, M.shape, want.shape))
    valid(M, what)
    same(M.toarray(), want, what)


@case('C14', quick=300, contracts=('delete_row_csr',))
def delete_row(rng, i):
    f = need('funpy.colloc.sparse.csr', 'delete_row_csr')
    A, M = matrix(rng, 'csr')
    r = int(rng.randint(A.shape[0]))
    f(M, r)
    result(M, np.delete(A, r, axis=0), 'deleting row %d of\n%s' % (r, A))


@case('C14', quick=200, contracts=('delete_rows_csr',))
def delete_rows(rng, i):
    f = need('funpy.colloc.sparse.csr', 'delete_rows_csr')
    A, M = matrix(rng, 'csr')
    k = int(rng.randint(A.shape[0] + 1))
    r = list(rng.choice(A.shape[0], k, replace=False)) + ([0] if k > 0 and rng.randint(3) == 0 else [])
    if rng.randint(2):
        r = np.array(r, dtype=int)
    R = f(M, r)
    result(R, np.delete(A, np.unique(np.array(r, dtype=int)), axis=0), 'deleting rows %s of\n%s' % (r, A))
    result(M, A, 'the matrix rows are deleted from')


@case('C14', quick=300, contracts=('delete_col_csc',))
def delete_col(rng, i):
    f = need('funpy.colloc.sparse.csc', 'delete_col_csc')
    A, M = matrix(rng, 'csc')
    r = int(rng.randint(A.shape[1]))
    f(M, r)
    result(M, np.delete(A, r, axis=1), 'deleting column %d of\n%s' % (r, A))


@case('C14', quick=200, contracts=('delete_cols_csc',))
def delete_cols(rng, i):
    f = need('funpy.colloc.sparse.csc', 'delete_cols_csc')
    A, M = matrix(rng, 'csc')
    k = int(rng.randint(A.shape[1] + 1))
    r = list(rng.choice(A.shape[1], k, replace=False))
    r += r[:1] if len(r) > 1 and rng.randint(3) == 0 else []
    q = np.array(r, dtype=int) if rng.randint(2) else (int(r[0]) if k == 1 and rng.randint(2) else r)
    R = f(M, q)
    result(R, np.delete(A, np.unique(np.array(r, dtype=int)), axis=1), 'deleting columns %s of\n%s' % (r, A))


@case('C14', quick=120)
def zeros(rng, i):
    f, g = need('funpy.colloc.sparse.csr', 'eliminate_zeros'), need('funpy.colloc.sparse.csc', 'eliminate_zeros_csc')
    A, M = matrix(rng, ['csr', 'csc'][i % 2])
    eps = rng.choice([None, 1e-3, 0.3])
    if M.nnz:
        M.data[rng.randint(M.nnz)] = rng.choice([1e-17, -1e-17, 1e-15, -0.5])
    A = M.toarray()
    e = np.finfo(A.dtype).eps if eps is None else eps
    R = (g if i % 2 and rng.randint(2) else f)(M, eps)
    want = np.where(np.abs(A) < e, 0, A)
    result(R, want, 'entries below %s removed from\n%s' % (eps, A))
    check(np.all(np.abs(R.data) >= e), 'negligible entries stay stored: %s' % R.data)


@case('C14', quick=120)
def flips(rng, i):
    f, g = need('funpy.colloc.sparse.csr', 'flip_rows'), need('funpy.colloc.sparse.csc', 'flip_cols')
    A, M = matrix(rng, ['csr', 'csc'][i % 2])
    ax = i % 2
    p = list(rng.permutation(A.shape[ax]))
    q = list(p)
    R = (g if ax else f)(M, p)
    result(R, A[:, p] if ax else A[p], 'rows or columns reordered by %s of\n%s' % (p, A))
    result(M, A, 'the matrix given to be reordered')
    check(p == q, 'the order changed')


@case('C14', quick=120)
def append(rng, i):
    f = need('funpy.colloc.sparse.csr', 'csr_vappend')
    A, M = matrix(rng, 'csr')
    B, N = matrix(rng, 'csr')
    m = min(A.shape[1], B.shape[1])
    A, B = A[:, :m], B[:, :m]
    M, N = sps.csr_matrix(A), sps.csr_matrix(B)
    R = f(M, N)
    result(R, np.vstack((A, B)), 'stack of\n%s\n%s' % (A, B))
    check(R is M, 'the first matrix is not the result')
    result(N, B, 'the appended matrix')
