from common import *
import numpy as np
import scipy.sparse as sps


@case('C15', quick=120, contracts=('n_disc',))
def sizes(rng, i):
    S = need('funpy.colloc.adapt', 'SolverAdaptive')
    kw = {}
    if rng.randint(2):
        kw['n_min'] = int(rng.randint(1, 12))
    if rng.randint(2):
        kw['n_max'] = int(rng.randint(3, 15))
    if kw.get('n_min', 2) > kw.get('n_max', 14):
        kw.pop('n_min')
    s = S(None, **kw)
    k2 = {}
    if rng.randint(2):
        k2['lower_bd'] = int(rng.choice([1, 2, 9, 17, 33, 40, 129]))
    lo = k2.get('lower_bd', 17)
    if rng.randint(2):
        k2['upper_bd'] = lo + int(rng.choice([0, 1, 16, 100, 1000]))
    if rng.randint(8) == 0:
        k2['constant'] = True
    n = np.asarray(s.n_disc(**k2))
    what = 'n_disc(%s) of SolverAdaptive(%s) = %s' % (k2, kw, n)
    check(n.ndim == 1 and n.size >= 1, what)
    check(np.all(np.diff(n) > 0), 'not increasing: ' + what)
    if k2.get('constant'):
        same(n, np.array([1]), 'size for constants')
        return
    up = max(lo, k2.get('upper_bd', 1 + 2 ** s.n_max))
    check(np.all(n >= lo) and np.all(n <= up), 'outside [%s, %s]: ' % (lo, up) + what)
    check(all(x in (lo, up) or (x - 1) & (x - 2) == 0 for x in map(int, n)), 'not a nested grid: ' + what)


@case('C15', quick=60, contracts=('findNextPowerOf2', 'round_up'))
def rounding(rng, i):
    for mod in ('funpy.support.tools', 'funpy.colloc.tools'):
        f = need(mod, 'findNextPowerOf2')
        for n in list(range(-2, 70)) + [int(rng.randint(1, 2 ** 20)), 2 ** int(rng.randint(1, 40)), 2 ** int(rng.randint(1, 40)) + 1]:
            w = 2
            while w < n:
                w *= 2
            check(f(n) == w, '%s.findNextPowerOf2(%s) = %s, expected %s' % (mod, n, f(n), w))
    r = need('funpy.support.tools', 'round_up')
    for _ in range(20):
        a, b = int(rng.randint(0, 10 ** 6)), int(rng.randint(1, 1000))
        check(r(a, b) == -(-a // b) * b, 'round_up(%d, %d) = %s' % (a, b, r(a, b)))


@case('C15', quick=200, contracts=('remove_bc', 'replace_bc', 'get_bc'))
def bc(rng, i):
    rem, rep, get = need('funpy.colloc.tools', 'remove_bc', 'replace_bc', 'get_bc')
    q, bw = int(rng.randint(1, 5)), int(rng.randint(0, 4))
    n = bw + int(rng.randint(0 if bw else 1, 6))
    n = max(n, 1)
    a = rng.uniform(-1, 1, n * q)
    a0 = a.copy()
    blocks = a.reshape((n, q), order='F')
    close(rem(a, q, bw=bw), blocks[bw:], 0, 'remove_bc(%d blocks of %d, bw=%d)' % (q, n, bw))
    want = np.zeros((n, q))
    want[:n - bw] = blocks[bw:]
    close(rep(a, q, bw=bw), want.flatten(order='F'), 0, 'replace_bc')
    close(rep(a, q, bw=bw, reshape=True), want, 0, 'replace_bc')
    close(get(a, q, bw=bw), blocks[:bw].flatten(order='F'), 0, 'get_bc')
    if bw == 2:
        close(rem(a, q), blocks[2:], 0, 'remove_bc')
    same(a, a0, 'input of the boundary row helpers')


@case('C15', quick=100, contracts=('reduceOne',))
def reduce(rng, i):
    f = need('funpy.colloc.ultraS.matrices', 'reduceOne')
    n, q = int(rng.randint(2, 9)), int(rng.randint(1, 4))
    m = int(rng.randint(0, min(n, 4)))
    A, S = np.empty(q, dtype=object), np.empty(q, dtype=object)
    da, ds = [], []
    for j in range(q):
        x, y = rng.uniform(-1, 1, (n, n)), rng.uniform(-1, 1, (n, n))
        x[rng.uniform(0, 1, x.shape) < 0.5] = 0
        A[j], S[j] = sps.csr_matrix(x), sps.csr_matrix(y)
        da.append(x)
        ds.append(y)
    PA, P, PS = f(A, S, m, np.array([n]) if rng.randint(2) else n)
    close(PA.toarray(), np.vstack([x[:n - m] for x in da]), 0, 'rows of the operator kept when %d of %d are reserved' % (m, n))
    close(PS.toarray(), np.vstack([x[:n - m] for x in ds]), 0, 'rows of the basis change kept')
    close(P.toarray(), np.eye(n)[:n - m], 0, 'projection')
    for j in range(q):
        close(A[j].toarray(), da[j], 0, 'operator block')
        close(S[j].toarray(), ds[j], 0, 'basis change block')


@case('C15', quick=100, contracts=('project_vector',))
def vectors(rng, i):
    U = need('funpy.colloc.ultraS.ultraS', 'ultraS')
    proj = need('funpy.colloc.projection', 'RectangularProjection')
    Fun = need('funpy.fun', 'Fun')
    n, q, m = int(rng.randint(3, 9)), int(rng.randint(1, 4)), int(rng.randint(0, 3))
    nc = int(rng.randint(0, 4))

    class Src:
        constraints = list(range(nc))
        dshape = (n, q)
        cts_res = rng.uniform(-1, 1, (nc, 1))

        class quasiOp:
            shape = (q, q)

        def getOutputSpace(self):
            return 2
    u = U(source=Src(), dimension=n)
    M = sps.block_diag([sps.csr_matrix(np.eye(n)[:n - m])] * q)
    B = sps.csr_matrix(rng.uniform(-1, 1, (q * (n - m), q * n)))
    u.proj, u.projection = proj(M), proj(B)
    v = rng.uniform(-1, 1, n * q)
    v0 = v.copy()
    for basis in (True, False):
        for cts in (True, False):
            head = Src.cts_res.flatten() if cts else np.zeros(nc)
            want = np.concatenate((head, np.asarray((B if basis else M) @ v)))
            close(u.project_vector(v, basis=basis, cts=cts), want, 1e-14, 'project_vector(basis=%s, cts=%s)' % (basis, cts))
    same(v, v0, 'vector given to project_vector')
    close(np.asarray(u.project_vector(v, basis=False))[nc:], np.concatenate([v[j * n:(j + 1) * n - m] for j in range(q)]), 0, 'rows kept')
    k = int(rng.randint(1, n + 1))
    c = rng.uniform(-1, 1, (k, q))
    g = Fun.from_coeffs(c.flatten(order="F"), q)
    gc = np.array(g.coeffs)
    pad = np.zeros((n, q))
    pad[:gc.shape[0]] = gc
    close(u.project_vector(g, basis=False)[nc:], np.asarray(M @ pad.flatten(order='F')), 1e-14, 'project_vector(function)')
    same(np.asarray(g.coeffs), gc, 'function given to project_vector')
    # functions from constraint values and coefficients in the output basis
    w = np.concatenate((rng.uniform(-1, 1, nc), v))
    w0 = w.copy()
    head, f = u.toFunctionIn(w, lam_in=0)
    close(head, w0[:nc], 0, 'constraint values')
    fc = np.zeros((n, q))
    fc[:f.coeffs.shape[0]] = f.coeffs
    close(fc, v0.reshape((n, q), order='F'), 1e-12, 'blocks of the function')
    same(w, w0, 'vector given to toFunctionIn')
