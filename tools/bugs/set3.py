R = 'funpy/colloc/sparse/csr.py'; K = 'funpy/colloc/sparse/csc.py'; A = 'funpy/colloc/adapt.py'; T = 'funpy/colloc/tools.py'
M = 'funpy/colloc/ultraS/matrices.py'
BUGS = [
 dict(id='c14-empty-column', property='C14', file=K,
  old='''        mat.indices = mat.indices[:-n]
    mat.indptr[i:-1] = mat.indptr[i+1:]
    mat.indptr[i:] -= n
    mat.indptr = mat.indptr[:-1]
''',
  new='''        mat.indices = mat.indices[:-n]
        mat.indptr[i:-1] = mat.indptr[i+1:]
        mat.indptr[i:] -= n
    mat.indptr = mat.indptr[:-1]
''',
  needs='a column without stored entries, other columns to its right',
  what='an empty column is not removed, the last column is dropped instead',
  demo='''
import numpy as np, scipy.sparse as sps
from funpy.colloc.sparse.csc import delete_cols_csc
a = np.array([[1., 0., 3., 4.], [0., 0., 0., 6.], [7., 0., 0., 8.]])
for i in range(4):
    m = delete_cols_csc(sps.csc_matrix(a), [i])
    assert np.all(m.toarray() == np.delete(a, i, axis=1)), (i, m.toarray())
'''),
 dict(id='c14-append-pointer', property='C14', file=R,
  old='a.indptr = np.hstack((a.indptr,(b.indptr + a.nnz)[1:]))', new='a.indptr = np.hstack((a.indptr,(b.indptr + a.indptr[a.shape[1]])[1:]))',
  needs='a first matrix whose numbers of rows and columns differ',
  what='the pointers of the appended rows start at the wrong stored entry',
  demo='''
import numpy as np, scipy.sparse as sps
from funpy.colloc.sparse.csr import csr_vappend
for n in (2, 3, 5):
    x, y = np.arange(1., n * 3 + 1).reshape(n, 3), np.arange(20., 26.).reshape(2, 3)
    a = csr_vappend(sps.csr_matrix(x), sps.csr_matrix(y))
    assert a.indptr[-1] == a.data.size and np.all(np.diff(a.indptr) >= 0), a.indptr
    assert np.all(a.toarray() == np.vstack((x, y))), a.toarray()
'''),
 dict(id='c14-inverse-order', property='C14', file=R,
  old='''    idenRows = np.argsort(idenRows)
''', new='''    idenRows = np.asarray(idenRows)
''',
  needs='a permutation of at least three rows that is not its own inverse',
  what='the rows are permuted by the inverse of the order asked for',
  demo='''
import numpy as np, scipy.sparse as sps
from funpy.colloc.sparse.csr import flip_rows
a = np.arange(1., 13.).reshape(4, 3)
p = [1, 2, 3, 0]
assert np.all(flip_rows(sps.csr_matrix(a), p).toarray() == a[p])
'''),
 dict(id='c15-power-of-two', property='C15', file=T,
  old='''    n = n - 1
    while n & n - 1:''', new='''    while n & n - 1:''',
  needs='a number that is a power of two already',
  what='the rounded size of a power of two is twice as large as needed',
  demo='''
from funpy.colloc.tools import findNextPowerOf2
for n in range(2, 70):
    w = 2
    while w < n:
        w *= 2
    assert findNextPowerOf2(n) == w, (n, findNextPowerOf2(n))
'''),
 dict(id='c15-repeated-size', property='C15', file=A,
  old='return np.unique(np.maximum(', new='return np.sort(np.maximum(',
  needs='a lower bound above two of the nested sizes (the default already is)',
  what='the first size is proposed several times',
  demo='''
import numpy as np
from funpy.colloc.adapt import SolverAdaptive
s = SolverAdaptive(None, n_max=6)
assert np.all(np.diff(s.n_disc()) > 0), s.n_disc()
'''),
 dict(id='c15-reserved-rows', property='C15', file=M,
  old='v = np.hstack((v, nn[0] + n[0] - np.arange(1, m + 1))).astype(int)', new='v = np.hstack((v, nn[0] + n[0] - np.arange(m, 2 * m))).astype(int)',
  needs='a projection of order two or more',
  what='the rows dropped are not the last ones of the block',
  demo='''
import numpy as np, scipy.sparse as sps
from funpy.colloc.ultraS.matrices import reduceOne
x = np.arange(1., 26.).reshape(5, 5)
A = np.empty(1, dtype=object); A[0] = sps.csr_matrix(x)
for m in (0, 1, 2, 3):
    PA, P, PS = reduceOne(A, A, m, np.array([5]))
    assert np.all(PA.toarray() == x[:5 - m]), (m, PA.toarray())
'''),
]
