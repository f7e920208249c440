M = 'funpy/colloc/ultraS/matrices.py'; T = 'funpy/colloc/ultraS/transform.py'; U = 'funpy/ultra.py'
BUGS = [
 dict(id='c10-multiplier-with-gap', property='C10', file=M,
  old='''            if np.all(np.abs(c[nn + 3:]) < eps):''',
  new='''            if np.all(np.abs(c[nn + 3:nn + 5]) < eps):''',
  needs='basis lambda >= 2 and a multiplier with two consecutive vanishing coefficients before its last one',
  what='the recurrence stops at the first gap, the remaining terms of the multiplier are lost',
  demo='''
import numpy as np
from funpy.cheb import chebtech
from funpy.colloc.ultraS.matrices import multmat, convertmat
n = 48
for j in (3, 9, 15):
    c = np.zeros((j + 1, 1)); c[0] = 0.3; c[j] += 1.7
    f = chebtech(coeffs=c)
    g = np.zeros(n); g[:5] = [1, -2, 0.5, 3, 1]
    p = np.zeros(n); q = np.polynomial.chebyshev.chebmul(c[:, 0], g[:5]); p[:q.size] = q
    for lam in (0, 1, 2, 3):
        S = convertmat(n, 0, lam - 1)
        got = multmat(n, f, lam) @ (S @ g)
        assert np.allclose(got, S @ p, atol=1e-10), (j, lam)
'''),
 dict(id='c10-fourth-derivative', property='C10', file=M,
  old='''            D = spdiags(2 * s * np.ones(n), 1, n, n, format=format) * D''',
  new='''            D = spdiags(2 ** s * np.ones(n), 1, n, n, format=format) * D''',
  needs='derivatives of order four and higher',
  what='the factors 2 s of the higher derivatives become powers of two',
  demo='''
import numpy as np
from funpy.colloc.ultraS.matrices import diffmat, convertmat
n = 20
c = np.zeros(n); c[:9] = np.random.default_rng(0).standard_normal(9)
for m in range(1, 7):
    d = np.zeros(n); q = np.polynomial.chebyshev.chebder(c[:9], m); d[:q.size] = q
    assert np.allclose(diffmat(n, m) @ c, convertmat(n, 0, m - 1) @ d, rtol=1e-9, atol=1e-8), m
'''),
 dict(id='c10-inverse-of-higher-basis', property='C10', file=T,
  old='''        dg = np.hstack((1, (lam + np.arange(1, n, 1)) / lam))''',
  new='''        dg = np.hstack((1, 1 + np.arange(1, n, 1)))''',
  needs='the inverse conversion from C^(lam+1) with lam >= 2',
  what='the inverse conversion is the one of lam = 1',
  demo='''
import numpy as np
from funpy.colloc.ultraS.transform import spconvert, spconvert_inv
for n in (1, 2, 3, 8, 11):
    for lam in (0, 1, 2, 3, 5):
        P = (spconvert_inv(n, lam) @ spconvert(n, lam)).toarray()
        assert np.allclose(P, np.eye(n), atol=1e-12), (n, lam)
'''),
 dict(id='c10-parameters-not-exchanged', property='C10', file=U,
  old='''    v[1::2] = -v[1::2]
    v = UpJacobiConversion(v, b, a)''',
  new='''    v[1::2] = -v[1::2]
    v = UpJacobiConversion(v, a, b)''',
  needs='a conversion up by two or more bases: only then the two Jacobi parameters differ in a step to the right',
  what='the reflected series is converted with the parameters not exchanged',
  demo='''
import numpy as np
from scipy.special import eval_gegenbauer
from funpy.ultra import ultra2ultra
rng = np.random.default_rng(2)
x = np.linspace(-1, 1, 11)
ev = lambda c, lam: sum(c[k, 0] * (np.cos(k * np.arccos(x)) if lam == 0 else eval_gegenbauer(k, lam, x)) for k in range(len(c)))
for n in (1, 2, 5, 9):
    for a, b in ((0, 1), (0, 2), (0, 3), (1, 3), (3, 1), (2, 0)):
        c = rng.standard_normal((n, 1))
        d = ultra2ultra(c, a, b)
        assert np.allclose(ev(c, a), ev(d, b), atol=1e-9), (n, a, b)
'''),
]
