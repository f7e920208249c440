B = 'funpy/linalg/bem_solve.py'; W = 'funpy/linalg/bemw_solve.py'; H = 'funpy/linalg/helpers.py'; D = 'funpy/newton/deflation.py'; P = 'funpy/cheb/pts.py'
C = 'funpy/colloc/source/'
BUGS = [
 dict(id='c12-adjoint-corner', property='C12', file=B,
  old='''        al = (b[-1] - self.d * z - np.dot(self.c, xp)) / np.dot(self.c, psi)''',
  new='''        al = (b[-1] - np.dot(self.c, xp)) / np.dot(self.c, psi)''',
  needs='the adjoint of a bordered system whose block A is singular and whose corner is not zero',
  what='the last row of the adjoint system is not satisfied',
  demo='''
import numpy as np
from funpy.linalg.bem_solve import BEM
rng = np.random.RandomState(1)
n = 6
U, _ = np.linalg.qr(rng.randn(n, n)); V, _ = np.linalg.qr(rng.randn(n, n))
s = np.array([3., 2.5, 2., 1.5, 1., 0.])
A = U @ np.diag(s) @ V.T

class Solver:
    is_singular = True
    shape = (n, n)
    def null(self): return V[:, -1], U[:, -1]
    def particular(self, f): return np.linalg.pinv(A, rcond=1e-10) @ f
    def particular_adj(self, f): return np.linalg.pinv(A, rcond=1e-10).T @ f

for d in (0., 0.7):
    b, c, f = rng.randn(n), rng.randn(n), rng.randn(n + 1)
    M = np.block([[A, c[:, None]], [b[None, :], np.array([[d]])]])
    S = BEM(Solver(), b, c, d)
    assert np.allclose(M @ S.solve(f), f)
    assert np.allclose(M.T @ S.solve_adj(f), f)
'''),
 dict(id='c12-third-border', property='C12', file=W,
  old='''            # Step 3:
            x[:n + k] -= c[k] * y[k]
            x[n + k]  -= d[k] * y[k]''',
  new='''            # Step 3:
            x[:n + k] -= c[k] * y[k]
            x[n + k]  -= d[min(k, 1)] * y[k]''',
  needs='three or more borders with different corners',
  what='the corner of the second border is used for the later ones',
  demo='''
import numpy as np
from funpy.linalg.bemw_solve import BEMW
rng = np.random.RandomState(3)
n = 5

class Solver:
    is_singular = False
    def __init__(self, A): self.A, self.shape = A, A.shape
    def solve(self, f): return np.linalg.solve(self.A, f)
    def solve_adj(self, f): return np.linalg.solve(self.A.T, f)

for m in (1, 2, 3, 4):
    A = rng.randn(n, n) + 4 * np.eye(n)
    bs = [rng.randn(n + k) for k in range(m)]; cs = [rng.randn(n + k) for k in range(m)]; ds = list(3 + rng.rand(m))
    S = BEMW(Solver(A), bs, cs, ds)
    f = rng.randn(n + m)
    assert np.allclose(S.mat @ S.solve(f), f), m
    assert np.allclose(S.mat.T @ S.solve_adj(f), f), m
'''),
 dict(id='c13-huge-entries', property='C13', file=H,
  old='''            for i in range(count):
                r *= safmx2
''',
  new='''            if count > 0:
                r *= safmx2
''',
  needs='entries larger than 1/eps**2, which are scaled down more than once',
  what='the length of the rotated vector is too small by a power of the machine epsilon',
  demo='''
import numpy as np
from funpy.linalg.helpers import givensAlgorithm, slogdet_hessenberg
for e in (1., 1e17, 1e40, 1e60):
    for f, g in ((3., 4.), (-3., 4.), (1., -2.)):
        c, s, r = givensAlgorithm(f * e, g * e)
        assert abs(r / e) - np.hypot(f, g) < 1e-12 and abs(abs(r / e) - np.hypot(f, g)) < 1e-12, (e, f, g)
        assert abs(c * f + s * g - r / e) < 1e-12
H = np.triu(np.random.RandomState(0).randn(5, 5), -1)
s, l = slogdet_hessenberg(H * 1e36)
S, L = np.linalg.slogdet(H)
assert s == S and abs(l - L - 5 * np.log(1e36)) < 1e-9
'''),
 dict(id='c17-other-powers', property='C17', file=D,
  old='''        function += diff / (defl * diff_norm**(2 + power))''',
  new='''        function += diff / (defl * diff_norm**(2 * power))''',
  needs='a deflation power other than two',
  what='the derivative of the deflation factor has the wrong power of the distance',
  demo='''
import numpy as np
from funpy import Fun
import importlib
M = importlib.import_module('funpy.newton.deflation')
N = M.h1norm
grabbed = []
M.Functional = lambda f, **k: grabbed.append(f) or f
u = Fun(op=lambda x: np.sin(2 * x) + x, domain=[-1, 1]); a = Fun(op=lambda x: np.cos(x), domain=[-1, 1])
for p in (2., 1., 3.):
    eta, f = M.deflation_linearization(u, [a], shift=1.0, power=p)
    q = N(u - a)
    assert abs(eta - (1 + q**-p)) < 1e-12
    x = np.linspace(-1, 1, 7)
    want = -p * q**(-p - 2) * (u(x) - a(x))
    assert np.allclose(np.ravel(f(x)), np.ravel(want), atol=1e-10), p
'''),
 dict(id='c19-right-half', property='C19', file=P,
  old='''    a = interval[0]
    b = interval[1]

    if a == -1 and b == 1:
        return w
''',
  new='''    a = interval[0]
    b = interval[1]

    if b - a == 2 or b == 1:
        return w
''',
  needs='an interval other than [-1, 1] that ends at 1',
  what='the quadrature weights are not scaled to the interval',
  demo='''
import numpy as np
from funpy.cheb.pts import chebpts_type1, chebpts_type2
for f in (chebpts_type1, chebpts_type2):
    for I in ([-1., 1.], [0., 2.], [0., 1.], [-3., 1.], [2., 7.]):
        for n in (1, 2, 5, 8):
            r = f(n, np.array(I))
            assert abs(np.sum(r[1]) - (I[1] - I[0])) < 1e-12, (f, I, n)
'''),
 dict(id='c21-right-part', property='C21', file='funpy/cheb/detail.pyx',
  old='''        r = np.concatenate(((splitPoint - 1)/2 + (splitPoint + 1)/2*rLeft,
                            (splitPoint + 1)/2 + (1 - splitPoint)/2 * rRight))''',
  new='''        r = np.concatenate(((splitPoint - 1)/2 + (splitPoint + 1)/2*rLeft,
                            (splitPoint + 1)/2 + (1 + splitPoint)/2 * rRight))''',
  needs='more than 513 coefficients and a root right of the split point',
  what='roots right of the split point are reported at the wrong place',
  demo='''
import numpy as np
from funpy.cheb import chebtech
for k in (120, 700, 900):
    f = chebtech(op=lambda x: np.sin(k * x + 0.3))
    r = np.sort(np.ravel(f.roots()))
    j = np.arange(np.ceil((-k + 0.3) / np.pi), np.floor((k + 0.3) / np.pi) + 1)
    want = (j * np.pi - 0.3) / k
    assert r.size == want.size and np.max(np.abs(r - want)) < 1e-8, k
'''),
 dict(id='c21-grid-maximum', property='C21', file='funpy/cheb/minmax.py',
  old='''    if max_value > vals[1]:
        vals[1] = max_value
        pos[1] = xpts[idx-1]''',
  new='''    if max_value > vals[1]:
        vals[1] = max_value
        pos[1] = xpts[min(idx, len(xpts) - 1)]''',
  needs='a largest value taken at a grid point rather than at a computed stationary point, by rounding',
  what='the position of the maximum is one grid point off',
  demo='''
import numpy as np
from funpy.cheb import chebtech
rng = np.random.RandomState(0)
for t in range(400):
    f = chebtech(coeffs=rng.randn(rng.choice([3, 5, 9]), 1), simplify=False)
    vals, pos = f.minandmax()
    assert np.allclose(np.ravel(f(np.ravel(pos))), np.ravel(vals), atol=1e-8), (t, vals, pos)
for t in range(400):
    c = rng.randn(9, 1); c[1::2] = 0
    f = chebtech(coeffs=c, simplify=False)
    vals, pos = f.minandmax()
    assert np.allclose(np.ravel(f(np.ravel(pos))), np.ravel(vals), atol=1e-8), (t, vals, pos)
'''),
 dict(id='c22-two-integrals', property='C22', file=C + 'OperatorSourceBlock.py',
  old='''            value.offset = self.icount
''',
  new='''            value.offset = len(self.dops) - self.dcount
''',
  needs='an equation with two different integrals of the same function',
  what='the generated functions of the integral terms share their names: the last one replaces the others',
  demo='''
from funpy.colloc.source.compiler import Source
import io, contextlib
with contextlib.redirect_stdout(io.StringIO()):
    s = Source(['diff(u, x, 2) + x*int(u, x) + u*int(x*u, x)'], None, [], ['u'], {}, [], {}, [])
    s.compile()
    code = s.lin[0, 0].emit()
    names = [l.split('(')[0] for l in code.splitlines() if l.startswith('def ')]
assert len(set(names)) == len(names), names
'''),
 dict(id='c22-order-of-constraints', property='C22', file=C + 'compiler.py',
  old='''            self.diffOrder = max(self.diffOrder, max(self.get_diff_order(spcode)))''',
  new='''            self.diffOrder = max(self.get_diff_order(spcode))''',
  needs='second derivatives of a system whose constraints have a lower differential order than its equations',
  what='the derivative terms of the bilinear forms are lost',
  demo='''
from funpy.colloc.source.compiler import Source
import io, contextlib
with contextlib.redirect_stdout(io.StringIO()):
    s = Source(['u*diff(u, x, 2) - a*u**2'], ['int(u, x)'], [], ['u'], {}, [], {'a': 1.0}, [])
    s.compile(cpars=['a'])
    b = s.bilinear(s.lin, s.diffOrder)[0].biaction
assert 'Derivative(u_pp(' in str(b), b
'''),
]
