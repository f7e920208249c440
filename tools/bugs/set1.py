D = 'funpy/cheb/detail.pyx'; C = 'funpy/cheb/chebtech.py'; U = 'funpy/cheb/ufuncs.pyx'
BUGS = [
 dict(id='c01-two-coefficients', property='C01', file=D,
  old='''    if n & 1:
        for j in range(N):
            for k in range(m):''',
  new='''    if n > 1 and n & 1:
        for j in range(N):
            for k in range(m):''',
  needs='an array-valued function with exactly two coefficients (linear columns)',
  what='the vector Clenshaw recurrence skips its odd step, the linear term is lost',
  demo='''
import numpy as np
from funpy.cheb import chebtech
f = chebtech(coeffs=np.array([[1., 2.], [3., -1.]], order='F'), simplify=False)
x = np.array([-1., -.3, .5, 1.])
want = np.stack((1 + 3*x, 2 - x), axis=1)
assert np.allclose(f.feval(x), want, atol=1e-13), f.feval(x)
'''),
 dict(id='c01-lval-mutates', property='C01', file=C,
  old='''        c = np.copy(self.coeffs)
        c[1::2] *= -1
        return np.sum(c, axis=0)''',
  new='''        c = np.asarray(self.coeffs)
        c[1::2] *= -1
        return np.sum(c, axis=0)''',
  needs='the left end value is asked for and the function is used again afterwards',
  what='lval flips the odd coefficients of the function itself',
  demo='''
import numpy as np
from funpy.cheb import chebtech
f = chebtech(coeffs=np.array([[1.], [3.], [.5]], order='F'), simplify=False)
c = np.array(f.coeffs)
assert np.allclose(f.lval(), -1.5)
assert np.all(f.coeffs == c), f.coeffs
'''),
 dict(id='c02-last-derivative', property='C02', file=C,
  old='    if n >= k:\n        return chebtech(coeffs=np.zeros_like', new='    if n > 1 and n >= k - 1:\n        return chebtech(coeffs=np.zeros_like',
  needs='a derivative whose order (at least two) equals the degree of the polynomial',
  what='the highest non-vanishing derivative comes out as zero',
  demo='''
import numpy as np
from funpy.cheb import chebtech
f = chebtech(coeffs=np.array([[1.], [3.], [.5]], order='F'), simplify=False)
x = np.array([-1., .2, 1.])
assert np.allclose(np.diff(f, n=2).feval(x), 2.0), np.diff(f, n=2).coeffs
'''),
 dict(id='c02-inner-too-few-points', property='C02', file=C,
  old='    n = len(cheb1) + len(cheb2)\n', new='    n = max(len(cheb1) + len(cheb2) - 2, 2)\n',
  needs='an inner product of two low degree functions whose degrees add up to an even number',
  what='the product is not resolved by the quadrature, the inner product is wrong',
  demo='''
import numpy as np
from funpy.cheb import chebtech
f = chebtech(coeffs=np.array([[0.], [0.], [1.]], order='F'), simplify=False)
g = chebtech(coeffs=np.array([[1.], [0.], [.3]], order='F'), simplify=False)
xs, ws = np.polynomial.legendre.leggauss(20)
want = np.sum(ws * f.feval(xs) * g.feval(xs))
assert np.allclose(np.inner(f, g), want, atol=1e-12), (np.inner(f, g), want)
'''),
 dict(id='c03-square-by-first-column', property='C03', file=U,
  old='    if np.all(f == g):\n', new='    if np.all(f[:, 0] == g[:, 0]):\n',
  needs='a product of two array-valued functions that share their first column only and are negative somewhere in another',
  what='the product is taken for a square and its absolute value returned',
  demo='''
import numpy as np
from funpy.cheb import chebtech
f = chebtech(coeffs=np.array([[1., 2.], [.5, 1.], [.1, .2]], order='F'), simplify=False)
g = chebtech(coeffs=np.array([[1., -2.], [.5, .3], [.1, .1]], order='F'), simplify=False)
x = np.linspace(-1, 1, 7)
assert np.allclose((f * g).feval(x), f.feval(x) * g.feval(x), atol=1e-7)
'''),
 dict(id='c03-hstack-offset', property='C03', file=C,
  old='        i += sz\n', new='        i += 1\n',
  needs='stacking three functions of which an early one has several columns',
  what='columns are overwritten by later ones',
  demo='''
import numpy as np
from funpy.cheb import chebtech
f = chebtech(coeffs=np.array([[1., 2.], [.5, 1.]], order='F'), simplify=False)
g = chebtech(coeffs=np.array([[3.], [.5], [.1]], order='F'), simplify=False)
h = np.hstack([f, g])
x = np.linspace(-1, 1, 7)
assert np.allclose(h.feval(x)[:, 2], g.feval(x)), h.coeffs
'''),
 dict(id='c04-last-column-decides', property='C04', file=D,
  old='        cutoff = max_idx(cutoff, chop)\n', new='        cutoff = chop if k > 1 else max_idx(cutoff, chop)\n',
  needs='simplifying a function of three or more columns whose last column is resolved much earlier than an earlier one',
  what='non negligible coefficients are dropped',
  demo='''
import numpy as np
from funpy.cheb import chebtech
c = np.zeros((60, 3), order='F')
c[:, 0] = 1.5 ** -np.arange(60.); c[:3, 1] = 1; c[0, 2] = 1; c[1:4, 2] = .1
c[45:] = 0
f = chebtech(coeffs=c.copy(order='F'), simplify=False, eps=1e-8)
g = chebtech(coeffs=c.copy(order='F'), simplify=False, eps=1e-8); g.simplify(force=True)
x = np.linspace(-1, 1, 23)
assert np.max(np.abs(f.feval(x) - g.feval(x))) < 1e-5, np.max(np.abs(f.feval(x) - g.feval(x)))
'''),
 dict(id='c05-cutoff-of-last-column', property='C05', file=D,
  old='        rcutoff = max(rcutoff, cutoff)\n', new='        rcutoff = cutoff\n',
  needs='adaptive construction of an array-valued function whose last column is shorter than an earlier one',
  what='construction reports success with the first column truncated',
  demo='''
import numpy as np
from funpy.cheb import chebtech
f = chebtech(op=[lambda x: np.cos(20 * x), lambda x: 1 + x])
x = np.linspace(-1, 1, 23)
assert np.max(np.abs(f.feval(x)[:, 0] - np.cos(20 * x))) < 1e-8
'''),
 dict(id='c06-dot-half-domain-check', property='C06', file='funpy/fun.py',
  old='''def dot(input1, input2):
    if not np.all(input1.domain == input2.domain):''',
  new='''def dot(input1, input2):
    if not np.any(input1.domain == input2.domain):''',
  needs='a dot product of functions whose intervals share one end point and differ in the other',
  what='functions on different intervals are combined without an error',
  demo='''
import numpy as np
from funpy import Fun
f = Fun(op=lambda x: x, domain=np.array([0., 1.]))
g = Fun(op=lambda x: x, domain=np.array([0., 2.]))
try:
    np.dot(f, g)
except ValueError:
    pass
else:
    raise SystemExit('no error')
'''),
]
