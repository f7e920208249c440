S = 'funpy/vectorspaces/base_state.py'; Q = 'funpy/colloc/quasiOpBlock.py'; P = 'funpy/cheb/pts.py'
STATE = '''
import numpy as np
from funpy.fun import Fun
from funpy.vectorspaces.parameter import Parameter
from funpy.vectorspaces.cont_state import ContinuationState
from funpy.vectorspaces.tp_cont_state import TwoParContState
def fun(cols):
    return Fun(coeffs=np.asfortranarray(np.array(cols, dtype=float).T), domain=np.array([-1., 1.]), simplify=False)
def state(cols, a):
    return ContinuationState(a=Parameter(a=a), u=fun(cols))
def two(cols, a, b):
    return TwoParContState(p1=Parameter(a=a), p2=Parameter(b=b), u=fun(cols))
'''
SYS = '''
import numpy as np, warnings
warnings.simplefilter('ignore')
class System:
    """ component-wise equation F(x) = 0 """
    def __init__(self, x, *args, **kwargs):
        self.x = np.array(x); self.size = self.x.size
        System.count += 1
    def rhs(self, x):
        return F(np.asarray(x))
    def solve(self, b):
        return b / dF(self.x), True
System.count = 0
'''
BUGS = [
 dict(id='c11-cross-terms', property='C11', file=S,
  old='inner += np.sum(ip.diagonal()) if ip.ndim == 2 else np.sum(ip)',
  new='inner += np.sum(ip)',
  needs='states whose function part has at least two columns that are not orthogonal',
  what='the inner product adds the products of different columns, it is no longer the weighted sum of squares',
  demo=STATE + '''
s = state([[1., 2.], [3., -1.]], 2.0)
xs, ws = np.polynomial.legendre.leggauss(20)
v = s.funcs[0](xs)
w = np.asarray(s.weights)
want = sum(np.sum(ws * v[:, i]**2) for i in range(2)) * w[0] + w[1] * 4
assert np.allclose(np.inner(s, s), want, rtol=1e-10), (np.inner(s, s), want)
'''),
 dict(id='c11-scalar-minus-state', property='C11', file=S,
  old='''                for i in range(nr):
                    tlist = [x.reals[i] if isinstance(x, type(self)) else x for x in inputs]
                    nreals[i] = numpy_ufunc(*tlist)
''',
  new='''                for i in range(nr):
                    tlist = [x.reals[i] if isinstance(x, type(self)) else x for x in inputs]
                    if isinstance(tlist[0], Number): tlist = tlist[::-1]
                    nreals[i] = numpy_ufunc(*tlist)
''',
  needs='an operation that does not commute with the scalar on the left',
  what='the parameters are computed with swapped operands, the functions are not',
  demo=STATE + '''
s = state([[1., 2.]], 3.0)
d = 10.0 - s
assert abs(float(d.reals[0]) - 7.0) < 1e-14, float(d.reals[0])
'''),
 dict(id='c16-one-more-iteration', property='C16', file='funpy/newton/nleq_err.py',
  old='        if k >= miter:', new='        if k > miter:',
  needs='a problem that does not converge within the allowed number of iterations',
  what='one iteration more than the maximum is performed',
  demo=SYS + '''
F = lambda x: np.exp(x); dF = lambda x: np.exp(x)
from funpy.newton.nleq_err import nleq_err
x, ok, k, *_ = nleq_err(System, np.array([0.0]), miter=4, tol=1e-12, use_qnerr=False)
assert not ok and k <= 4, (ok, k)
'''),
 dict(id='c16-stale-iterate', property='C16', file='funpy/newton/qnerr.py',
  old='''        if not skipstep:
            x += dx[k]

            if sigma[k] <= tol * tol:
                k += 1
                newton_success = True
                break
''',
  new='''        if not skipstep:
            if sigma[k] <= tol * tol:
                k += 1
                newton_success = True
                break

            x = x + dx[k]
''',
  needs='the quasi-Newton phase converges',
  what='the last correction, the one that is reported as converged, is never added to the returned iterate',
  demo=SYS + '''
F = lambda x: x**2 - 2; dF = lambda x: 2 * x
from funpy.newton.qnerr import qnerr
s = System(np.array([1.5]))
it = []
def cb(n, k, v, nd, th): it.append(k); return True
dx0 = -F(np.array([1.5])) / 3.0
tol = 1e-3
x, ok, k, nd, *_ = qnerr(s, np.array([1.5]) + dx0, dx0=np.array(dx0), nleqcalled=True, tol=tol, miter=10)
assert ok and abs(float(x[0]) - 2**.5) < 1e-6, (ok, x)
'''),
 dict(id='c18-trig-copy-happiness', property='C18', file='funpy/trig/trigtech.py',
  old='''                coeffs=deepcopy(self.coeffs),
                values=deepcopy(self.values),''',
  new='''                coeffs=deepcopy(self.coeffs),
                values=self.values,''',
  needs='a copied Fourier function whose values are changed in place', what='see below',
  demo='''raise SystemExit(1)
'''),
 dict(id='c18-cheb-copy-tolerance', property='C18', file='funpy/cheb/chebtech.py',
  old='''                eps=self.eps, hscale=self.hscale,
                maxLength=self.maxLength,''',
  new='''                hscale=self.hscale,
                maxLength=self.maxLength,''',
  needs='a function built with its own tolerance is copied',
  what='the copy falls back to the default tolerance',
  demo='''
import numpy as np
from copy import deepcopy
from funpy.cheb import chebtech
f = chebtech(coeffs=np.array([[1.], [2.]], order='F'), eps=1e-6, simplify=False)
assert deepcopy(f).eps == f.eps, (deepcopy(f).eps, f.eps)
'''),
 dict(id='c19-single-weight', property='C19', file=P,
  old='''    elif N == 1:
        x = np.array([0.])
        w = np.array([2.])
        v = [1]
        t = [0.5 * np.pi]

        if interval is not None:
            x = scaleNodes(x, interval)
            w = scaleWeights(w, interval)
    else: # general case
        x = chebpts_type2_compute(N)
''',
  new='''    elif N == 1:
        x = np.array([0.])
        w = np.array([2.])
        v = [1]
        t = [0.5 * np.pi]

        if interval is not None:
            x = scaleNodes(x, interval)
            w = scaleWeights(w, [0., interval[-1] - interval[0] if interval[0] >= 0 else 2.])
    else: # general case
        x = chebpts_type2_compute(N)
''',
  needs='a one point grid on an interval whose left end is negative',
  what='the only weight is not the length of the interval',
  demo='''
import numpy as np
from funpy.cheb.pts import chebpts_type2
x, w, v, t = chebpts_type2(1, interval=[-3., 5.])
assert abs(w.item() - 8.0) < 1e-13, w
'''),
 dict(id='c20-nonlocal-scale', property='C20', file=Q,
  old='''            new_icoeffs = np.empty_like(self.icoeffs, dtype=object)
            for i in range(self.icoeffs.size):
                new_icoeffs[i] = other * self.icoeffs[i]
''',
  new='''            new_icoeffs = np.copy(self.icoeffs)
            new_icoeffs[0] = other * self.icoeffs[0]
''',
  needs='scaling an operator that carries two or more integral terms',
  what='only the first integral term is scaled',
  demo='''
import numpy as np
from funpy.colloc.quasiOpBlock import QuasiOpBlock
def ov(*a):
    r = np.empty(len(a), dtype=object)
    r[:] = a
    return r
b = QuasiOpBlock(None, coeffs=ov(1.), icoeffs=ov(2., 3.), integrand=ov(4., 5.), info=np.array([True]), nl_info=np.array([False]))
assert list((2. * b).icoeffs) == [4., 6.], (2. * b).icoeffs
'''),
 dict(id='c20-negated-nonlocal', property='C20', file=Q,
  old='''            for i in range(nl_new_coeffs.shape[0]):
                nl_new_coeffs[i] = -self.nl_coeffs[i]
''',
  new='''            for i in np.nonzero(self._nl_info)[0]:
                nl_new_coeffs[i] = -self.nl_coeffs[0]
''',
  needs='negating an operator whose nonlocal part has more than one coefficient',
  what='every nonlocal coefficient becomes the negative of the first',
  demo='''
import numpy as np
from funpy.colloc.quasiOpBlock import QuasiOpBlock
def ov(*a):
    r = np.empty(len(a), dtype=object)
    r[:] = a
    return r
b = QuasiOpBlock(None, coeffs=ov(1.), nl_coeffs=ov(2., 3.), info=np.array([True]), nl_info=np.array([True, True]))
assert list((-b).nl_coeffs) == [-2., -3.], (-b).nl_coeffs
'''),
]
BUGS = [b for b in BUGS if b['id'] != 'c18-trig-copy-happiness']
