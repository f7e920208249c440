E = 'funpy/trig/eval.py'; T = 'funpy/trig/trigtech.py'; U = 'funpy/trig/ufuncs.py'; S = 'funpy/trig/trig_simplify.py'
BUGS = [
 dict(id='c07-one-point-even', property='C07', file=E,
  old='''            q = z * q + c[j, :]

        if n & 1:
            q = np.exp(-1j*np.pi*((n-1)//2)*x) * (z * q + c[0, :])
        else:
            q = np.exp(-1j*np.pi*(n//2-1)*x) * q + np.cos(n//2 * np.pi * x) * c[0, :]
''',
  new='''            q = z * q + c[j, :]

        q = z * q + c[0, :]
        q = np.exp(-1j*np.pi*(n//2)*x) * q
''',
  needs='one point, several complex columns, an even number of coefficients with a highest mode',
  what='the highest mode enters as an exponential instead of a cosine',
  demo='''
import numpy as np
from funpy.trig.trigtech import trigtech
rng = np.random.default_rng(1)
for n in (2, 3, 4, 5, 8):
    c = rng.standard_normal((n, 2)) + 1j * rng.standard_normal((n, 2))
    f = trigtech(coeffs=c)
    x = np.array([0.1, 0.3, -0.7])
    many = f(x)
    for i in range(3):
        one = f(x[i])
        assert np.allclose(one, many[i], atol=1e-12), (n, one, many[i])
'''),
 dict(id='c07-resize-to-even', property='C07', file=T,
  old='''            kup = np.ceil((Nout-Nin)/2).astype(int)
            kdown = np.floor((Nout-Nin)/2).astype(int)
            coeffs = np.vstack((np.zeros((kup, coeffs.shape[1])),
''',
  new='''            kdown = np.ceil((Nout-Nin)/2).astype(int)
            kup = np.floor((Nout-Nin)/2).astype(int)
            coeffs = np.vstack((np.zeros((kup, coeffs.shape[1])),
''',
  needs='lengthening to an even number of coefficients',
  what='the modes are shifted by one',
  demo='''
import numpy as np
from funpy.trig.trigtech import trigtech
rng = np.random.default_rng(1)
x = np.linspace(-1, 1, 9)
for n in (1, 2, 3, 4, 5):
    c = rng.standard_normal((n, 1)) + 1j * rng.standard_normal((n, 1))
    for k in (n + 1, n + 2, n + 3, n + 7):
        f = trigtech(coeffs=c)
        before = f(x)
        f.prolong(k)
        assert np.allclose(f(x), before, atol=1e-12), (n, k)
'''),
 dict(id='c08-imag-mixed-columns', property='C08', file=T,
  old='''    """ Returns real part of a trigtech """
    if trig.isreal:
        return trigtech(values=np.zeros_like''', new='''    """ Returns real part of a trigtech """
    if np.any(trig.isReal):
        return trigtech(values=np.zeros_like''',
  needs='one real and one complex column',
  what='the imaginary part of the complex column is lost',
  demo='''
import numpy as np
from funpy.trig.trigtech import trigtech
x = np.linspace(-1, 0.9, 7)
f = trigtech(op=[lambda x: np.cos(np.pi * x), lambda x: np.exp(1j * np.pi * x)])
g = np.imag(f)
assert np.allclose(g(x), np.imag(f(x)), atol=1e-10)
'''),
 dict(id='c08-second-antiderivative', property='C08', file=T,
  old='''    if m & 1 and isEven:
''', new='''    if m > 0 and isEven:
''',
  needs='an antiderivative of order two of a function of even length with a highest mode',
  what='the highest mode is dropped',
  demo='''
import numpy as np
from funpy.trig.trigtech import trigtech
x = np.linspace(-1, 0.9, 7)
f = trigtech(coeffs=np.array([[1.], [.5j], [0.], [-.5j]]))
F = np.cumsum(f, 2)
assert np.allclose(np.diff(F, 2)(x), f(x), atol=1e-10)
'''),
 dict(id='c09-shorter-complex', property='C09', file=U,
  old='c, v = prolong(c, no, x1.isReal)', new='c, v = prolong(c, no, x2.isReal)',
  needs='a shorter complex function plus a longer real one',
  what='the imaginary part of the shorter function is lost',
  demo='''
import numpy as np
from funpy.trig.trigtech import trigtech
x = np.linspace(-1, 0.9, 7)
f = trigtech(op=lambda x: np.exp(1j * np.pi * x))
g = trigtech(op=lambda x: np.cos(5 * np.pi * x))
for h in (f + g, g + f, f - g, g - f):
    pass
assert np.allclose((f + g)(x), f(x) + g(x), atol=1e-9)
assert np.allclose((g + f)(x), f(x) + g(x), atol=1e-9)
v = trigtech(values=(f + g).values)
assert np.allclose(v(x), f(x) + g(x), atol=1e-9)
'''),
 dict(id='c09-last-column-length', property='C09', file=S,
  old='cutoff = max(cutoff, standardChopCmplx(abs_coeffs[:, k], tol[k]))', new='cutoff = max(1, standardChopCmplx(abs_coeffs[:, k], tol[k]))',
  needs='a product of functions with several columns whose last one has the smallest degree',
  what='the other columns are cut to the length of the last one',
  demo='''
import numpy as np
from funpy.trig.trigtech import trigtech
x = np.linspace(-1, 0.9, 7)
f = trigtech(op=[lambda x: np.cos(4 * np.pi * x), lambda x: np.cos(np.pi * x)])
g = trigtech(op=[lambda x: np.sin(3 * np.pi * x), lambda x: np.sin(np.pi * x)])
w = np.stack((np.cos(4 * np.pi * x) * np.sin(3 * np.pi * x), np.cos(np.pi * x) * np.sin(np.pi * x)), axis=1)
assert np.allclose((f * g)(x), w, atol=1e-8)
'''),
]
