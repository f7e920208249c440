from .lib import *
from .fun import fun, FUN, MAP
from .states import St, kinds, KINDS, par, PAR

TT = 'funpy.trig.trigtech.trigtech'


def dcopy(V, o):
    V.called = True
    return V.I.np.call('copy.deepcopy', (o,), {})


def trig(V, name, n=None, m=None, real=None, **extra):
    """an arbitrary Fourier function object: coefficients and values of n modes, m columns"""
    n = V.int(name + '.n', 1) if n is None else n
    m = V.int(name + '.m', 1) if m is None else m
    c, v = V.arr(name + '.c', (n, m), 'c'), V.arr(name + '.v', (n, m), 'c')
    r = V.arr(name + '.real', (m,), 'b') if real is None else real
    f = V.new(TT, coeffs=c, values=v, eps=V.real(name + '.eps', Fraction(1, 10 ** 17), Fraction(1, 10)), hscale=V.real(name + '.hscale', Fraction(1, 10 ** 6)),
              vscale=V.real(name + '.vscale', 0), maxLength=V.int(name + '.maxLength', 17), ishappy=V.bool(name + '.happy'), isReal=r, **extra)
    return f, c, v, n, m


class H5:
    """an HDF5 file, group or dataset: a store of named datasets and attributes, what is read is what was written"""

    def __init__(self, V, data=None):
        self.V, self.attrs, self.items, self.data = V, {}, {}, data

    def vc_getattr(self, M, name):
        if name == 'attrs':
            return self.attrs
        if name == 'create_dataset':
            return SymFun('create_dataset', lambda I, nm, data=None, **k: self.put(nm, data))
        if name == 'create_group':
            return SymFun('create_group', lambda I, nm: self.put(nm, None))
        if name == 'items':
            return SymFun('items', lambda I: [(k, v) for k, v in sorted(self.items.items())])
        raise Unsupported('HDF5 attribute ' + name)

    def put(self, nm, data):
        if nm in self.items:
            raise PyRaise('ValueError', 'name exists')
        if isinstance(data, Arr):
            data = A.copy(data)
        elif isinstance(data, list):
            data = list(data)
        self.items[nm] = H5(self.V, data)
        return self.items[nm]

    def vc_getitem(self, M, k):
        if isinstance(k, str):
            if k not in self.items:
                raise PyRaise('KeyError', k)
            return self.items[k]
        if isinstance(k, slice) and k == slice(None) and isinstance(self.data, Arr):
            return A.copy(self.data)
        raise Unsupported('HDF5 access')


ATTRS = ('eps', 'hscale', 'maxLength', 'ishappy')


def same_tech(V, r, f, names, what):
    for k in names:
        x, y = r.fields.get(k), f.fields[k]
        V.ensure('%s: .%s' % (what, k), T.is_scalar(x) and T.eq(x, y))


@contract(CT + '.__deepcopy__', 'C18', uses=(CT + '.happy',))
def deep_cheb(V):
    """a deep copy has the coefficients and every attribute of the original (an unhappy function stays unhappy), own storage"""
    f, c, n, m = tech(V, 'f')
    fz, s = freeze_obj(V, f), c.snap()
    r = dcopy(V, f)
    V.ensure('kind', isinstance(r, Obj) and r.cls is f.cls and r is not f)
    V.ensure_array('coefficients', r.fields['coeffs'], (n, m), lambda i, j: s(i, j))
    fresh_buf(V, 'own storage', r.fields['coeffs'], c)
    same_tech(V, r, f, ATTRS, 'copy')
    ensure_obj_frozen(V, 'original', fz)


@contract('funpy.cheb.chebtech.hdf5', 'C18', uses=(CT + '.happy',))
def h5_cheb(V):
    """writing and reading back gives the same coefficients and the attributes that were written; writing changes nothing"""
    f, c, n, m = tech(V, 'f', happy=True)
    fz, s = freeze_obj(V, f), c.snap()
    h = H5(V)
    V.method(f, 'writeHDF5', h)
    ensure_obj_frozen(V, 'original', fz)
    r = V.call(CT + '.from_hdf5', h.items['poly'])
    V.ensure_array('coefficients', r.fields['coeffs'], (n, m), lambda i, j: s(i, j))
    same_tech(V, r, f, ATTRS, 'read back')


def val_stub(V, name):
    """coeffs2vals: values of the coefficients, as an uninterpreted function of the coefficient matrix"""
    def coeffs2vals(I, c, *a, **k):
        sh = c.shape
        I.ctx.counter += 1
        r = A.symbolic(I.ctx, 'vals!%d' % I.ctx.counter, sh, 'c')
        r.buf.of = c
        return r
    V.stub('funpy.trig.transform.coeffs2vals', coeffs2vals)


@contract(TT + '.__deepcopy__', 'C18', budget=200)
def deep_trig(V):
    """a deep copy has the coefficients, values and every attribute of the original, own storage"""
    f, c, v, n, m = trig(V, 'f')
    val_stub(V, 'vals')
    fz = freeze_obj(V, f)
    cs, vs, rs = c.snap(), v.snap(), f.fields['isReal'].snap()
    r = dcopy(V, f)
    V.ensure('kind', isinstance(r, Obj) and r.cls is f.cls and r is not f)
    V.ensure_array('coefficients', r.fields['coeffs'], (n, m), lambda i, j: cs(i, j))
    V.ensure_array('values', r.fields['values'], (n, m), lambda i, j: vs(i, j))
    V.ensure_array('realness', r.fields['isReal'], (m,), lambda j: rs(j))
    fresh_buf(V, 'own coefficients', r.fields['coeffs'], c, v)
    fresh_buf(V, 'own values', r.fields['values'], c, v)
    V.ensure('own flags', r.fields['isReal'].buf is not f.fields['isReal'].buf, 'ownership')
    same_tech(V, r, f, ATTRS + ('vscale',), 'copy')
    ensure_obj_frozen(V, 'original', fz)


@contract('funpy.trig.trigtech.hdf5', 'C18', budget=200)
def h5_trig(V):
    """writing and reading back gives the same coefficients and attributes; writing changes nothing"""
    f, c, v, n, m = trig(V, 'f')
    val_stub(V, 'vals')
    fz, cs = freeze_obj(V, f), c.snap()
    h = H5(V)
    V.method(f, 'writeHDF5', h)
    ensure_obj_frozen(V, 'original', fz)
    r = V.call(TT + '.from_hdf5', h.items['poly'])
    V.ensure_array('coefficients', r.fields['coeffs'], (n, m), lambda i, j: cs(i, j))
    same_tech(V, r, f, ATTRS + ('vscale',), 'read back')


def same_fun(V, r, f, t, c, dom, what, own=True):
    a, b = dom
    n, m = c.shape
    s = c.snap()
    V.ensure('%s: kind' % what, isinstance(r, Obj) and r.cls is f.cls and r is not f)
    V.ensure_array('%s: domain' % what, r.fields['domain'], (2,), lambda i: T.ite(T.eq(i, 0), a, b))
    g = r.fields['onefun']
    V.ensure('%s: kind of representation' % what, isinstance(g, Obj) and g.cls is t.cls and g is not t)
    V.ensure_array('%s: coefficients' % what, g.fields['coeffs'], (n, m), lambda i, j: s(i, j))
    same_tech(V, g, t, ATTRS, what)
    if own:
        V.ensure('%s: own domain' % what, r.fields['domain'].buf is not f.fields['domain'].buf, 'ownership')
        fresh_buf(V, '%s: own storage' % what, g.fields['coeffs'], c)
        V.ensure('%s: own map' % what, r.fields['mapping'] is not f.fields['mapping'], 'ownership')
    y = V.real('y')
    v = V.call(V.attr(r.fields['mapping'], 'fwd'), y)
    v = v.elem(*[0] * v.ndim) if isinstance(v, Arr) else v
    V.ensure('%s: map of the interval' % what, T.eq(v, T.add(a, T.mul(T.div(T.sub(b, a), 2), T.add(y, 1)))))


@contract(FUN + '.__deepcopy__', 'C18', uses=(CT + '.happy',))
def deep_fun(V):
    """a deep copy of a function on [a, b] has its domain, map, coefficients and attributes, nothing shared; its map keeps
    working when the domain of the original is overwritten"""
    f, t, c, n, m, dom = fun(V, 'f')
    ft, ff = freeze_obj(V, t), freeze_obj(V, f)
    r = dcopy(V, f)
    ensure_obj_frozen(V, 'original', ft)
    ensure_obj_frozen(V, 'original', ff)
    same_fun(V, r, f, t, c, dom, 'copy')
    # later changes of the original do not show in the copy
    A.setitem(V.ctx, f.fields['domain'], 0, T.sub(dom[0], 1))
    A.setitem(V.ctx, c, (0, 0), V.real('other'))
    c2 = ft[1]['coeffs'][1][1]
    V.ensure_array('copy after a change of the original: domain', r.fields['domain'], (2,), lambda i: T.ite(T.eq(i, 0), dom[0], dom[1]))
    V.ensure_array('copy after a change of the original: coefficients', r.fields['onefun'].fields['coeffs'], (n, m), lambda i, j: c2(i, j))
    y = V.real('y2')
    v = V.call(V.attr(r.fields['mapping'], 'fwd'), y)
    v = v.elem(*[0] * v.ndim) if isinstance(v, Arr) else v
    V.ensure('copy after a change of the original: map', T.eq(v, T.add(dom[0], T.mul(T.div(T.sub(dom[1], dom[0]), 2), T.add(y, 1)))))


@contract(FUN + '.copies', 'C18', uses=(CT + '.happy',))
def np_copy_fun(V):
    """np.copy(f): same domain and coefficients, coefficient storage of its own"""
    f, t, c, n, m, dom = fun(V, 'f')
    ft = freeze_obj(V, t)
    r = V.numpy('copy', f)
    ensure_obj_frozen(V, 'original', ft)
    V.ensure('function', isinstance(r, Obj) and r.cls is f.cls)
    V.ensure_array('domain', r.fields['domain'], (2,), lambda i: T.ite(T.eq(i, 0), dom[0], dom[1]))
    s = ft[1]['coeffs'][1][1]
    V.ensure_array('coefficients', r.fields['onefun'].fields['coeffs'], (n, m), lambda i, j: s(i, j))
    fresh_buf(V, 'own storage', r.fields['onefun'].fields['coeffs'], c)


@contract('funpy.fun.hdf5', 'C18', uses=(CT + '.happy',))
def h5_fun(V):
    """a function written to a file and read back has the same domain, kind, coefficients and attributes"""
    f, t, c, n, m, dom = fun(V, 'f', happy=True)
    ft, ff = freeze_obj(V, t), freeze_obj(V, f)
    h = H5(V)
    V.method(f, 'writeHDF5', h)
    ensure_obj_frozen(V, 'original', ft)
    ensure_obj_frozen(V, 'original', ff)
    r = V.call(FUN + '.from_hdf5', h)
    same_fun(V, r, f, t, c, dom, 'read back', own=False)


@contract('funpy.vectorspaces.parameter.hdf5', 'C18')
def h5_par(V):
    """a parameter written and read back has its name and value"""
    a = V.real('a')
    p = par(V, 'lam', a)
    h = H5(V)
    V.method(p, 'writeHDF5', h)
    r = V.call(PAR + '.from_hdf5', h)
    V.ensure('name and kind', r.cls is p.cls and r.fields['name'] == 'lam')
    V.ensure('value', T.eq(r.fields['value'], a))


@contract('funpy.vectorspaces.cont_state.hdf5', 'C18', uses=(CT + '.happy',))
def h5_state(V):
    """a continuation state written and read back has the same weights, parameter, function and namespace"""
    f, t, c, n, m, dom = fun(V, 'f', happy=True)
    a, mu = V.real('a'), V.real('mu')
    p = par(V, 'lam', a)
    w = V.arr('w', (2,), 'f')
    ws = w.snap()
    from .states import ovec, KINDS
    nsd = V.call('funpy.vectorspaces.namespace.Namespace', mu=mu)
    s = V.new(KINDS['cont'][0], weights=w, funcs=ovec(V, [f]), reals=ovec(V, [p]), ns=nsd, signature=[1, 2])
    h = H5(V)
    V.method(s, 'writeHDF5', h)
    r = V.call(KINDS['cont'][0] + '.from_hdf5', h)
    V.ensure('kind', r.cls is s.cls)
    V.ensure_array('weights', r.fields['weights'], (2,), lambda i: ws(i))
    q = r.fields['reals'].elem(0)
    V.ensure('parameter', q.fields['name'] == 'lam' and T.eq(q.fields['value'], a) is True)
    V.ensure('namespace', list(r.fields['ns']) == ['mu'] and r.fields['ns']['mu'] is mu)
    same_fun(V, r.fields['funcs'].elem(0), f, t, c, dom, 'function', own=False)
