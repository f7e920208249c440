"""Edits of compressed sparse matrices in place (C14).  A sparse matrix is an object with the arrays data, indices and indptr of
the compressed format; the methods of scipy used on whole matrices (selection of rows by a mask, conversion to and from
coordinate form, removal of stored zeros) are assumed contracts."""
from .lib import *
from pyvc.interp import PyClass, Prop, Native

CSR, CSC = 'funpy.colloc.sparse.csr.', 'funpy.colloc.sparse.csc.'


def meth(name, f):
    n = Native(name, f)
    n.method = True
    return n


def getitem(o, k):
    if not isinstance(k, Arr) or k.kind != 'b' or o.spkind != 'csr':
        raise Unsupported('selection from a sparse matrix')
    o.calls.append(('getitem', k))
    return o.out


def sparse_class(V, kind):
    nnz = lambda o: o.fields['indptr'].elem(T.sub(o.fields['indptr'].shape[0], 1))
    g = lambda name, f: Prop(Native(name, f))
    return PyClass(kind + '_matrix', [], {
        'nnz': g('nnz', nnz), 'shape': g('shape', lambda o: o.fields['_shape']), 'dtype': g('dtype', lambda o: V.I.np.getattr(o.fields['data'], 'dtype')),
        '__getitem__': meth('__getitem__', getitem),
        'eliminate_zeros': meth('eliminate_zeros', lambda o: o.calls.append(('eliminate_zeros', o.fields['data'].snap()))),
        'tocoo': meth('tocoo', lambda o, *a, **k: o.coo())}, None)


class Sparse:
    """an arbitrary matrix in compressed form: indptr starts at 0, never decreases and ends at the number of stored entries; the
    minor indices are within range (major = rows for csr, columns for csc)"""

    def __init__(self, V, kind, name='M', major=None, minor=None):
        self.V, self.kind = V, kind
        ctx = V.ctx
        self.n = V.int(name + '.major', 0) if major is None else major
        self.m = V.int(name + '.minor', 0) if minor is None else minor
        self.nnz = nnz = V.int(name + '.nnz', 0)
        self.data, self.indices = V.arr(name + '.data', (nnz,), 'f'), V.arr(name + '.indices', (nnz,), 'i')
        P = ctx.func(name + '.indptr', 'i', 'i')
        n = T.to_z3(self.n)
        ctx.schema(P, lambda a: [z3.Implies(z3.And(a[0] >= 0, a[0] <= n), z3.And(P(a[0]) >= 0, P(a[0]) <= nnz)),
                                 z3.Implies(z3.And(a[0] >= 0, a[0] < n), P(a[0]) <= P(a[0] + 1)),
                                 z3.Implies(a[0] == 0, P(a[0]) == 0), z3.Implies(a[0] == n, P(a[0]) == nnz)])
        V.assume(P(z3.IntVal(0)) == 0)
        V.assume(P(n) == nnz)
        self.indptr = A.new(ctx, (T.add(self.n, 1),), lambda i: P(T.to_z3(i)), 'i')
        o = self.o = Obj(sparse_class(V, kind))
        ctx.counter += 1
        o.born = ctx.counter
        ctx.reg[o.born] = o
        o.spkind = kind
        o.calls, o.out = [], object()
        self.shape = (self.n, self.m) if kind == 'csr' else (self.m, self.n)
        o.fields.update(data=self.data, indices=self.indices, indptr=self.indptr, _shape=self.shape)
        self.d, self.i, self.p = self.data.snap(), self.indices.snap(), self.indptr.snap()

    def field(self, f):
        return self.o.fields[f]

    def ensure(self, n, m, nnz, p, d, i, what=''):
        """the matrix now has n majors, m minors, pointers p and entries d at i"""
        V = self.V
        V.ensure_array(what + 'pointers', self.field('indptr'), (T.add(n, 1),), p)
        V.ensure_array(what + 'values', self.field('data'), (nnz,), d)
        V.ensure_array(what + 'minor indices', self.field('indices'), (nnz,), i)
        s = self.field('_shape')
        ok = len(s) == 2
        want = (n, m) if self.kind == 'csr' else (m, n)
        V.ensure(what + 'shape', T.land(T.eq(s[0], want[0]), T.eq(s[1], want[1])) if ok else False)


def delete_major(V, kind, func):
    M = Sparse(V, kind, major=V.int('M.major', 1))
    i = V.int('i', 0)
    V.assume(T.lt(i, M.n))
    r = V.call(func, M.o, i)
    n, *rest = without(M.n, M.nnz, M.p, M.d, M.i, i)
    M.ensure(n, M.m, *rest)


@contract(CSR + 'delete_row_csr', 'C14')
def delete_row(V):
    """the pointers skip row i, the stored entries of the other rows keep their value, column and order, one row less"""
    delete_major(V, 'csr', CSR + 'delete_row_csr')


@contract(CSC + 'delete_col_csc', 'C14')
def delete_col(V):
    """the pointers skip column i, the stored entries of the other columns keep their value, row and order, one column less"""
    delete_major(V, 'csc', CSC + 'delete_col_csc')


@contract(CSR + 'csr_vappend', 'C14')
def vappend(V):
    """the rows of b follow those of a; b is unchanged"""
    m = V.int('m', 0)
    a, b = Sparse(V, 'csr', 'a', minor=m), Sparse(V, 'csr', 'b', minor=m)
    fz = [V.freeze(b.o.fields[f]) for f in ('data', 'indices', 'indptr')]
    r = V.call(CSR + 'csr_vappend', a.o, b.o)
    V.ensure('returns the first matrix', r is a.o)
    a.ensure(T.add(a.n, b.n), m, T.add(a.nnz, b.nnz), lambda r: T.ite(T.le(r, a.n), a.p(r), T.add(a.nnz, b.p(T.sub(r, a.n)))),
             lambda t: T.ite(T.lt(t, a.nnz), a.d(t), b.d(T.sub(t, a.nnz))), lambda t: T.ite(T.lt(t, a.nnz), a.i(t), b.i(T.sub(t, a.nnz))))
    for f in fz:
        V.ensure_frozen('second matrix', f)


@contract(CSR + 'delete_rows_csr', 'C14')
def delete_rows(V):
    """the rows kept are exactly those not listed (selection of rows by a mask: assumed contract of scipy); matrix unchanged"""
    M = Sparse(V, 'csr', major=V.int('M.major', 1))
    idx = [V.int('i%d' % q, 0) for q in range(V.choose(0, 1, 2, 3))]
    for q in idx:
        V.assume(T.lt(q, M.n))
    if V.choose('list', 'array') == 'array':
        idx = A.new(V.ctx, (len(idx),), A._pick(list(idx)), 'i') if idx else idx
    assumed(V.ctx, 'scipy: mat[mask] keeps exactly the rows where the mask is true, in order')
    fz = [V.freeze(M.o.fields[f]) for f in ('data', 'indices', 'indptr')]
    r = V.call(CSR + 'delete_rows_csr', M.o, idx)
    V.ensure('one selection', r is M.o.out and len(M.o.calls) == 1)
    mask = M.o.calls[0][1]
    V.ensure('a mask of booleans', mask.kind == 'b')
    at = [idx.elem(q) for q in range(idx.shape[0])] if isinstance(idx, Arr) else idx
    V.ensure_array('mask', mask, (M.n,), lambda r: T.land(*[T.ne(r, q) for q in at]) if at else True)
    for f in fz:
        V.ensure_frozen('matrix', f)


@contract(CSC + 'delete_cols_csc', 'C14')
def delete_cols(V):
    """exactly the listed columns (up to three, repeated or in any order, a single number or an array) are gone: the stored entries
    of the others keep value, row and order"""
    M = Sparse(V, 'csc', major=V.int('M.major', 1))
    idx = [V.int('i%d' % q, 0) for q in range(V.choose(0, 1, 2, 3))]
    for q in idx:
        V.assume(T.lt(q, M.n))
    how = V.choose('list', 'array', 'number')
    if how == 'number' and len(idx) != 1:
        return
    arg = A.new(V.ctx, (len(idx),), A._pick(list(idx)), 'i') if how == 'array' and idx else idx[0] if how == 'number' else idx
    done = []

    def delete(I, o, i):
        I.ctx.oblige(o is M.o, 'the matrix', 'call')
        done.append(i)
    V.stub(CSC + 'delete_col_csc', delete, CSC + 'delete_col_csc')
    fields = dict(M.o.fields)
    fz = [V.freeze(M.o.fields[f]) for f in ('data', 'indices', 'indptr')]
    r = V.call(CSC + 'delete_cols_csc', M.o, arg)
    if r is not M.o or any(M.o.fields[f] is not fields[f] for f in fields):
        raise Unsupported('deletion of columns by other means')
    for q in fz:
        V.ensure_frozen('nothing but deletions', q)
    # deleted one after the other: the i-th column at that time is the i-th column of the given matrix when the numbers decrease
    for a, b in zip(done, done[1:]):
        V.ensure('an earlier deletion does not move the later ones', T.lt(b, a))
    for i in done:
        V.ensure('only listed columns', T.lor(*[T.eq(i, q) for q in idx]))
    for q in idx:
        V.ensure('every listed column', T.lor(*[T.eq(i, q) for i in done]))


def without(n, nnz, p, d, e, i):
    """the compressed form without its i-th major"""
    k = T.sub(p(T.add(i, 1)), p(i))
    at = lambda t: T.ite(T.lt(t, p(i)), t, T.add(t, k))
    return (T.sub(n, 1), T.sub(nnz, k), lambda r: T.ite(T.le(r, i), p(r), T.sub(p(T.add(r, 1)), k)), lambda t: d(at(t)), lambda t: e(at(t)))


def small(V, kind, func):
    M = Sparse(V, kind)
    eps = V.choose('default', 'given')
    kw = {}
    if eps == 'given':
        kw['eps'] = V.real('eps', 0)
    r = V.call(func, M.o, **kw)
    e = kw.get('eps', Fraction(1, 2 ** 52))
    V.ensure('returns the matrix', r is M.o)
    V.ensure('stored zeros removed once, after the values', len(M.o.calls) == 1 and M.o.calls[0][0] == 'eliminate_zeros')
    last = M.o.calls[0][1]
    want = lambda t: T.ite(T.lt(T.absv(M.d(t)), e), F0, M.d(t))
    V.ensure_all('values when stored zeros are removed', (M.nnz,), lambda t: T.eq(last(t), want(t)))
    M.ensure(M.n, M.m, M.nnz, M.p, want, M.i)


@contract(CSR + 'eliminate_zeros', 'C14')
def eliminate_csr(V):
    """exactly the values below eps in modulus become zero, the rest is untouched (removing stored zeros: assumed contract of scipy)"""
    small(V, V.choose('csr', 'csc'), CSR + 'eliminate_zeros')


@contract(CSC + 'eliminate_zeros_csc', 'C14')
def eliminate_csc(V):
    small(V, 'csc', CSC + 'eliminate_zeros_csc')


@contract('funpy.colloc.sparse.#formats', 'C14')
def formats(V):
    """matrices of the other format are rejected, not mangled"""
    M = Sparse(V, 'csr', major=V.int('M.major', 1))
    N = Sparse(V, 'csc', 'N', major=V.int('N.major', 1))
    fz = [V.freeze(q.o.fields[f]) for q in (M, N) for f in ('data', 'indices', 'indptr')]
    f = V.choose(('csr.delete_row_csr', N, (0,)), ('csr.delete_rows_csr', N, ([0],)), ('csr.csr_vappend', M, (N.o,)), ('csr.csr_vappend', N, (M.o,)),
                 ('csc.delete_col_csc', M, (0,)), ('csc.delete_cols_csc', M, ([0],)), ('csc.eliminate_zeros_csc', M, ()))
    e = V.raises(lambda: V.call('funpy.colloc.sparse.' + f[0], f[1].o, *f[2]))
    V.ensure('rejected', e is not None)
    for q in fz:
        V.ensure_frozen('matrix', q)


def flip(V, kind, func):
    n, k = V.int('n', 1), V.int('k', 0)
    row, col, data = V.arr('row', (k,), 'i'), V.arr('col', (k,), 'i'), V.arr('data', (k,), 'f')
    P, Q = V.ctx.func('perm', 'i', 'i'), V.ctx.func('inv', 'i', 'i')
    rng = lambda x: z3.And(x >= 0, x < T.to_z3(n))
    V.ctx.schema(P, lambda a: [z3.Implies(rng(a[0]), z3.And(rng(P(a[0])), Q(P(a[0])) == a[0]))])
    V.ctx.schema(Q, lambda a: [z3.Implies(rng(a[0]), z3.And(rng(Q(a[0])), P(Q(a[0])) == a[0]))])
    p, q = lambda i: P(T.to_z3(i)), lambda i: Q(T.to_z3(i))
    perm = A.new(V.ctx, (n,), p, 'i')
    V.ctx.__dict__['perms'] = [(n, p, q)]
    assumed(V.ctx, 'numpy: argsort of a permutation is its inverse; scipy: conversion to and from coordinate form keeps the entries')
    M = Sparse(V, kind)
    major, minor = ('row', 'col') if kind == 'csr' else ('col', 'row')
    out = []
    conv = lambda f: meth('to' + f, lambda o: out.append(f) or o)
    coo = Obj(PyClass('coo_matrix', [], {'tocsr': conv('csr'), 'tocsc': conv('csc')}, None))
    V.ctx.counter += 1
    coo.born = V.ctx.counter
    V.ctx.reg[coo.born] = coo
    coo.fields.update(row=row, col=col, data=data)
    M.o.coo = lambda: coo
    a = coo.fields[major].snap()
    t = V.int('t', 0)
    V.assume(T.lt(t, k))
    V.assume(rng(T.to_z3(a(t))))
    keep = [coo.fields[f] for f in (minor, 'data')]
    fz = [V.freeze(x) for x in keep]
    fp, fm = V.freeze(perm), [V.freeze(M.o.fields[f]) for f in ('data', 'indices', 'indptr')]
    r = V.call(func, M.o, perm)
    V.ensure('in the format of the input', r is coo and out == [kind])
    V.ensure('entries keep their value and minor index', coo.fields[minor] is keep[0] and coo.fields['data'] is keep[1])
    for f in fz + [fp] + fm:
        V.ensure_frozen('entries, order and matrix', f)
    V.ensure_shape('entries', coo.fields[major], (k,))
    new = coo.fields[major].elem(t)
    V.ensure('row / column i of the result is the given row / column number order[i]', T.land(rng(T.to_z3(new)), T.eq(p(new), a(t))))


@contract(CSR + 'flip_rows', 'C14')
def flip_rows(V):
    """row i of the result is row order[i] of the matrix, for every permutation"""
    flip(V, 'csr', CSR + 'flip_rows')


@contract(CSC + 'flip_cols', 'C14')
def flip_cols(V):
    """column i of the result is column order[i] of the matrix, for every permutation"""
    flip(V, 'csc', CSC + 'flip_cols')
