"""Bordered systems with any number of borders (C12): row q of the border has n + q entries, column q has n + q entries, entry (q, q)
of the corner is d_q."""
from .linalg import *
from pyvc.loops import Case

BW = 'funpy.linalg.bemw_solve.BEMW'


class SymList:
    """a list of symbolic length"""

    def __init__(self, ctx, n, at):
        self.ctx, self.n, self.at, self.changed = ctx, n, at, []

    def vc_len(self, M):
        return self.n

    def vc_list(self, M):
        r = SymList(self.ctx, self.n, self.at)
        r.changed = list(self.changed)
        return r

    def index(self, k):
        ok = T.is_scalar(k) and T.is_int(k) and self.ctx.prove(T.land(T.ge(k, 0), T.lt(k, self.n)))
        if not ok:
            raise Unsupported('list index')

    def vc_getitem(self, M, k):
        if isinstance(k, slice):
            raise Unsupported('slice of a symbolic list')
        self.index(k)
        for j, v in reversed(self.changed):
            if self.ctx.prove(T.eq(j, k)):
                return v
            if not self.ctx.prove(T.ne(j, k)):
                raise Unsupported('list index')
        return self.at(k)

    def vc_setitem(self, M, k, v):
        self.index(k)
        self.changed.append((k, v))
        self.ctx.log(('list', id(self)), lambda: self.changed.pop())


class Wide:
    """an arbitrary system with m borders"""

    def __init__(self, V, name=''):
        ctx = self.ctx = V.ctx
        self.V = V
        n, m = self.n, self.m = V.int('n', 1), V.int('m', 1)
        self.inner = Inner(V, n)
        B, C, D = ctx.func('B', 'ii', 'f'), ctx.func('C', 'ii', 'f'), ctx.func('D', 'i', 'f')
        z = T.to_z3
        self.B, self.C, self.D = lambda q, l: B(z(q), z(l)), lambda q, l: C(z(q), z(l)), lambda q: D(z(q))
        border = lambda F: (lambda k: A.new(ctx, (T.add(n, k),), lambda l: F(k, l), 'f'))
        self.bs, self.cs, self.ds = SymList(ctx, m, border(self.B)), SymList(ctx, m, border(self.C)), SymList(ctx, m, self.D)
        self.cols = T.add(m, T.add(T.mul(2, n), 1))

    def storage(self):
        V = self.V
        return V.arr('storage', (self.m, self.cols), 'f')

    def new(self, **kw):
        return self.V.new(BW, n=self.n, m=self.m, solver=self.inner.obj, bs=self.bs, cs=self.cs, ds=self.ds, **kw)

    # the system with k borders
    def row(self, i, k, x, adj=False, border=None):
        """row i of the system with k borders applied to x: of A and the columns, or (row n+q) of border q, corner and later columns"""
        n, S = self.n, self.ctx.Sum
        B, C = (self.C, self.B) if adj else (self.B, self.C)
        if border is None:
            return T.add(self.inner.times(i, x, adj), S(0, T.sub(k, 1), lambda p: T.mul(C(p, i), x(T.add(n, p)))))
        q = border
        return T.add(T.add(S(0, T.sub(T.add(n, q), 1), lambda l: T.mul(B(q, l), x(l))), T.mul(self.D(q), x(T.add(n, q)))),
                     S(T.add(q, 1), T.sub(k, 1), lambda p: T.mul(C(p, i), x(T.add(n, p)))))

    def v(self, s, k):
        return lambda l: s(T.sub(T.sub(self.m, k), 1), T.add(T.add(T.sub(T.add(self.m, 1), k), self.n), l))

    def w(self, s, k):
        return lambda l: s(k, T.add(2, l))

    def known(self, s, i, k, border, adj):
        """what the storage holds of level k: the solutions of the systems with k borders for column and row k, and the two Schur
        complements, not zero"""
        n, S = self.n, self.ctx.Sum
        v, w = self.v(s, k), self.w(s, k)
        x, F = (w, self.B) if adj else (v, self.C)
        here = T.lt(i, T.add(n, k))
        top = T.add(T.add(n, k), -1)
        return T.land(T.implies(here, T.eq(self.row(i, k, x, adj, border), F(k, i))),
                      T.eq(s(k, 0), T.sub(self.D(k), S(0, top, lambda l: T.mul(self.B(k, l), v(l))))),
                      T.eq(s(k, 1), T.sub(self.D(k), S(0, top, lambda l: T.mul(self.C(k, l), w(l))))),
                      T.ne(s(k, 0), 0), T.ne(s(k, 1), 0))


def inv_detail(I, fr, st, o, loops):
    """down: entry i of the right-hand side less the columns taken off so far; up: row i of the system with as many borders as
    levels done holds for what is left of the right-hand side"""
    ctx = I.ctx
    G = ctx.ghost_wide
    Wd, i, q, j, x0, adj = G['W'], G['i'], G['q'], G['j'], G['x0'], G['adj']
    n, S = Wd.n, ctx.Sum
    B, C = (Wd.C, Wd.B) if adj else (Wd.B, Wd.C)

    def two(env):
        x = y = None
        for nm, a in env.fr.vars.items():
            if isinstance(a, Arr) and a.ndim == 1 and a.kind == 'f':
                if ctx.prove(T.eq(a.shape[0], T.add(n, j))):
                    x = a
                elif ctx.prove(T.lor(T.eq(a.shape[0], j), T.eq(a.shape[0], T.add(j, 1)))):
                    y = a
        if x is None or y is None:
            raise Unsupported('the two local vectors')
        return x.snap(), y.snap()

    def rest(y, k):
        """entry i of the right-hand side with the columns k.. taken off; None: those above its own border and the corner"""
        off = lambda lo: T.sub(x0(i), S(lo, T.sub(j, 1), lambda p: T.mul(C(p, i), y(p))))
        return off(k) if k is not None else T.sub(off(T.add(q, 1)), T.mul(Wd.D(q), y(q)))

    def prov(env):
        x, y = two(env)
        s = G['s']
        entry, off = lambda: T.eq(x(i), rest(y, None)), lambda lo: (lambda: T.eq(x(i), rest(y, lo)))
        if o == 0:
            k = T.sub(j, env.k)
            if q is None:
                return [('entry of the right-hand side', off(k)())]
            return [('entry of the right-hand side above the level', Case(T.gt(k, q), off(k))),
                    ('entry of the right-hand side', Case(T.le(k, q), entry))]
        k = env.k
        if env.step:
            ctx.assume(T.to_z3(Wd.known(s, i, k, q, adj)))
        row = lambda: T.eq(Wd.row(i, k, x, adj, q), rest(y, k))
        if q is None:
            ctx.assume(T.to_z3(Wd.inner.row(i)))
            return [('row of the system with the borders so far', row())]
        return [('row of a border still to come', Case(T.le(k, q), entry)),
                ('row of the last border', Case(T.eq(k, T.add(q, 1)), row)),
                ('row of an earlier border', Case(T.gt(k, T.add(q, 1)), row))]
    return prov


def detail_spec(name, adj):
    def spec(V):
        ctx = V.ctx
        Wd = Wide(V)
        n, m = Wd.n, Wd.m
        j = V.int('j', 0)
        V.assume(T.le(j, m))
        st = Wd.storage()
        x = V.arr('x', (T.add(n, j),), V.choose('f', 'i'))
        x0, fz, fs = x.snap(), V.freeze(x), V.freeze(st)
        i = V.int('i', 0)
        if V.choose('row of A', 'row of a border') == 'row of A':
            q = None
            V.assume(T.lt(i, n))
        else:
            q = V.int('q', 0)
            V.assume(T.lt(q, j))
            V.assume(T.eq(i, T.add(n, q)))
        ctx.ghost_wide = {'W': Wd, 'i': i, 'q': q, 'j': j, 'x0': lambda l: T.to_real(x0(l)), 'adj': adj, 's': st.snap()}
        r = V.method(Wd.new(storage=st), name, j, x)
        V.ensure_shape('shape', r, (T.add(n, j),))
        if q is None:
            V.assume(Wd.inner.row(i))
        V.ensure('row %s' % ('of A' if q is None else 'of a border'), T.eq(Wd.row(i, j, r.snap(), adj, q), T.to_real(x0(i))))
        V.ensure_frozen('right-hand side', fz)
        V.ensure_frozen('storage', fs)
    spec.__doc__ = """the %ssystem with the first j borders is solved, row by row, for every j, given the storage of the levels below; the
    right-hand side is not changed""" % ('transposed ' if adj else '')
    return spec


contract(BW + '.solve_detail', 'C12', inv={BW + '.solve_detail': inv_detail})(detail_spec('solve_detail', False))
contract(BW + '.solve_adj_detail', 'C12', inv={BW + '.solve_adj_detail': inv_detail})(detail_spec('solve_adj_detail', True))


def inv_prepare(I, fr, st, o, loops):
    """the levels done are stored: solutions and Schur complements, for an arbitrary level"""
    ctx = I.ctx
    G = ctx.ghost_wide
    Wd, q, VV, WW, o_ = G['W'], G['q'], G['V'], G['Wf'], G['obj']
    n, S = Wd.n, ctx.Sum

    def prov(env):
        s = o_.fields['storage'].snap()
        if env.step:
            G['k'] = env.k
        done = T.lt(q, env.k)
        top = T.sub(T.add(n, q), 1)
        at = lambda f: (lambda l: T.implies(done, f(l)))
        return [('solutions for the column', at(lambda l: T.eq(Wd.v(s, q)(l), VV(q, l))), T.add(n, q)),
                ('solutions for the row', at(lambda l: T.eq(Wd.w(s, q)(l), WW(q, l))), T.add(n, q)),
                ('Schur complement', T.implies(done, T.eq(s(q, 0), T.sub(Wd.D(q), S(0, top, lambda l: T.mul(Wd.B(q, l), VV(q, l))))))),
                ('Schur complement of the transposed system', T.implies(done, T.eq(s(q, 1), T.sub(Wd.D(q), S(0, top, lambda l: T.mul(Wd.C(q, l), WW(q, l)))))))]
    return prov


@contract(BW + '.prepare', 'C12', uses=(BW + '.solve_detail', BW + '.solve_adj_detail'), inv={BW + '.prepare': inv_prepare})
def wide_prepare(V):
    """afterwards the storage holds for every level k the solutions of the systems with k borders for column and row k and both Schur
    complements; each is computed from levels already stored"""
    ctx = V.ctx
    Wd = Wide(V)
    n, m = Wd.n, Wd.m
    q = V.int('q', 0)
    V.assume(T.lt(q, m))
    fv, fw = ctx.func('V', 'ii', 'f'), ctx.func('W', 'ii', 'f')
    VV, WW = lambda k, l: fv(T.to_z3(k), T.to_z3(l)), lambda k, l: fw(T.to_z3(k), T.to_z3(l))
    o = Wd.new(storage=None)
    G = ctx.ghost_wide = {'W': Wd, 'q': q, 'V': VV, 'Wf': WW, 'obj': o}

    def solver(F, X, what):
        def f(I, s, j, x):
            ctx.oblige(T.land(T.ge(j, 0), T.lt(j, m)), 'a level', 'call')
            ctx.oblige(s is o and isinstance(x, Arr) and x.ndim == 1, 'a vector', 'call')
            ctx.oblige(T.eq(x.shape[0], T.add(n, j)), 'as many entries as the level has rows', 'call')
            xs = x.snap()
            V.ensure_all(what + ' of the level', (T.add(n, j),), lambda l: T.eq(xs(l), F(j, l)))
            sn = s.fields['storage'].snap()
            # levels below are stored
            below = T.lt(q, j)
            top = T.sub(T.add(n, q), 1)
            V.ensure_all('solutions stored for the levels below', (T.add(n, q),), lambda l: T.implies(below, T.land(
                T.eq(Wd.v(sn, q)(l), VV(q, l)), T.eq(Wd.w(sn, q)(l), WW(q, l)))))
            V.ensure('Schur complements stored for the levels below', T.implies(below, T.land(
                T.eq(sn(q, 0), T.sub(Wd.D(q), ctx.Sum(0, top, lambda l: T.mul(Wd.B(q, l), VV(q, l))))),
                T.eq(sn(q, 1), T.sub(Wd.D(q), ctx.Sum(0, top, lambda l: T.mul(Wd.C(q, l), WW(q, l))))))))
            return A.new(ctx, (T.add(n, j),), lambda l: X(j, l), 'f')
        return f
    V.stub(BW + '.solve_detail', solver(Wd.C, VV, 'column'), BW + '.solve_detail')
    V.stub(BW + '.solve_adj_detail', solver(Wd.B, WW, 'row'), BW + '.solve_adj_detail')
    V.method(o, 'prepare')
    st = o.fields['storage']
    V.ensure_shape('storage', st, (m, Wd.cols))
    s = st.snap()
    top = T.sub(T.add(n, q), 1)
    V.ensure_all('solutions for the columns', (T.add(n, q),), lambda l: T.eq(Wd.v(s, q)(l), VV(q, l)))
    V.ensure_all('solutions for the rows', (T.add(n, q),), lambda l: T.eq(Wd.w(s, q)(l), WW(q, l)))
    V.ensure('Schur complements', T.land(T.eq(s(q, 0), T.sub(Wd.D(q), ctx.Sum(0, top, lambda l: T.mul(Wd.B(q, l), VV(q, l))))),
             T.eq(s(q, 1), T.sub(Wd.D(q), ctx.Sum(0, top, lambda l: T.mul(Wd.C(q, l), WW(q, l)))))))


def last(V, Wd, name, adj, rhs, pre, post=''):
    """name(f) solves the full system with the right-hand side made of f"""
    ctx = V.ctx
    n, m = Wd.n, Wd.m
    N = T.add(n, m)
    seen = []

    def stub(I, s, j, x):
        seen.append((j, x.snap(), x.shape))
        return A.symbolic(ctx, 'solution', (N,), 'f')
    det = BW + ('.solve_adj_detail' if adj else '.solve_detail')
    V.stub(det, stub, det)
    return seen


def full_spec(name, adj, kind):
    def spec(V):
        Wd = Wide(V)
        n, m = Wd.n, Wd.m
        N = T.add(n, m)
        seen = last(V, Wd, name, adj, None, None)
        o = Wd.new(storage=Wd.storage())
        args = []
        if kind == 'full':
            f = V.arr('f', (N,), 'f')
            s = f.snap()
            want = s
        elif kind == 'zero':
            f = V.arr('f', (T.sub(N, 1),), 'f')
            s = f.snap()
            want = lambda i: T.ite(T.lt(i, T.sub(N, 1)), s(i), F0)
        else:
            f = None
            want = lambda i: T.ite(T.lt(i, T.sub(N, 1)), F0, F1)
        fz = V.freeze(f) if f is not None else None
        r = V.method(o, name, *([f] if f is not None else []))
        V.ensure('one system', len(seen) == 1)
        j, x, sh = seen[0]
        V.ensure('all borders', T.eq(j, m))
        V.ensure('size', T.eq(sh[0], N))
        V.ensure_all('right-hand side', (N,), lambda i: T.eq(x(i), want(i)))
        w = A.symbolic(V.ctx, 'solution', (N,), 'f').snap()
        V.ensure_array('its solution', r, (N,), w)
        if fz:
            V.ensure_frozen('given vector', fz)
    spec.__doc__ = 'the solution of the whole system, right-hand side ' + {'full': 'as given', 'zero': '(f, 0)', 'unit': '(0, 1)'}[kind]
    return spec


for _nm, _adj, _kind in (('solve', False, 'full'), ('solve_adj', True, 'full'), ('solve_null', False, 'unit'), ('solve_null_adj', True, 'unit'),
                         ('solve_zero', False, 'zero'), ('solve_zero_adj', True, 'zero')):
    contract(BW + '.' + _nm, 'C12', uses=(BW + ('.solve_adj_detail' if _adj else '.solve_detail'),))(full_spec(_nm, _adj, _kind))


@contract(BW + '.min_norm', 'C12', uses=(BW + '.solve_zero', BW + '.solve_null'))
def wide_min_norm(V):
    """solves every row that the solution for (f, 0) solves and (0, 1) leaves zero, and is orthogonal to the null vector"""
    ctx = V.ctx
    Wd = Wide(V)
    N = T.add(Wd.n, Wd.m)
    f, x, t = V.arr('f', (T.sub(N, 1),), 'f'), V.arr('x', (N,), 'f'), V.arr('t', (N,), 'f')
    xs, ts, fs = x.snap(), t.snap(), f.snap()
    fz = V.freeze(f)

    def zero(I, s, g):
        V.ensure_array('right-hand side', g, (T.sub(N, 1),), fs)
        return x
    V.stub(BW + '.solve_zero', zero, BW + '.solve_zero')
    V.stub(BW + '.solve_null', lambda I, s: t, BW + '.solve_null')
    r = V.method(Wd.new(storage=None), 'min_norm', f)
    V.ensure_shape('shape', r, (N,))
    y = r.snap()
    dot = lambda u, v: ctx.Sum(0, T.sub(N, 1), lambda l: T.mul(u(l), v(l)))
    V.assume(T.gt(dot(ts, ts), 0))
    V.ensure('orthogonal to the null vector', T.eq(dot(y, ts), 0))
    row = ctx.func('row', 'i', 'f')
    R = lambda l: row(T.to_z3(l))
    V.assume(T.eq(dot(R, ts), 0))
    V.ensure('rows', T.eq(dot(R, y), dot(R, xs)))
    V.ensure_frozen('right-hand side', fz)


@contract(BW + '.__init__', 'C12', uses=(BW + '.prepare',))
def wide_init(V):
    """the borders given, in lists of its own, prepared once; the lists given are not changed by later updates of borders"""
    ctx = V.ctx
    Wd = Wide(V)
    n, m = Wd.n, Wd.m
    calls = []
    V.stub(BW + '.prepare', lambda I, s: calls.append([list(x.changed) for x in (s.fields['bs'], s.fields['cs'], s.fields['ds'])]), BW + '.prepare')
    o = V.call(BW, Wd.inner.obj, Wd.bs, Wd.cs, Wd.ds)
    V.ensure('prepared', len(calls) == 1)
    V.ensure('sizes', T.land(T.eq(o.fields['n'], n), T.eq(o.fields['m'], m)))
    mine = [o.fields[k] for k in ('bs', 'cs', 'ds')]
    given = [Wd.bs, Wd.cs, Wd.ds]
    V.ensure('borders as given', all(isinstance(x, SymList) and x.at is g.at and not x.changed for x, g in zip(mine, given)))
    V.ensure('lists of its own', all(x is not g for x, g in zip(mine, given)))
    j = V.int('j', 0)
    V.assume(T.lt(j, m))
    row = V.choose(True, False)
    v, d = V.arr('v', (T.add(n, j),), 'f'), V.real('d')
    fz = V.freeze(v)
    V.method(o, 'update_row' if row else 'update_col', j, v, d)
    V.ensure('prepared again with the new borders', len(calls) == 2)
    new = [o.fields[k].vc_getitem(V.I.np, j) for k in ('bs', 'cs', 'ds')]
    k = 0 if row else 1
    V.ensure_array('new border', new[k], (T.add(n, j),), v.snap())
    V.ensure('new corner', T.eq(new[2], d))
    V.ensure('nothing else', not o.fields['cs' if row else 'bs'].changed and len(o.fields['bs' if row else 'cs'].changed) == 1 and len(o.fields['ds'].changed) == 1)
    if len(calls) == 2:
        V.ensure('borders set before', len(calls[1][k]) == 1 and len(calls[1][2]) == 1)
    V.ensure('given lists unchanged', not any(g.changed for g in given))
    V.ensure_frozen('new border', fz)
