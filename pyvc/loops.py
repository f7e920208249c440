"""Loop rules: unrolling of constant trip counts, parallel-for / finite-sum closed forms, invariants."""
import ast
from fractions import Fraction
import z3

from . import terms as T
from . import arrays as A
from .arrays import Arr, PyRaise
from .terms import Unsupported, Cx
from .ctx import Infeasible, PathDone, subterms, contains
from .interp import (RangeVal, Break, Continue, Return, POISON, assigned_names, Obj)

UNROLL = 34


class NotParallel(Exception):
    pass


class Sub:
    def __init__(self, prefix, parent=None):
        self.parent = parent
        self.prefix, self.trace, self.pending = list(prefix), [], []


class NdIndex:
    """np.ndindex(shape), itertools.product of ranges: nested loops in row-major order"""

    def __init__(self, ranges):
        self.ranges = ranges


def run_nd(I, st, fr, it):
    for x in ast.walk(ast.Module(st.body, [])):
        if isinstance(x, (ast.Break, ast.Return)):
            raise Unsupported('leaving a loop over index tuples early')
    d = len(it.ranges)
    if d == 0 or st.orelse:
        raise Unsupported('loop over index tuples')
    nest = getattr(st, '_nest', None)
    if nest is None or len(nest) != d:
        base = '__nd%d_%d_' % (st.lineno, st.col_offset)
        body, nest = st.body, []
        if isinstance(st.target, ast.Name):
            names = [ast.Name(base + 'i%d' % p, ast.Store()) for p in range(d)]
            tup = ast.Tuple([ast.Name(x.id, ast.Load()) for x in names], ast.Load())
            body = [ast.fix_missing_locations(ast.copy_location(ast.Assign([st.target], tup), st))] + body
        else:
            names = st.target.elts
            if len(names) != d:
                raise PyRaise('ValueError', 'unpacking an index tuple')
        for p in reversed(range(d)):
            f = ast.fix_missing_locations(ast.copy_location(ast.For(names[p], ast.Name(base + 'r%d' % p, ast.Load()), body, []), st))
            body = [f]
            nest.insert(0, f)
        st._nest = nest
    for f, r in zip(nest, it.ranges):
        I.assign_name_raw(f.iter.id, r, fr)
    I.stmt(nest[0], fr)


def run_for(I, st, fr, it):
    if isinstance(it, NdIndex):
        return run_nd(I, st, fr, it)
    if isinstance(it, RangeVal):
        n = trip(I.ctx, it)
        if not T.isz3(n) and n <= UNROLL:
            return unroll(I, st, fr, [T.add(it.lo, T.mul(it.step, i)) for i in range(n)])
        return symloop(I, st, fr, n, lambda k: T.add(it.lo, T.mul(it.step, k)))
    if isinstance(it, Arr) and it.ndim >= 1 and (T.isz3(it.shape[0]) or it.shape[0] > UNROLL):
        return symloop(I, st, fr, it.shape[0], lambda k: A.view(I.ctx, it, k))
    if hasattr(it, 'vc_symiter'):
        n, item = it.vc_symiter(I)
        return symloop(I, st, fr, n, item)
    return unroll(I, st, fr, I.np.iterate(it))


def trip(ctx, it):
    lo, hi, s = it.lo, it.hi, it.step
    d = T.sub(hi, lo) if s > 0 else T.sub(lo, hi)
    m = abs(s)
    d = T.simp(d)
    if T.isz3(d):
        if ctx.prove(T.ge(d, 0)):
            return T.simp(d if m == 1 else T.floordiv(T.add(d, m - 1), m))
        if ctx.prove(T.le(d, 0)):
            return 0
    return T.simp(it.trip())


def unroll(I, st, fr, items):
    for x in items:
        I.assign_to(st.target, x, fr)
        try:
            I.block(st.body, fr)
        except Break:
            return
        except Continue:
            continue
    I.block(st.orelse, fr)


def symloop(I, st, fr, n, item):
    ctx = I.ctx
    if T.isz3(n):
        pos = T.gt(n, 0)
        if ctx.prove(T.lnot(pos)):
            return I.block(st.orelse, fr)
    prov = find_invariant(I, st, fr)
    if prov is not None:
        peel = getattr(prov, 'peel', 0)
        for i in range(peel):
            if not I.truth(T.lt(i, n)):
                if i:
                    I.block(st.orelse, fr)
                    return
                break
            I.assign_to(st.target, item(i), fr)
            try:
                I.block(st.body, fr)
            except Continue:
                pass
            except Break:
                return
        else:
            if peel:
                shifted = lambda env: prov(env.moved(peel))
                return inv_for(I, st, fr, T.sub(n, peel), lambda k: item(T.add(k, peel)), shifted)
        return inv_for(I, st, fr, n, item, prov)
    try:
        auto_for(I, st, fr, n, item)
        I.loop_log.append((ctx.loc, 'closed form'))
    except NotParallel as e:
        I.loop_log.append((ctx.loc, 'no invariant: ' + str(e)))
        ctx.notes.add('loop at %s abstracted (%s)' % (ctx.loc, e))
        return inv_for(I, st, fr, n, item, None)
    I.block(st.orelse, fr)


def find_invariant(I, st, fr, probe=False):
    f = fr.fn
    if f is None:
        return None
    p = I.loopinvs.get(f.qualname)
    if p is None:
        return None
    loops = [x for x in ast.walk(f.node) if isinstance(x, (ast.For, ast.While))]
    loops.sort(key=lambda x: (x.lineno, x.col_offset))
    # a counting while loop is a for loop
    loops = [st if getattr(st, '_while', None) is x else x for x in loops]
    ordn = [i for i, x in enumerate(loops) if x is st]
    if probe:
        try:
            return p(I, fr, st, ordn[0] if ordn else 0, loops)
        except (AttributeError, TypeError, KeyError, IndexError):
            return None
    return p(I, fr, st, ordn[0] if ordn else 0, loops)


# ---------------------------------------------------------------- exploration of one iteration
class PathRes:
    pass


def explore_body(I, body, fr, before, limit=64, cover=None):
    """runs body from the current state on every sub path (cover: on paths that take every alternative of every decision
    at least once); state is restored"""
    ctx = I.ctx
    out = []
    pend = [[]]
    while pend:
        if len(out) > limit:
            raise Unsupported('too many paths through a loop body')
        pre = pend.pop()
        if isinstance(pre, tuple):
            if pre[1] in cover:
                continue
            pre = pre[0]
        sub = Sub(pre, ctx.sub)
        sub.cover, sub.cover_keys = cover, []
        saved, ctx.sub = ctx.sub, sub
        m, npc = ctx.mark(), ctx.push()
        r = PathRes()
        r.kind, r.exc = 'normal', None
        try:
            before()
            I.block(body, fr)
        except Continue:
            pass
        except Break:
            r.kind = 'break'
        except Return as e:
            r.kind, r.exc = 'return', e
        except PyRaise as e:
            r.kind, r.exc = 'raise', e
        except PathDone:
            r.kind = 'dead'
        except Infeasible:
            r.kind = 'dead'
        finally:
            r.pc = list(ctx.pc[npc:])
            r.keys = [k for k, _ in ctx.trail[m:]]
            r.bufs = {}
            for k in r.keys:
                if k[0] == 'buf':
                    r.bufs[k[1]] = k[1].fn
            r.locals = dict(fr.vars)
            r.fields = {}
            for k in r.keys:
                if k[0] == 'field':
                    r.fields[(k[1], k[2])] = k[1].fields.get(k[2])
            ctx.rollback(m)
            ctx.pop(npc)
            ctx.sub = saved
        pend += sub.pending
        if r.kind != 'dead':
            out.append(r)
            if cover is not None:
                cover.update(sub.cover_keys)
    return out


def set_or_unset(ctx, buf):
    """contents of an object array that holds scalars; cells never written hold some unknown value"""
    fn, ot = buf.fn, buf.otype
    ctx.counter += 1
    u = ctx.func('unset!%d' % ctx.counter, 'i' * len(buf.shape), ot[1]) if ot[0] == 's' else None

    def f(*i):
        v = fn(*i)
        if v is None and u is not None:
            return u(*map(T.to_z3, i))
        return v
    return f


def uf_fn(ctx, buf, tag):
    """fresh contents for a buffer"""
    ctx.counter += 1
    name = '%s!%d' % (tag, ctx.counter)
    dom = 'i' * len(buf.shape)
    if not dom:
        raise NotParallel('0-d array written in a loop')
    if buf.kind == 'o':
        ot = getattr(buf, 'otype', None)
        if ot is None or ot == 'mixed':
            raise NotParallel('object array written in a loop')
        if ot[0] == 's':
            f = ctx.func(name, dom, ot[1])
            return (lambda *i: f(*map(T.to_z3, i))), [f]
        f = ctx.func(name, dom + 'i' * len(ot[1]), ot[2])
        return (lambda *i: A.frozen(ctx, ot[1], (lambda *j: f(*map(T.to_z3, i + j))), ot[2])), [f]
    if buf.kind == 'c':
        fr_, fi = ctx.func(name + '.re', dom, 'f'), ctx.func(name + '.im', dom, 'f')
        return (lambda *i: Cx(fr_(*map(T.to_z3, i)), fi(*map(T.to_z3, i)))), [fr_, fi]
    f = ctx.func(name, dom, buf.kind)
    return (lambda *i: f(*map(T.to_z3, i))), [f]


def parts(v):
    if isinstance(v, Cx):
        return [v.re, v.im]
    return [v]


def zterm(v):
    return [T.to_z3(x) for x in parts(v)]


def newconsts(ctx, terms, c0, allowed):
    """constants created after counter c0 that occur in terms"""
    bad = set()
    for t in subterms([x for x in terms if z3.is_expr(x)]):
        if z3.is_app(t) and t.decl().kind() == z3.Z3_OP_UNINTERPRETED:
            nm = t.decl().name()
            if nm in allowed or '!' not in nm:
                continue
            try:
                num = int(nm.split('!')[1].split('.')[0])
            except ValueError:
                continue
            if num > c0 and nm not in ctx.sums:
                bad.add(nm)
            if num > c0 and nm in ctx.sums:
                e = ctx.sums[nm]
                bad |= newconsts(ctx, [e.lo, e.hi, e.body], c0, allowed)
    return bad


class Resolver:
    """substitute variables and replace applications of given function symbols, going inside sums"""

    def __init__(self, ctx, subst, repl):
        self.ctx, self.subst, self.repl = ctx, subst, repl
        self.cache = {}
        self.keep = []

    def go(self, t):
        if isinstance(t, Cx):
            return Cx(self.go(t.re), self.go(t.im))
        if not T.isz3(t):
            return t
        return T.fold(self._go(t))

    def _go(self, t):
        i = t.get_id()
        if i in self.cache:
            return self.cache[i]
        self.keep.append(t)
        for v, x in self.subst:
            if i == v.get_id():
                self.cache[i] = T.to_z3(x)
                return self.cache[i]
        if not z3.is_app(t):
            r = t
        else:
            nm = t.decl().name()
            uninterp = t.decl().kind() == z3.Z3_OP_UNINTERPRETED
            if uninterp and t.num_args() == 0 and nm in self.ctx.sums:
                e = self.ctx.sums[nm]
                if self.touches(e):
                    r = T.to_z3(T.to_real(self.ctx.Sum(T.fold(self._go(e.lo)), T.fold(self._go(e.hi)),
                                                       lambda j, e=e: Resolver(self.ctx, self.subst + [(e.bound, j)], self.repl).go(e.body))))
                else:
                    r = t
            elif uninterp and nm in self.repl:
                ch = [T.fold(z3.simplify(self._go(c))) for c in t.children()]
                r = T.to_z3(self.repl[nm](*ch))
            else:
                ch = [self._go(c) for c in t.children()]
                if all(a.eq(b) for a, b in zip(ch, t.children())):
                    r = t
                else:
                    from .solve import rebuild
                    r = rebuild(t, ch)
        self.cache[i] = r
        return r

    def touches(self, e):
        ids = {v.get_id() for v, _ in self.subst}
        for s in subterms([e.lo, e.hi, e.body]):
            if s.get_id() in ids:
                return True
            if z3.is_app(s) and s.decl().kind() == z3.Z3_OP_UNINTERPRETED:
                if s.decl().name() in self.repl:
                    return True
                if s.num_args() == 0 and s.decl().name() in self.ctx.sums and self.touches(self.ctx.sums[s.decl().name()]):
                    return True
        return False


def apps_of(ctx, ts, names, seen=None):
    out = []
    seen = seen if seen is not None else set()
    for s in subterms([t for t in ts if z3.is_expr(t)]):
        if z3.is_app(s) and s.decl().kind() == z3.Z3_OP_UNINTERPRETED:
            nm = s.decl().name()
            if nm in names:
                out.append(s)
            if nm in ctx.sums and s.num_args() == 0 and nm not in seen:
                seen.add(nm)
                e = ctx.sums[nm]
                out += apps_of(ctx, [e.lo, e.hi, e.body], names, seen)
    return out


def has_const(ctx, ts, names):
    return bool(apps_of(ctx, ts, names))


def auto_for(I, st, fr, n, item):
    ctx = I.ctx
    names = assigned_names(st.body)
    tnames = assigned_names([ast.Expr(st.target)]) if not isinstance(st.target, ast.Name) else [st.target.id]
    W = []
    init_locals = dict(fr.vars)
    for attempt in range(5):
        k = ctx.fresh('k', 'int')
        c0 = ctx.counter
        m, npc = ctx.mark(), ctx.push()
        try:
            try:
                ctx.assume(T.to_z3(T.land(T.le(0, k), T.lt(k, n))))
            except Infeasible:
                return
            olds, inits, decls = {}, {}, {}
            for b in W:
                fn, ds = uf_fn(ctx, b, 'lp')
                inits[b] = b.fn if b.kind != 'o' else set_or_unset(ctx, b)
                olds[b] = fn
                decls[b] = ds
                b.set(fn)
            carries = {}
            for nm in names:
                if nm in tnames:
                    continue
                v = init_locals.get(nm, POISON)
                if T.is_scalar(v) and not isinstance(v, T.Special) and T.kind(v) in 'if':
                    kd = T.kind(v)
                    ct = fr.ctypes.get(nm)
                    if ct and ct.get('c') == 'double':
                        kd = 'f'
                    c = ctx.fresh('carry', 'int' if kd == 'i' else 'real')
                    carries[nm] = (c, v)
                    I.assign_name(nm, c, fr)
                else:
                    I.assign_name_raw(nm, POISON, fr)
            allowed = {d.name() for ds in decls.values() for d in ds} | {c.decl().name() for c, _ in carries.values()}
            no0 = len(ctx.obls)
            c1 = ctx.counter
            res = explore_body(I, st.body, fr, lambda: I.assign_to(st.target, item(k), fr))
            kinds = {r.kind for r in res}
            if kinds - {'normal'}:
                del ctx.obls[no0:]
                raise NotParallel('loop body may %s' % ', '.join(sorted(kinds - {'normal'})))
            w2 = list(W)
            bad = None
            for r in res:
                for key in r.keys:
                    if key[0] == 'buf':
                        if key[1] not in w2 and key[1].id <= 10 ** 12 and getattr(key[1], 'born', 0) <= c0:
                            w2.append(key[1])
                    elif key[0] == 'local':
                        if key[1] == id(fr.vars):
                            if key[2] not in names and key[2] not in tnames:
                                bad = 'hidden local'
                        continue
                    elif key[0] == 'field':
                        if key[1].n <= 10 ** 12 and getattr(key[1], 'born', 0) <= c0:
                            bad = 'object field written in a loop'
                    elif key[0] in ('list', 'dict'):
                        bad = 'list or dict mutated in a loop'
            if bad:
                del ctx.obls[no0:]
                raise NotParallel(bad)
            # buffers created inside the iteration are not loop state
            w2 = [b for b in w2 if b in W or getattr(b, 'born', 0) <= c0]
            if len(w2) != len(W):
                W = w2
                del ctx.obls[no0:]
                continue
            fin = build(I, fr, st, res, W, olds, decls, inits, carries, k, n, item, names, tnames, c1, allowed, init_locals)
        finally:
            ctx.rollback(m)
            ctx.pop(npc)
        fin()
        return
    raise NotParallel('modified set does not stabilise')


def combine(res, get):
    """nested ite over the sub paths"""
    v = get(res[-1])
    for r in reversed(res[:-1]):
        c = T.land(*[T.fold(x) for x in r.pc]) if r.pc else True
        w = get(r)
        if isinstance(w, Cx) or isinstance(v, Cx):
            v = T.ite(c, w, v)
        else:
            v = T.ite(c, w, v)
    return v


def build(I, fr, st, res, W, olds, decls, inits, carries, k, n, item, names, tnames, c1, allowed, init_locals):
    ctx = I.ctx
    if not res:
        raise NotParallel('no feasible iteration')
    oldnames = {d.name(): b for b in W for d in decls[b]}
    cnames = {c.decl().name(): nm for nm, (c, _) in carries.items()}
    pcs = [x for r in res for x in r.pc]
    info = {}
    reads = list(pcs)
    for b in W:
        bi = [ctx.fresh('b', 'int') for _ in b.shape]
        tmpl = combine(res, lambda r: r.bufs.get(b, olds[b])(*bi))
        if not T.is_scalar(tmpl) or isinstance(tmpl, T.Special):
            raise NotParallel('object array written in a loop')
        zt = zterm(tmpl)
        bad = newconsts(ctx, zt + pcs, c1, allowed | {x.decl().name() for x in bi} | {k.decl().name()})
        if bad:
            raise NotParallel('iteration introduces unknowns')
        old = olds[b](*bi)
        # axis and affine position
        found = None
        for ax in range(len(bi)):
            for (s, c) in candidates(zt, bi, ax, k):
                tgt = T.to_z3(T.add(T.mul(s, k), c))
                fr_ok = ctx.prove(T.to_z3(T.implies(T.ne(bi[ax], tgt), T.eq(tmpl, old))))
                if fr_ok:
                    found = (ax, s, c, tgt)
                    break
            if found:
                break
        if found is None:
            # a run of cells per iteration: [w k + c, w k + c + w)
            for ax in range(len(bi)):
                for (w, c) in runs(ctx, zt, bi, ax, k):
                    lo = T.to_z3(T.add(T.mul(w, k), c))
                    if ctx.prove(T.to_z3(T.implies(T.lor(T.lt(bi[ax], lo), T.ge(bi[ax], T.add(lo, w))), T.eq(tmpl, old)))):
                        found = (ax, w, c, lo)
                        break
                if found:
                    break
            if found:
                info[b] = ('run', bi, tmpl, found)
                reads += [z3.substitute(x, (bi[found[0]], found[3] + ctx.runoff)) for x in zt]
                continue
            # accumulation over all cells: new = old + term(k)
            inc = T.sub(tmpl, old)
            zi = [z3.simplify(x, som=True) if z3.is_expr(x) else x for x in zterm(inc)]
            if has_const(ctx, zi, set(oldnames) | set(cnames)):
                raise NotParallel('no single written cell per iteration in %s' % b.name)
            info[b] = ('sum', bi, zi, isinstance(inc, Cx))
            continue
        info[b] = ('cell', bi, tmpl, found)
        # restricted template: the written cell
        reads += [z3.substitute(x, (bi[found[0]], found[3])) for x in zt]
    # carries: value after the body
    upd = {}
    for nm, (c, v0) in carries.items():
        after = combine_local(res, nm)
        if after is POISON:
            upd[nm] = ('poison',)
            continue
        if T.isz3(after) and after.eq(c):
            upd[nm] = ('same',)
            continue
        z = zterm(after)
        if newconsts(ctx, z, c1, allowed | {k.decl().name()}):
            upd[nm] = ('poison',)
            continue
        if not has_const(ctx, z + pcs, set(cnames)):
            upd[nm] = ('last', after)
            reads += z
            continue
        if isinstance(after, Cx):
            raise NotParallel('complex accumulator')
        inc = T.sub(after, c)
        zi = z3.simplify(z3.substitute(T.to_z3(after), (c, T.to_z3(T.add(c, 0)))) - c, som=True)
        zi = push_ite(after, c)
        if zi is None or has_const(ctx, [zi], set(cnames)):
            raise NotParallel('loop-carried local %s' % nm)
        if has_const(ctx, pcs, set(cnames)):
            raise NotParallel('branch depends on loop-carried local')
        upd[nm] = ('acc', zi)
        reads.append(zi)
    # reads of written buffers
    for app in apps_of(ctx, reads, set(oldnames)):
        b = oldnames[app.decl().name()]
        kind = info[b]
        if kind[0] == 'sum':
            raise NotParallel('accumulated array is read')
        ax, s, c, tgt = kind[3]
        a = app.children()[ax]
        if kind[0] == 'run':
            end = T.to_z3(T.add(c, T.mul(s, n)))
            if not ctx.prove(T.to_z3(T.implies(T.land(T.le(0, ctx.runoff), T.lt(ctx.runoff, s)),
                                               T.lor(T.land(T.le(tgt, a), T.lt(a, T.add(tgt, s))), T.lt(a, c), T.ge(a, end))))):
                raise NotParallel('iteration reads cells written by other iterations')
            continue
        if not isinstance(s, int) or s == 0:
            raise NotParallel('stride')
        last = T.to_z3(T.add(c, T.mul(s, T.sub(n, 1))))
        lo, hi = (T.to_z3(c), last) if s > 0 else (last, T.to_z3(c))
        ok = T.lor(T.eq(a, tgt), T.lt(a, lo), T.gt(a, hi))
        rng = bound_ranges(ctx, app, reads)
        goal = T.to_z3(T.implies(T.land(*rng), ok)) if rng else ok
        if not ctx.prove(goal):
            raise NotParallel('iteration reads cells written by other iterations')
    if any(has_const(ctx, [x], set(cnames)) for x in reads if z3.is_expr(x)) and any(u[0] == 'poison' for u in upd.values()):
        raise NotParallel('carry read')

    def repl_for(kk):
        rp = {}
        for b in W:
            ds = decls[b]
            ini = inits[b]
            if b.kind == 'c':
                rp[ds[0].name()] = lambda *i, ini=ini: T.to_cx(ini(*i)).re
                rp[ds[1].name()] = lambda *i, ini=ini: T.to_cx(ini(*i)).im
            else:
                rp[ds[0].name()] = ini
        return rp

    def carry_at(nm, kk):
        c, v0 = carries[nm]
        u = upd[nm]
        if u[0] == 'same':
            return v0
        if u[0] == 'acc':
            zi = u[1]
            s = ctx.Sum(0, T.sub(kk, 1), lambda j: Resolver(ctx, [(k, j)], repl_for(j)).go(zi))
            if T.is_int(v0) and z3.is_int(zi):
                s = T.floor(s) if T.isz3(s) or isinstance(s, Fraction) else s
            return T.add(v0, s)
        if u[0] == 'last':
            prev = Resolver(ctx, [(k, T.sub(kk, 1))], repl_for(kk)).go(u[1])
            return T.ite(T.gt(kk, 0), prev, v0)
        raise NotParallel('carry')

    def res_at(t, kk, extra):
        sub = [(k, kk)] + extra + [(carries[nm][0], carry_at(nm, kk)) for nm in carries if upd[nm][0] != 'poison' and
                                   has_const(ctx, zterm(t), {carries[nm][0].decl().name()})]
        return Resolver(ctx, sub, repl_for(kk)).go(t)

    finals = {}
    for b in W:
        kd = info[b]
        ini = inits[b]
        if kd[0] == 'sum':
            _, bi, zi, cx = kd

            def fn(*bb, bi=bi, zi=zi, cx=cx, ini=ini):
                ps = []
                for x in zi:
                    ps.append(ctx.Sum(0, T.sub(n, 1), lambda j, x=x: Resolver(ctx, [(k, j)] + list(zip(bi, bb)), repl_for(j)).go(T.fold(x))))
                inc = Cx(*ps) if cx else ps[0]
                return T.add(ini(*bb), inc)
        elif kd[0] == 'run':
            _, bi, tmpl, (ax, w, c, lo) = kd

            def fn(*bb, bi=bi, tmpl=tmpl, ax=ax, w=w, c=c, ini=ini):
                kk = ctx.intdiv(T.sub(bb[ax], c), w)
                cond = T.land(T.le(0, kk), T.lt(kk, n))
                if cond is False:
                    return ini(*bb)
                return T.ite(cond, res_at(tmpl, kk, list(zip(bi, bb))), ini(*bb))
        else:
            _, bi, tmpl, (ax, s, c, tgt) = kd

            def fn(*bb, bi=bi, tmpl=tmpl, ax=ax, s=s, c=c, ini=ini):
                d = T.sub(bb[ax], c)
                if s == 1:
                    kk, div = d, True
                elif s == -1:
                    kk, div = T.neg(d), True
                else:
                    d2 = d if s > 0 else T.neg(d)
                    kk, div = T.floordiv(d2, abs(s)), T.eq(T.mod(d2, abs(s)), 0)
                cond = T.land(div, T.le(0, kk), T.lt(kk, n))
                if cond is False:
                    return ini(*bb)
                v = res_at(tmpl, kk, list(zip(bi, bb)))
                return T.ite(cond, v, ini(*bb))
        finals[b] = A.memo(fn)

    lastvals = {}
    for nm in names:
        if nm in tnames:
            continue
        if nm in carries:
            u = upd[nm]
            if u[0] == 'poison':
                lastvals[nm] = POISON
            else:
                lastvals[nm] = carry_at(nm, T.maxv(n, 0))
        else:
            after = combine_local(res, nm)
            lastvals[nm] = POISON
            if after is not POISON and T.is_scalar(after) and ctx.prove(T.gt(n, 0)):
                z = zterm(after)
                if not newconsts(ctx, z, c1, allowed | {k.decl().name()}):
                    try:
                        lastvals[nm] = res_at(after, T.sub(n, 1), [])
                    except NotParallel:
                        pass

    def finish():
        for b in W:
            b.set(finals[b])
        for nm, v in lastvals.items():
            I.assign_name_raw(nm, v, fr)
        if len(tnames) == 1 and isinstance(st.target, ast.Name):
            if ctx.prove(T.gt(n, 0)):
                I.assign_name_raw(st.target.id, item(T.sub(n, 1)), fr)
            else:
                I.assign_name_raw(st.target.id, POISON, fr)
        else:
            for t in tnames:
                I.assign_name_raw(t, POISON, fr)
    return finish


def bound_ranges(ctx, app, reads):
    """ranges of sum-bound variables occurring in app"""
    out = []
    for s in subterms([app]):
        if z3.is_const(s) and s.decl().kind() == z3.Z3_OP_UNINTERPRETED and s.decl().name().startswith('_k'):
            for nm, e in ctx.sums.items():
                if e.bound.eq(s) and contains(e.body, app):
                    out += [e.lo <= s, s <= e.hi]
    return out


def push_ite(after, c):
    """after - c, pushing the subtraction into if-then-else"""
    def go(t):
        if t.eq(c):
            return z3.IntVal(0) if z3.is_int(c) else z3.RealVal(0)
        if z3.is_app(t) and t.decl().kind() == z3.Z3_OP_ITE:
            a, b = go(t.children()[1]), go(t.children()[2])
            if a is None or b is None:
                return None
            return z3.If(t.children()[0], a, b)
        r = z3.simplify(t - c, som=True)
        return r
    r = go(T.to_z3(after))
    if r is None or contains(r, c):
        return None
    return r


def combine_local(res, nm):
    vals = [r.locals.get(nm, POISON) for r in res]
    if any(v is POISON for v in vals):
        return POISON
    if all(v is vals[0] for v in vals):
        return vals[0] if T.is_scalar(vals[0]) and not isinstance(vals[0], T.Special) else POISON
    if not all(T.is_scalar(v) and not isinstance(v, T.Special) for v in vals):
        return POISON
    v = vals[-1]
    for r, w in reversed(list(zip(res[:-1], vals[:-1]))):
        c = T.land(*[T.fold(x) for x in r.pc]) if r.pc else True
        v = T.ite(c, w, v)
    return v


def candidates(zt, bi, ax, k):
    seen = []
    b = bi[ax]
    for t in subterms(zt):
        if z3.is_eq(t) and z3.is_int(t.children()[0]):
            l, r = t.children()
            d = z3.simplify(l - r)
            if not contains(d, b) or not contains(d, k):
                continue
            cb = T.fold(z3.simplify(z3.substitute(d, (b, b + 1)) - d))
            ck = T.fold(z3.simplify(z3.substitute(d, (k, k + 1)) - d))
            if not isinstance(cb, int) or not isinstance(ck, int) or abs(cb) != 1:
                continue
            s = -ck * cb
            c = T.simp(-(z3.substitute(d, (b, z3.IntVal(0)), (k, z3.IntVal(0)))) * cb)
            if T.isz3(c) and any(contains(c, x) for x in bi):
                continue
            if s == 0:
                continue
            if not any(s == s2 and (c is c2 or (T.isz3(c) and T.isz3(c2) and c.eq(c2)) or (not T.isz3(c) and not T.isz3(c2) and c == c2)) for s2, c2 in seen):
                seen.append((s, c))
    return seen[:6]


def runs(ctx, zt, bi, ax, k):
    """(w, c): comparisons of the cell with w k + c, w a positive term without k or cells"""
    if not hasattr(ctx, 'runoff'):
        ctx.runoff = ctx.fresh('runoff', 'int')
    seen = []
    b = bi[ax]
    for t in subterms(zt):
        if not (z3.is_le(t) or z3.is_ge(t) or z3.is_lt(t) or z3.is_gt(t) or z3.is_eq(t)) or not z3.is_int(t.children()[0]):
            continue
        l, r = t.children()
        d = z3.simplify(l - r, som=True)
        if not contains(d, b) or not contains(d, k):
            continue
        cb = T.fold(z3.simplify(z3.substitute(d, (b, b + 1)) - d, som=True))
        if not isinstance(cb, int) or abs(cb) != 1:
            continue
        w = z3.simplify(-cb * (z3.substitute(d, (k, k + 1)) - d), som=True)
        c = z3.simplify(-cb * z3.substitute(d, (b, z3.IntVal(0)), (k, z3.IntVal(0))), som=True)
        if any(contains(x, y) for x in (w, c) for y in bi + [k]):
            continue
        w, c = T.fold(w), T.fold(c)
        if any(_same(w, w2) and _same(c, c2) for w2, c2 in seen) or not ctx.prove(T.to_z3(T.ge(w, 1))):
            continue
        seen.append((w, c))
        if len(seen) > 8:
            break
    return seen


def _same(a, b):
    return a.eq(b) if T.isz3(a) and T.isz3(b) else not T.isz3(a) and not T.isz3(b) and a == b


# ---------------------------------------------------------------- invariants
class Env:
    """what a loop invariant can talk about"""

    def __init__(self, I, fr, k, n, item, W=()):
        self.I, self.fr, self.k, self.n, self.item, self.W = I, fr, k, n, item, list(W)
        self.mapping = {}
        self.ctx = I.ctx
        self.step = False           # the arbitrary iteration

    def __getitem__(self, role):
        nm = self.mapping.get(role, role)
        f = self.fr
        while f is not None:
            if nm in f.vars:
                return f.vars[nm]
            f = f.parent
        raise KeyError(role)

    def arrays(self, kind='f', ndim=None):
        """local arrays of the frame that the loop writes"""
        out = []
        for nm, v in self.fr.vars.items():
            if isinstance(v, Arr) and v.buf in self.W and v.kind == kind and (ndim is None or v.ndim == ndim):
                if not any(w is v or w.buf is v.buf for _, w in out):
                    out.append((nm, v))
        return out

    def moved(self, by):
        if self.k is not None:
            self.k = T.add(self.k, by)
        return self

    def has(self, role):
        try:
            return self[role] is not POISON
        except KeyError:
            return False


def havoc_set(I, st, fr, body, before, extra_names=()):
    """names, buffers and fields a loop may modify (fixpoint over a havocked state)"""
    ctx = I.ctx
    key = hkey(ctx, st)
    if key in ctx.hcache:
        r = unpack(ctx, ctx.hcache[key])
        if r is not None:
            return r
    r = _havoc_set(I, st, fr, body, before, extra_names)
    for nm in ctx.hpoison.get(id(st), ()):
        r[3][nm] = 'poison'
    ctx.hcache[key] = pack(ctx, *r)
    return r


def hkey(ctx, st):
    t, s = [], ctx.sub
    while s is not None:
        t.append(tuple(s.trace))
        s = s.parent
    return (id(st), ctx.counter, tuple(ctx.trace), tuple(t))


def pack(ctx, names, W, F, L):
    try:
        w = [(b.born, b.name, len(b.shape)) for b in W]
        f = [(o.born, k) for o, k in F]
        l = [(('o', a[0].born, a[1]) if isinstance(a, tuple) and a[0] != 'late' else ('n', a), v) for a, v in L.items()]
    except AttributeError:
        return None
    return list(names), w, f, l, ctx.counter


def unpack(ctx, p):
    """the modified set found on an earlier path with the same history"""
    if p is None:
        return None
    names, w, f, l, cnt = p
    g = ctx.reg.get
    W, F, L = [], [], {}
    for born, nm, nd in w:
        b = g(born)
        if b is None or getattr(b, 'name', None) != nm or len(b.shape) != nd:
            return None
        W.append(b)
    for born, k in f:
        o = g(born)
        if o is None or not hasattr(o, 'fields'):
            return None
        F.append((o, k))
    for a, v in l:
        if a[0] == 'n':
            L[a[1]] = v
        else:
            o = g(a[1])
            if o is None or not hasattr(o, 'fields'):
                return None
            L[(o, a[2])] = v
    ctx.counter = cnt
    return list(names), W, F, L


def _havoc_set(I, st, fr, body, before, extra_names=()):
    ctx = I.ctx
    names = list(dict.fromkeys(assigned_names(body) + list(extra_names)))
    W, F, L = [], [], {}
    ctx.quiet += 1
    try:
        for _ in range(5):
            m, npc = ctx.mark(), ctx.push()
            c0 = ctx.counter
            try:
                apply_havoc(I, fr, names, W, F, L)
                c1 = ctx.counter
                res = explore_body(I, body, fr, before, cover=set())
            finally:
                ctx.rollback(m)
                ctx.pop(npc)
            n0 = (len(W), len(F), dict((a, str(b)) for a, b in L.items()))
            for r in res:
                for key in r.keys:
                    if key[0] == 'buf' and key[1] not in W and getattr(key[1], 'born', 0) <= c0:
                        W.append(key[1])
                    if key[0] == 'field' and (key[1], key[2]) not in F and getattr(key[1], 'born', 0) <= c0:
                        F.append((key[1], key[2]))
                    if key[0] in ('list', 'dict'):
                        raise Unsupported('list or dict mutated in a loop')
                for nm in names:
                    if nm not in fr.vars and nm not in L:
                        L[nm] = 'poison'
                    if nm in r.locals:
                        note_kind(ctx, L, nm, fr.vars.get(nm, POISON), r.locals[nm])
                for (o, f), v in r.fields.items():
                    note_kind(ctx, L, (o, f), o.fields.get(f, POISON), v)
            if n0 == (len(W), len(F), dict((a, str(b)) for a, b in L.items())):
                break
        else:
            raise Unsupported('modified set of a loop does not stabilise')
    finally:
        ctx.quiet -= 1
    return names, W, F, L


class Restart(Exception):
    """a path shows that a variable has no fixed kind at a loop head: start again with it unknown there"""


def complete(I, st, fr, names, W, F, L, pre, prefields, mark, c0, typed=()):
    """the body's path did not change anything outside the modified set it was verified with"""
    ctx = I.ctx
    L2 = dict(L)
    for key, _ in ctx.trail[mark:]:
        if key[0] == 'buf' and key[1] not in W and getattr(key[1], 'born', 0) <= c0:
            raise Unsupported('modified set of a loop is incomplete')
        if key[0] == 'field' and getattr(key[1], 'born', 0) <= c0:
            if (key[1], key[2]) not in F:
                raise Unsupported('modified set of a loop is incomplete')
            note_kind(ctx, L2, (key[1], key[2]), prefields.get((key[1], key[2]), POISON), key[1].fields.get(key[2]))
        if key[0] in ('list', 'dict'):
            raise Unsupported('list or dict mutated in a loop')
    for nm in names:
        if nm in fr.vars:
            note_kind(ctx, L2, nm, pre.get(nm, POISON), fr.vars[nm])
    for key, v in L2.items():
        if isinstance(key, tuple) and key[0] == 'late':
            continue
        if L.get(key) != v and not (L.get(key) is None and v is None):
            if v == 'poison' and isinstance(key, str):
                if key in typed:
                    continue
                ctx.hpoison.setdefault(id(st), set()).add(key)
                raise Restart(key)
            raise Unsupported('modified set of a loop is incomplete (%s)' % (key,))


def note_kind(ctx, L, key, v0, v1):
    """how to havoc a variable with initial value v0 that may become v1"""
    cur = L.get(key)
    if v0 is POISON and isinstance(key, str):
        # unset before the loop: what the body leaves in it
        lk = ('late', key)
        if v1 is POISON or not T.is_scalar(v1) or isinstance(v1, T.Special) or isinstance(v1, Cx):
            L[lk] = 'no'
        elif L.get(lk) != 'no':
            L[lk] = T.kind(v1) if L.get(lk) is None else T.join_kind(L[lk], T.kind(v1))
    if cur == 'poison':
        return
    if v1 is POISON or v0 is POISON:
        L[key] = cur or 'poison' if v1 is not POISON else cur
        if v0 is POISON:
            L[key] = 'poison'
        return
    if v0 is v1 and cur is None:
        return
    if T.is_scalar(v0) and T.is_scalar(v1) and not isinstance(v0, T.Special) and not isinstance(v1, T.Special):
        k = T.join_kind(T.kind(v0), T.kind(v1))
        if isinstance(cur, str) and cur in 'bifc':
            k = T.join_kind(cur, k)
        L[key] = k
        return
    if isinstance(v0, Arr) and isinstance(v1, Arr) and v0.ndim == v1.ndim:
        k = T.join_kind(v0.kind, v1.kind)
        keep = [A.same_dim(ctx, a, b) for a, b in zip(v0.shape, v1.shape)]
        if isinstance(cur, tuple):
            keep = [a and b for a, b in zip(keep, cur[2])]
            k = T.join_kind(k, cur[1])
        L[key] = ('arr', k, keep)
        return
    if isinstance(v0, (str, type(None))) and v0 == v1:
        return
    L[key] = 'poison'


def apply_havoc(I, fr, names, W, F, L):
    ctx = I.ctx
    for b in W:
        fn, _ = uf_fn(ctx, b, 'hv')
        b.set(fn)

    def fresh(key, v):
        spec = L.get(key)
        if spec is None:
            return v
        if spec == 'poison':
            return POISON
        if isinstance(spec, tuple):
            sh = []
            for d, keep in zip(v.shape, spec[2]):
                if keep:
                    sh.append(d)
                else:
                    x = ctx.fresh('dim', 'int')
                    ctx.assume(x >= 0)
                    sh.append(x)
            ctx.counter += 1
            return A.symbolic(ctx, 'hva!%d' % ctx.counter, sh, spec[1])
        return ctx.fresh('hv', {'i': 'int', 'f': 'real', 'b': 'bool', 'c': 'c'}[spec])
    for nm in names:
        if nm in L:
            I.assign_name_raw(nm, fresh(nm, fr.vars.get(nm, POISON)), fr)
    for (o, f) in F:
        if (o, f) in L:
            v = fresh((o, f), o.fields.get(f, POISON))
            if v is POISON:
                raise Unsupported('object field changes shape in a loop')
            I.set_field(o, f, v)


def emit_types(I, fr, prov, phase):
    """type invariants: names that hold an arbitrary object of a given kind at the loop head"""
    for nm, (check, _) in getattr(prov, 'types', {}).items():
        if nm not in fr.vars:
            raise Unsupported('no variable %s at the loop head' % nm)
        I.ctx.oblige(bool(check(fr.vars.get(nm, POISON))), 'loop invariant type of %s [%s]' % (nm, phase), 'invariant')


class Typed:
    """types of the variables of a for loop that hold matrices or other objects of the model.  pick(env, names): name -> role,
    decided once at loop entry among the modified names; at(env, role): (make, conds) with make() an arbitrary object satisfying
    the invariant and conds(v) the invariant of v as invariant items, or None when v is not such an object"""

    def __init__(self, I, fr, prov, names, n, item):
        self.I, self.fr, self.prov, self.n, self.item = I, fr, prov, n, item
        self.roles = prov.pick(Env(I, fr, 0, n, item), names) if hasattr(prov, 'pick') else {}

    def env(self, k):
        return Env(self.I, self.fr, k, self.n, self.item)

    def emit(self, k, phase):
        for nm, role in self.roles.items():
            c = self.prov.at(self.env(k), role)[1](self.fr.vars.get(nm, POISON))
            if c is None:
                self.I.ctx.oblige(False, 'loop invariant type of %s [%s]' % (role, phase), 'invariant')
            else:
                emit(self.I.ctx, c, phase)

    def admit(self, k):
        for nm, role in self.roles.items():
            self.I.assign_name_raw(nm, self.prov.at(self.env(k), role)[0](), self.fr)


def admit_types(I, fr, prov):
    for nm, (_, make) in getattr(prov, 'types', {}).items():
        I.assign_name_raw(nm, make(), fr)


def emit(ctx, inv, phase):
    for it in inv:
        nm, g = it[0], it[1]
        if callable(g):      # universally quantified: (name, fn, bound[, lo])
            n = it[2]
            lo = it[3] if len(it) > 3 else 0
            np_ = ctx.push()
            try:
                ns = n if isinstance(n, tuple) else (n,)
                los = lo if isinstance(lo, tuple) else (lo,) * len(ns)
                qs = [ctx.fresh('q', 'int') for _ in ns]
                for l_, q, m_ in zip(los, qs, ns):
                    ctx.assume(T.to_z3(T.land(T.le(l_, q), T.lt(q, m_))))
                ctx.oblige(g(*qs), 'loop invariant %s [%s]' % (nm, phase), 'invariant')
            except Infeasible:
                pass
            finally:
                ctx.pop(np_)
        elif isinstance(g, Case):
            np_ = ctx.push()
            try:
                c = T.fold(g.cond)
                if c is not False:
                    ctx.assume(c if isinstance(c, bool) else T.to_z3(c))
                    ctx.oblige(g.goal(), 'loop invariant %s [%s]' % (nm, phase), 'invariant')
            except Infeasible:
                pass
            finally:
                ctx.pop(np_)
        else:
            ctx.oblige(g, 'loop invariant %s [%s]' % (nm, phase), 'invariant')


class Case:
    """invariant item: the goal holds where the condition does (the condition is a fact of the obligation)"""

    def __init__(self, cond, goal):
        self.cond, self.goal = cond, goal


def admit(ctx, inv):
    for it in inv:
        nm, g = it[0], it[1]
        if callable(g):
            lo = it[3] if len(it) > 3 else 0
            ctx.forall(it[2], g, lo=lo, guarded=True)
        elif isinstance(g, Case):
            g = T.fold(T.implies(g.cond, g.goal()))
            ctx.assume(g if isinstance(g, bool) else T.to_z3(g))
        else:
            g = T.fold(g)
            ctx.assume(g if isinstance(g, bool) else T.to_z3(g))


def inv_for(I, st, fr, n, item, prov):
    ctx = I.ctx
    loc = ctx.loc
    tnames = [st.target.id] if isinstance(st.target, ast.Name) else assigned_names([st])
    kd = ctx.fresh('k', 'int')

    ty = Typed(I, fr, prov, assigned_names(st.body), n, item)

    def before():
        ctx.assume(T.to_z3(T.land(T.le(0, kd), T.lt(kd, n))))
        ty.admit(kd)
        I.assign_to(st.target, item(kd), fr)
    names, W, F, L = havoc_set(I, st, fr, st.body, before)
    names = [x for x in names if x not in tnames]
    pre = dict(fr.vars)
    if prov is not None:
        ctx.loc = loc
        emit(ctx, prov(Env(I, fr, 0, n, item, W)), 'holds on entry')
        ty.emit(0, 'holds on entry')
    d = ctx.decide(2, 'loop')
    c0 = ctx.counter
    apply_havoc(I, fr, names, W, F, L)
    mk, pre2, pref = ctx.mark(), dict(fr.vars), {x: x[0].fields.get(x[1]) for x in F}
    if d == 1:
        k = ctx.fresh('k', 'int')
        ctx.assume(T.to_z3(T.land(T.le(0, k), T.lt(k, n))))
        if prov is not None:
            ty.admit(k)
            e = Env(I, fr, k, n, item, W)
            e.step = True
            admit(ctx, prov(e))
        I.assign_to(st.target, item(k), fr)
        try:
            I.block(st.body, fr)
        except Continue:
            pass
        except Break:
            return
        complete(I, st, fr, names, W, F, L, pre2, pref, mk, c0, ty.roles)
        if prov is not None:
            ctx.loc = loc
            ty.emit(T.add(k, 1), 'preserved')
            emit(ctx, prov(Env(I, fr, T.add(k, 1), n, item, W)), 'preserved')
        raise PathDone()
    m = T.maxv(n, 0)
    if T.isz3(m):
        mm = ctx.fresh('trip', 'int')
        ctx.assume(T.to_z3(T.eq(mm, m)))
        m = mm
    if ctx.prove(T.gt(n, 0)):
        I.assign_to(st.target, item(T.sub(n, 1)), fr)
        for nm in names:
            if L.get(nm) == 'poison' and L.get(('late', nm), 'no') != 'no' and pre.get(nm, POISON) is POISON:
                I.assign_name_raw(nm, ctx.fresh('hv', {'i': 'int', 'f': 'real', 'b': 'bool'}[L[('late', nm)]]), fr)
    else:
        for t in tnames:
            I.assign_name_raw(t, pre.get(t, POISON) if not ctx.feasible(T.to_z3(T.gt(n, 0))) else POISON, fr)
    if prov is not None:
        ty.admit(m)
        admit(ctx, prov(Env(I, fr, m, n, item, W)))
    I.block(st.orelse, fr)


def names_stored(stmts):
    return [x.id for b in stmts for x in ast.walk(b) if isinstance(x, ast.Name) and isinstance(x.ctx, (ast.Store, ast.Del))]


def own_jumps(stmts, kinds):
    """does a jump of this loop (not of an inner one) occur"""
    for b in stmts:
        if isinstance(b, kinds):
            return True
        if isinstance(b, (ast.For, ast.While)):
            if own_jumps(b.orelse, kinds):
                return True
        elif not isinstance(b, (ast.FunctionDef, ast.ClassDef)):
            for f in ('body', 'orelse', 'finalbody'):
                if own_jumps(getattr(b, f, []) or [], kinds):
                    return True
            for h in getattr(b, 'handlers', []):
                if own_jumps(h.body, kinds):
                    return True
    return False


def counting(st):
    """while i < e: ...; i += c as (index, bound, step, inclusive, body, target)"""
    got = getattr(st, '_counting', 0)
    if got != 0:
        return got
    st._counting = None
    t = st.test
    if not (isinstance(t, ast.Compare) and len(t.ops) == 1 and len(st.body) > 1):
        return None
    a, op, b = t.left, type(t.ops[0]), t.comparators[0]
    last = st.body[-1]
    step = None
    if isinstance(last, ast.AugAssign) and isinstance(last.target, ast.Name) and isinstance(last.value, ast.Constant):
        i, step = last.target.id, last.value.value if isinstance(last.op, ast.Add) else -last.value.value if isinstance(last.op, ast.Sub) else None
    elif isinstance(last, ast.Assign) and len(last.targets) == 1 and isinstance(last.targets[0], ast.Name) and isinstance(last.value, ast.BinOp) and \
            isinstance(last.value.left, ast.Name) and last.value.left.id == last.targets[0].id and isinstance(last.value.right, ast.Constant):
        i, o = last.targets[0].id, last.value.op
        step = last.value.right.value if isinstance(o, ast.Add) else -last.value.right.value if isinstance(o, ast.Sub) else None
    if not isinstance(step, int) or isinstance(step, bool) or step == 0:
        return None
    flip = {ast.Lt: ast.Gt, ast.Gt: ast.Lt, ast.LtE: ast.GtE, ast.GtE: ast.LtE}
    if isinstance(b, ast.Name) and b.id == i and op in flip:
        a, b, op = b, a, flip[op]
    if not (isinstance(a, ast.Name) and a.id == i) or op not in ((ast.Lt, ast.LtE) if step > 0 else (ast.Gt, ast.GtE)):
        return None
    body = st.body[:-1]
    stored = names_stored(body)
    if i in stored or own_jumps(body, ast.Continue):
        return None
    for x in ast.walk(b):
        if isinstance(x, ast.Name):
            if x.id in stored or x.id == i:
                return None
        elif not isinstance(x, (ast.Constant, ast.BinOp, ast.UnaryOp, ast.operator, ast.unaryop, ast.expr_context)):
            return None
    target, rest = i, body
    f = body[0]
    if isinstance(f, ast.Assign) and len(f.targets) == 1 and isinstance(f.targets[0], ast.Name) and isinstance(f.value, ast.Name) and f.value.id == i and \
            stored.count(f.targets[0].id) == 1 and len(body) > 1 and not any(isinstance(x, ast.Name) and x.id == i for s in body[1:] for x in ast.walk(s)) and \
            not own_jumps(body, ast.Break):
        target, rest = f.targets[0].id, body[1:]
    end = ast.Assign([ast.Name(i, ast.Store())], ast.Name('__end%d_%d' % (st.lineno, st.col_offset), ast.Load()))
    node = ast.For(ast.Name(target, ast.Store()), ast.Name('__range', ast.Load()), rest, [end] + st.orelse if own_jumps(body, ast.Break) else [])
    ast.fix_missing_locations(ast.copy_location(node, st))
    node._while = st
    st._counting = (i, b, step, op in (ast.LtE, ast.GtE), node, end.value.id)
    return st._counting


def run_counting(I, st, fr, got):
    i, b, step, incl, node, end = got
    try:
        lo, hi = I.lookup(i, fr), I.ev(b, fr)
    except PyRaise:
        return False
    if not (T.is_int(lo) and T.is_int(hi)) or T.is_bool(lo) or T.is_bool(hi):
        return False
    if incl:
        hi = T.add(hi, 1 if step > 0 else -1)
    r = RangeVal(lo, hi, step)
    n = trip(I.ctx, r)
    if node.orelse:
        I.assign_name_raw(end, T.add(lo, T.mul(step, n)), fr)
        run_for(I, node, fr, r)
    else:
        run_for(I, node, fr, r)
        I.assign_name_raw(i, T.add(lo, T.mul(step, n)), fr)
        I.block(st.orelse, fr)
    return True


def run_while(I, st, fr):
    ctx = I.ctx
    got = counting(st)
    if got is not None and (find_invariant(I, got[4], fr, probe=True) is not None or find_invariant(I, st, fr, probe=True) is None) \
            and run_counting(I, st, fr, got):
        return
    prov = find_invariant(I, st, fr)
    for _ in range(getattr(prov, 'peel', 0)):
        if not I.truth(I.ev(st.test, fr)):
            I.block(st.orelse, fr)
            return
        try:
            I.block(st.body, fr)
        except Break:
            return
        except Continue:
            continue
    if prov is None:
        # constant unrolling while the condition is decided
        for _ in range(UNROLL):
            c = I.ev(st.test, fr)
            if T.isz3(c) if not isinstance(c, Arr) else True:
                if not ctx.prove(c) and not ctx.prove(T.lnot(c)):
                    break
            if not I.truth(c):
                I.block(st.orelse, fr)
                return
            if isinstance(st.test, ast.Constant):
                break
            try:
                I.block(st.body, fr)
            except Break:
                return
            except Continue:
                continue
        ctx.notes.add('while loop at %s abstracted' % ctx.loc)
    loc = ctx.loc

    first = getattr(prov, 'first', False)

    def before():
        if getattr(prov, 'types', None):
            admit_types(I, fr, prov)
        if not I.truth(I.ev(st.test, fr)):
            raise PathDone()
    names, W, F, L = havoc_set(I, st, fr, st.body, before)
    if first:
        # the first iteration starts from the real state, the invariant holds from the second one on
        d = ctx.decide(3, 'while')
        if d == 2:
            if not I.truth(I.ev(st.test, fr)):
                I.block(st.orelse, fr)
                return
            try:
                I.block(st.body, fr)
            except Continue:
                pass
            except Break:
                return
            ctx.loc = loc
            emit_types(I, fr, prov, 'holds after the first iteration')
            emit(ctx, prov(Env(I, fr, None, None, None, W)), 'holds after the first iteration')
            raise PathDone()
    else:
        if prov is not None:
            ctx.loc = loc
            emit(ctx, prov(Env(I, fr, None, None, None, W)), 'holds on entry')
            emit_types(I, fr, prov, 'holds on entry')
        d = ctx.decide(2, 'while')
    c0 = ctx.counter
    apply_havoc(I, fr, names, W, F, L)
    mk, pre2, pref = ctx.mark(), dict(fr.vars), {x: x[0].fields.get(x[1]) for x in F}
    if prov is not None:
        admit_types(I, fr, prov)
        admit(ctx, prov(Env(I, fr, None, None, None, W)))
    t = I.truth(I.ev(st.test, fr))
    if d == 1:
        if not t:
            raise PathDone()
        try:
            I.block(st.body, fr)
        except Continue:
            pass
        except Break:
            return
        complete(I, st, fr, names, W, F, L, pre2, pref, mk, c0, getattr(prov, 'types', {}))
        if prov is not None:
            ctx.loc = loc
            emit(ctx, prov(Env(I, fr, None, None, None, W)), 'preserved')
            emit_types(I, fr, prov, 'preserved')
        raise PathDone()
    if t:
        raise PathDone()
    I.block(st.orelse, fr)
