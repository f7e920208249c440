"""Path context: path condition, forking, axiom schemas, sums, obligations."""
from fractions import Fraction
import time
import z3

from . import terms as T
from .terms import Unsupported, Cx


class Infeasible(Exception):
    """the current path condition is contradictory"""


class PathDone(Exception):
    """this path has served its purpose (e.g. end of an arbitrary loop iteration)"""


class Obligation:
    def __init__(self, name, kind, facts, goal, loc, path, schemas):
        self.name, self.kind, self.facts, self.goal = name, kind, facts, goal
        self.loc, self.path, self.schemas = loc, path, schemas
        self.status = None      # proved / refuted / unknown
        self.backend = None
        self.time = 0.0
        self.model = None

    def ident(self):
        return '%s @ %s' % (self.name, self.loc)


class SumEntry:
    def __init__(self, const, lo, hi, body, bound):
        self.const, self.lo, self.hi, self.body, self.bound = const, lo, hi, body, bound

    def at(self, k):
        return T.subst(self.body, self.bound, k)


class Ctx:
    MAX_DECISIONS = 400

    def __init__(self, prefix=(), run=None):
        self.prefix = list(prefix)
        self.trace = []
        self.pending = []           # alternative prefixes discovered on this run
        self.pc = []
        self.pch = [0]
        self.axioms = []            # definitional facts, valid on every path
        self._axmarks = []
        self.solver = z3.Solver()
        self.solver.set('timeout', 400)
        self.prods = {}
        self.schemas = {}           # decl name -> [fn(args) -> [facts]]
        self.obls = []
        self.trail = []
        self.counter = 0
        self.sums = {}
        self.sumdedup = {}
        self.loc = '?'
        self.run = run
        self.sub = None             # sub-exploration state
        self.quiet = 0              # >0: do not record obligations
        self.proved_cache = {}
        self.keep = []              # keep ASTs alive for id-based caches
        self.uf = {}
        self.notes = set()
        self.deadline = None
        self.loop_maps = {}
        self.pi = None
        self.warn = []
        self.reg = {}               # creation number -> buffer or object
        self.hcache = {}
        self.hpoison = {}
        self.coarse = False

    # -- fresh names -----------------------------------------------------
    def fresh(self, base, sort='int'):
        self.counter += 1
        n = '%s!%d' % (base, self.counter)
        if sort in ('int', 'i'):
            return z3.Int(n)
        if sort in ('real', 'f'):
            return z3.Real(n)
        if sort in ('bool', 'b'):
            return z3.Bool(n)
        if sort == 'c':
            return Cx(z3.Real(n + '.re'), z3.Real(n + '.im'))
        raise Unsupported('fresh ' + sort)

    def func(self, name, dom, rng):
        key = (name, tuple(dom), rng)
        if key not in self.uf:
            S = {'i': z3.IntSort(), 'f': z3.RealSort(), 'b': z3.BoolSort()}
            self.uf[key] = z3.Function(name, *[S[d] for d in dom], S[rng])
        return self.uf[key]

    def schema(self, decl, fn):
        self.schemas.setdefault(decl.name(), []).append(fn)

    def intdiv(self, a, b):
        """a // b for integers, b >= 1"""
        if not T.isz3(b):
            return T.floordiv(a, b)
        qr = T.polydiv(a, b)
        if qr is not None and (qr[1] == 0 if not T.isz3(qr[1]) else self.prove(z3.And(qr[1] >= 0, qr[1] < T.to_z3(b)))):
            return qr[0]
        if qr is not None and not T.isz3(qr[1]) and self.prove(T.land(T.ge(qr[1], 0), T.lt(qr[1], b))):
            return qr[0]
        f = self.func('intdiv', 'ii', 'i')
        if not self.schemas.get('intdiv'):
            self.schema(f, lambda x: [z3.Implies(x[1] >= 1, z3.And(f(x[0], x[1]) * x[1] <= x[0], x[0] < f(x[0], x[1]) * x[1] + x[1])),
                                      z3.Implies(z3.And(x[1] >= 1, x[0] >= 0), z3.And(f(x[0], x[1]) >= 0, f(x[0], x[1]) <= x[0]))])
        return f(T.to_z3(a), T.to_z3(b))

    # -- facts -----------------------------------------------------------
    def assume(self, f):
        f = T.simp(f) if T.isz3(f) and z3.is_app(f) and f.num_args() < 6 else T.fold(f)
        if f is True:
            return
        if f is False:
            raise Infeasible()
        self.pc.append(f)
        self.keep.append(f)
        self.pch.append(hash((self.pch[-1], f.get_id())))
        self.solver.add(f)

    def axiom(self, f):
        f = T.fold(f)
        if f is True:
            return
        f = T.to_z3(f)
        self.axioms.append(f)
        self.solver.add(f)

    def push(self):
        self.solver.push()
        self._axmarks.append(len(self.axioms))
        return len(self.pc)

    def pop(self, n):
        self.solver.pop()
        a = self._axmarks.pop()
        for f in self.axioms[a:]:
            self.solver.add(f)
        del self.pc[n:]
        del self.pch[n + 1:]

    def check_time(self):
        if self.deadline and time.time() > self.deadline:
            raise Unsupported('time budget of this function used up')

    def _quick(self, f):
        """sat / unsat / unknown of pc and f (cheap)"""
        f = T.fold(f)
        if f is True or f is False:
            return z3.sat if f else z3.unsat
        key = (self.pch[-1], len(self.pc), f.get_id(), self.coarse)
        r = self.proved_cache.get(key)
        if r is None:
            self.check_time()
            r = self.solver.check(f)
            if not self.coarse and (r == z3.unknown or (r == z3.sat and self.schemas and self._has_schema(f))):
                r2 = self._schema_quick(f)
                r = r2 if r2 == z3.unsat else r
            self.keep.append(f)
            self.proved_cache[key] = r
        return r

    def _has_schema(self, f):
        for t in subterms([f]):
            if z3.is_app(t) and t.num_args() > 0 and t.decl().name() in self.schemas:
                return True
        return False

    def _schema_quick(self, f):
        from .solve import instantiate
        facts = self.pc + self.axioms + [f]
        ax = instantiate(facts, self.schemas, self.sums, rounds=1)
        s = z3.Solver()
        s.set('timeout', 800)
        s.add(*facts)
        s.add(*ax)
        return s.check()

    def prove(self, goal):
        """cheap entailment test used while executing"""
        goal = T.fold(goal)
        if isinstance(goal, bool):
            return goal
        return self._quick(z3.Not(goal)) == z3.unsat

    def feasible(self, f):
        return self._quick(f) != z3.unsat

    # -- forking ---------------------------------------------------------
    def decide(self, n, label=''):
        """nondeterministic choice 0..n-1; explores every alternative"""
        st = self.sub if self.sub is not None else self
        pos = len(st.trace)
        if pos > self.MAX_DECISIONS:
            raise Unsupported('too many branches')
        cov = getattr(st, 'cover', None)
        if cov is not None:
            occ = sum(1 for x in st.cover_keys if x[:2] == (self.loc, label))
            ck = (self.loc, label, min(occ, 3))
        if pos < len(st.prefix):
            d = st.prefix[pos]
        else:
            d = 0
            for alt in range(n - 1, 0, -1):
                if cov is None:
                    st.pending.append(list(st.trace) + [alt])
                elif ck + (alt,) not in cov:
                    st.pending.append((list(st.trace) + [alt], ck + (alt,)))
        if cov is not None:
            st.cover_keys.append(ck + (d,))
        st.trace.append(d)
        return d

    def branch(self, cond, label=''):
        """Python truth of a boolean scalar on this path"""
        cond = T.simp(cond) if T.isz3(cond) else cond
        if isinstance(cond, bool):
            return cond
        cs = self.coarse
        self.coarse = self.sub is not None and self.sub.cover is not None   # looking for the modified set: more paths do no harm
        try:
            t = self.feasible(cond)
            f = self.feasible(z3.Not(cond))
        finally:
            self.coarse = cs
        if not t and not f:
            raise Infeasible()
        if t and not f:
            return True
        if f and not t:
            return False
        d = self.decide(2, label)
        if d == 0:
            self.assume(cond)
            return True
        self.assume(z3.Not(cond))
        return False

    # -- obligations -----------------------------------------------------
    def oblige(self, goal, name, kind='post'):
        if self.quiet:
            return
        goal = T.fold(goal)
        path = list(self.trace)
        o = Obligation(name, kind, list(self.pc), goal, self.loc, path, self.schemas)
        o.sums = self.sums
        o.ctx = self
        o.axioms = self.axioms
        self.obls.append(o)

    # -- trail -----------------------------------------------------------
    def log(self, key, undo):
        self.trail.append((key, undo))

    def mark(self):
        return len(self.trail)

    def rollback(self, m):
        while len(self.trail) > m:
            _, undo = self.trail.pop()
            undo()

    # -- mathematical helpers -------------------------------------------
    def get_pi(self):
        if self.pi is None:
            self.pi = z3.Real('pi')
            self.axiom(z3.And(self.pi > z3.RealVal('3.14159265'), self.pi < z3.RealVal('3.14159266')))
        return self.pi

    def sqrt(self, a):
        a = T.to_real(a)
        if isinstance(a, Fraction):
            import math
            if a >= 0:
                n, d = math.isqrt(a.numerator), math.isqrt(a.denominator)
                if n * n == a.numerator and d * d == a.denominator:
                    return Fraction(n, d)
        f = self.func('sqrt', 'f', 'f')
        if 'sqrt' not in self.schemas:
            self.schema(f, lambda args: [z3.Implies(args[0] >= 0, z3.And(f(args[0]) >= 0, f(args[0]) * f(args[0]) == args[0]))])
        return f(T.to_z3(a))

    def absv(self, a):
        if T.is_cx(a):
            return self.hypot(a.re, a.im)
        return T.absv(a)

    def hypot(self, a, b):
        """modulus of a + i b"""
        a, b = T.to_real(a), T.to_real(b)
        if T._is0(b):
            return T.absv(a)
        if T._is0(a):
            return T.absv(b)
        if not T.isz3(a) and not T.isz3(b):
            return self.sqrt(T.add(T.mul(a, a), T.mul(b, b)))
        f = self.func('cabs', 'ff', 'f')
        if not self.schemas.get('cabs'):
            self.schema(f, lambda x: [f(*x) >= 0, f(*x) >= x[0], f(*x) >= -x[0], f(*x) >= x[1], f(*x) >= -x[1],
                                      f(*x) * f(*x) == x[0] * x[0] + x[1] * x[1], z3.Or(f(*x) <= x[0] + x[1], f(*x) <= x[0] - x[1],
                                                                                       f(*x) <= x[1] - x[0], f(*x) <= -x[0] - x[1])])
        return f(T.to_z3(a), T.to_z3(b))

    def trig(self, name, a):
        c, s = self.func('cos', 'f', 'f'), self.func('sin', 'f', 'f')
        if 'cos' not in self.schemas:
            ax = lambda args: [c(args[0]) * c(args[0]) + s(args[0]) * s(args[0]) == 1]
            self.schema(c, ax)
            self.schema(s, ax)
        a = T.to_real(a)
        if T._is0(a):
            return Fraction(1) if name == 'cos' else Fraction(0)
        a = z3.simplify(T.to_z3(a), som=True)
        return (c if name == 'cos' else s)(a)

    def pow2(self, n):
        """2**n for an integer n"""
        if not T.isz3(n):
            return 2 ** n if n >= 0 else Fraction(1, 2 ** -n)
        f = self.func('pow2', 'i', 'f')
        if 'pow2' not in self.schemas:
            def ax(args):
                k = args[0]
                out = [f(k) > 0, f(k + 1) == 2 * f(k), z3.Implies(k >= 0, f(k) >= k + 1), z3.Implies(k == 0, f(k) == 1),
                       z3.Implies(k >= 0, z3.ToReal(z3.ToInt(f(k))) == f(k))]
                return out
            self.schema(f, ax)
        return f(n)

    def rpow2(self, y):
        """2**y for a real y: increasing, integer at non-negative integers, factor sqrt 2 per half"""
        if not T.isz3(y) and y.denominator == 1:
            return T.to_real(self.pow2(int(y)))
        f = self.func('rpow2', 'f', 'f')
        if 'rpow2' not in self.schemas:
            seen = []

            def ax(args):
                a, = args
                F = z3.RealVal
                out = [f(a) > 0, z3.Implies(z3.And(a >= 0, a == z3.ToReal(z3.ToInt(a))), f(a) == z3.ToReal(z3.ToInt(f(a)))),
                       z3.Implies(a >= 0, f(a) >= 1), z3.Implies(a >= 1, f(a) >= 2), z3.Implies(a >= 4, f(a) >= 16), z3.Implies(a <= 4, f(a) <= 16)]
                for b in seen:
                    for u, v in ((a, b), (b, a)):
                        out += [z3.Implies(u <= v, f(u) <= f(v)), z3.Implies(u < v, f(u) < f(v)),
                                z3.Implies(v >= u + F('1/2'), f(v) >= F('14/10') * f(u)), z3.Implies(v >= u + 1, f(v) >= 2 * f(u)),
                                z3.Implies(v <= u + 1, f(v) <= 2 * f(u))]
                seen.append(a)
                return out
            self.schema(f, ax)
        return f(T.to_z3(y))

    def log2(self, x):
        f = self.func('log2', 'f', 'f')
        self.rpow2(z3.Real('_l'))
        g = self.func('rpow2', 'f', 'f')
        if 'log2' not in self.schemas:
            self.schema(f, lambda a: [z3.Implies(a[0] > 0, g(f(a[0])) == a[0]), z3.Implies(a[0] >= 1, f(a[0]) >= 0),
                                      z3.Implies(a[0] >= 2, f(a[0]) >= 1), z3.Implies(a[0] >= 16, f(a[0]) >= 4)])
        return f(T.to_z3(x))

    def prod(self, n, el):
        """el(0) ... el(n-1)"""
        z = el(z3.Int('_pr'))
        if T.is_cx(z):
            if not T._is0(z.im):
                raise Unsupported('product of complex numbers')
            return Cx(self.prod(n, lambda i: el(i).re), Fraction(0))
        real = not (T.is_int(z) or T.is_bool(z))
        tz = (lambda v: T.to_z3(T.to_real(v))) if real else (lambda v: T.to_z3(T.to_int(v)))
        key = (real, T.simp(tz(z)).sexpr() if T.isz3(tz(z)) else str(z))
        if key not in self.prods:
            self.counter += 1
            nm = 'prod!%d' % self.counter
            f = self.func(nm, 'i', 'f' if real else 'i')
            self.schema(f, lambda q: [z3.Implies(q[0] <= 0, f(q[0]) == 1), z3.Implies(q[0] > 0, f(q[0]) == f(q[0] - 1) * tz(el(q[0] - 1)))])
            self.prods[key] = f
        return self.prods[key](T.to_z3(n))

    def powi(self, base, n):
        """base ** n with integer n"""
        if not T.isz3(n):
            n = int(n)
            if n < 0:
                return T.div(1, self.powi(base, -n))
            r = 1 if T.is_int(base) or T.is_bool(base) else (Fraction(1) if not T.is_cx(base) else Cx(Fraction(1), Fraction(0)))
            for _ in range(n):
                r = T.mul(r, base)
            return r
        if T._is1(base):
            return base
        if not T.isz3(base) and not T.is_cx(base) and base == -1:
            r = T.ite(T.eq(T.mod(n, 2), 0), 1, -1)
            return r if T.is_int(base) else T.to_real(r)
        if T.is_cx(base) and T._is0(base.im) and not T.isz3(base.re) and base.re == -1:
            return Cx(T.to_real(T.ite(T.eq(T.mod(n, 2), 0), 1, -1)), Fraction(0))
        if not T.isz3(base) and base == 2:
            return self.pow2(n)
        if T.is_cx(base):
            re, im = T.to_z3(base.re), T.to_z3(base.im)
            fr = self.func('cpow.re', 'ffi', 'f')
            fi = self.func('cpow.im', 'ffi', 'f')
            if 'cpow.re' not in self.schemas:
                def ax(args):
                    a, b, k = args
                    o = [z3.Implies(k == 0, z3.And(fr(a, b, k) == 1, fi(a, b, k) == 0)),
                         z3.Implies(k == 1, z3.And(fr(a, b, k) == a, fi(a, b, k) == b)),
                         z3.Implies(k >= 1, z3.And(fr(a, b, k) == fr(a, b, k - 1) * a - fi(a, b, k - 1) * b,
                                                   fi(a, b, k) == fr(a, b, k - 1) * b + fi(a, b, k - 1) * a))]
                    return o
                self.schema(fr, ax)
                self.schema(fi, ax)
            return Cx(fr(re, im, T.to_z3(n)), fi(re, im, T.to_z3(n)))
        f = self.func('powr', 'fi', 'f')
        if 'powr' not in self.schemas:
            def ax(args):
                b, k = args
                return [z3.Implies(k == 0, f(b, k) == 1), z3.Implies(k == 1, f(b, k) == b),
                        z3.Implies(k >= 1, f(b, k) == f(b, k - 1) * b),
                        z3.Implies(b > 0, f(b, k) > 0), z3.Implies(z3.And(b > 1, k >= 1), f(b, k) > 1),
                        z3.Implies(z3.And(b > 0, b < 1, k >= 1), f(b, k) < 1)]
            self.schema(f, ax)
        return f(T.to_z3(T.to_real(base)), T.to_z3(n))

    # -- finite sums -----------------------------------------------------
    def Sum(self, lo, hi, body, k='f'):
        """sum over lo <= j <= hi of body(j); body may be complex"""
        if not T.isz3(lo) and not T.isz3(hi) and hi - lo < 12:
            r = Fraction(0)
            for j in range(lo, hi + 1):
                r = T.add(r, body(j))
            return r
        d = getattr(self, '_sumdepth', 0)
        self._sumdepth = d + 1
        try:
            b = z3.Int('_k%d' % d)
            t = body(b)
        finally:
            self._sumdepth = d
        if T.is_cx(t):
            return Cx(self._sum1(lo, hi, t.re, b), self._sum1(lo, hi, t.im, b))
        return self._sum1(lo, hi, t, b)

    def _sum1(self, lo, hi, t, b):
        t = T.to_real(t)
        cnt = T.maxv(T.add(T.sub(hi, lo), 1), 0)
        if not T.isz3(t):
            return T.mul(t, T.to_real(cnt))
        t = z3.simplify(t)
        if not contains(t, b):
            return T.mul(T.fold(t), T.to_real(cnt))
        if z3.is_add(t):
            r = Fraction(0)
            for c in t.children():
                r = T.add(r, self._sum1(lo, hi, T.fold(c), b))
            return r
        if z3.is_mul(t):
            free = [c for c in t.children() if not contains(c, b)]
            bound = [c for c in t.children() if contains(c, b)]
            if free and bound:
                m = bound[0]
                for c in bound[1:]:
                    m = m * c
                r = self._sum1(lo, hi, m, b)
                for c in free:
                    r = T.mul(T.fold(c), r)
                return r
            # a factor with a constant denominator: divide the sum instead
            for i, c in enumerate(bound):
                if z3.is_app(c) and c.decl().kind() == z3.Z3_OP_DIV and not contains(c.arg(1), b):
                    m = c.arg(0)
                    for j, x in enumerate(bound):
                        if j != i:
                            m = m * x
                    return T.to_z3(T.to_real(self._sum1(lo, hi, T.fold(m), b))) / c.arg(1)
            # distribute over a sum with terms that have a constant factor
            adds = [c for c in bound if z3.is_add(c) and c.num_args() <= 4 and any(constant_factor(x, b) for x in c.children())]
            if adds and len(bound) <= 4:
                rest = [c for c in bound if not c.eq(adds[0])]
                if len(rest) == len(bound) - 1:
                    r = Fraction(0)
                    for x in adds[0].children():
                        for c in rest:
                            x = c * x
                        r = T.add(r, self._sum1(lo, hi, T.fold(x), b))
                    return r
        if t.decl().kind() == z3.Z3_OP_DIV and not contains(t.arg(1), b):
            return T.to_z3(T.to_real(self._sum1(lo, hi, T.fold(t.arg(0)), b))) / t.arg(1)
        lo_, hi_ = T.to_z3(lo), T.to_z3(hi)
        slo, shi = z3.simplify(lo_), z3.simplify(hi_)       # kept below: identifiers of dead terms are used again
        key = (slo.get_id(), shi.get_id(), t.get_id())
        if key in self.sumdedup:
            return self.sumdedup[key].const
        self.counter += 1
        c = z3.Real('sum!%d' % self.counter)
        outer = bound_consts((t, lo_, hi_), b)
        if outer:
            # the sum depends on an enclosing bound variable: a function of it, with its definition at every argument
            f = z3.Function('sum!%d' % self.counter, *[z3.IntSort()] * len(outer), z3.RealSort())
            c = f(*outer)

            def define(args, f=f, lo=lo, hi=hi, t=t, b=b, outer=outer):
                sub = lambda x: T.fold(z3.substitute(T.to_z3(x), *list(zip(outer, args))))
                return [f(*args) == T.to_z3(T.to_real(self._sum1(sub(lo), sub(hi), sub(t), b)))]
            self.schema(f, define)
        e = SumEntry(c, lo_, hi_, t, b)
        self.keep.extend([slo, shi, t])
        self.sumdedup[key] = e
        self.sums[c.decl().name()] = e
        return c


def bound_consts(ts, b):
    out = {}
    for t in subterms(ts):
        if z3.is_const(t) and t.decl().kind() == z3.Z3_OP_UNINTERPRETED and z3.is_int(t):
            n = t.decl().name()
            if n[:2] in ('_k', '_q') and n != b.decl().name() or n == '_pr':
                out[n] = t
    return [out[n] for n in sorted(out)]


def constant_factor(t, b):
    if not contains(t, b):
        return True
    if z3.is_mul(t):
        return any(not z3.is_rational_value(c) and constant_factor(c, b) for c in t.children())
    return z3.is_app(t) and t.decl().kind() == z3.Z3_OP_DIV and not contains(t.arg(1), b)


def subterms(ts):
    seen = set()
    stack = list(ts)
    while stack:
        t = stack.pop()
        if not z3.is_expr(t):
            continue
        i = t.get_id()
        if i in seen:
            continue
        seen.add(i)
        yield t
        if z3.is_app(t):
            stack.extend(t.children())


def contains(t, v):
    i = v.get_id()
    for s in subterms([t]):
        if s.get_id() == i:
            return True
    return False


def contains_const(t, name):
    for s in subterms([t]):
        if z3.is_const(s) and s.decl().kind() == z3.Z3_OP_UNINTERPRETED and s.decl().name() == name:
            return True
    return False


def _triggers(t, q):
    """uninterpreted applications in t that have q (or q + const) as an argument: [(decl, pos, inverse)]"""
    out = []
    for s in subterms([t]):
        if z3.is_app(s) and s.num_args() > 0 and s.decl().kind() == z3.Z3_OP_UNINTERPRETED:
            for p, a in enumerate(s.children()):
                if not z3.is_int(a) or not contains(a, q):
                    continue
                d = z3.simplify(a - q)
                if not contains(d, q):
                    out.append((s, p, lambda x, d=d: z3.simplify(x - d)))
                    continue
                d = z3.simplify(a + q)
                if not contains(d, q):
                    out.append((s, p, lambda x, d=d: z3.simplify(d - x)))
    return out


def _triggers_n(t, qs):
    """applications in t whose arguments are exactly q_i (+ constant) for all bound variables"""
    out = []
    for s in subterms([t]):
        if not (z3.is_app(s) and s.num_args() > 0 and s.decl().kind() == z3.Z3_OP_UNINTERPRETED):
            continue
        binds = []
        for q in qs:
            hit = None
            for p, a in enumerate(s.children()):
                if not z3.is_int(a) or not contains(a, q) or any(contains(a, r) for r in qs if not r.eq(q)):
                    continue
                d = z3.simplify(a - q)
                if not contains(d, q):
                    hit = (p, lambda x, d=d: z3.simplify(x - d))
                    break
                d = z3.simplify(a + q)
                if not contains(d, q):
                    hit = (p, lambda x, d=d: z3.simplify(d - x))
                    break
            if hit is None:
                break
            binds.append(hit)
        else:
            out.append((s, binds))
    return out


def _forall(self, n, body, lo=0, extra=(), guarded=False):
    """universally quantified fact: for lo <= q < n: body(q); instantiated at matching ground terms.
    n (and lo) may be tuples: several bound variables."""
    multi = isinstance(n, tuple)
    ns = n if multi else (n,)
    los = lo if isinstance(lo, tuple) else (lo,) * len(ns)
    qs = []
    for _ in ns:
        self.counter += 1
        qs.append(z3.Int('_q%d' % self.counter))
    t = body(*qs)
    t = T.fold(t)
    if t is True:
        return
    t = T.to_z3(t)
    rng = T.land(*[T.land(T.le(l, q), T.lt(q, m)) for l, q, m in zip(los, qs, ns)])
    fact = T.to_z3(T.implies(rng, t))
    if guarded:                 # valid on the current path only
        g = z3.Bool('guard!%d' % self.counter)
        self.assume(g)
        fact = z3.Implies(g, fact)
    self.keep.append(fact)
    trig = _triggers_n(t, qs)
    seen = set()
    for (app, binds) in trig:
        sapp = z3.simplify(app)
        self.keep.append(sapp)
        key = (app.decl().name(), tuple(sapp.children()[p].get_id() for p, _ in binds))
        if key in seen:
            continue
        seen.add(key)

        def ax(args, binds=binds, fact=fact, qs=qs):
            return [z3.substitute(fact, *[(q, inv(args[p])) for q, (p, inv) in zip(qs, binds)])]
        self.schemas.setdefault(app.decl().name(), []).append(ax)
    for d, pos in extra:
        def ax2(args, pos=pos, fact=fact, q=qs[0]):
            return [z3.substitute(fact, (q, args[pos]))]
        self.schemas.setdefault(d, []).append(ax2)
    return fact, qs


def _bodykey(self, ns, el, tag):
    qs = [z3.Int('_qb%d' % i if i else '_qb') for i in range(len(ns))]
    t = el(*qs)
    if T.is_cx(t):
        return None, t
    t = T.to_z3(t) if not T.isz3(t) else t
    t = z3.simplify(t)
    self.keep.append(t)
    ids = []
    for n in ns:
        nn = z3.simplify(T.to_z3(n))
        self.keep.append(nn)
        ids.append(nn.get_id())
    return (tag, tuple(ids), t.get_id()), t


def _witness(self, name, ns):
    ws = [self.fresh(name, 'int') for _ in ns]
    return ws, z3.And(*[z3.And(w >= 0, w < T.to_z3(n)) for w, n in zip(ws, ns)])


def _extremum(self, name, n, el):
    """n: a length or a tuple of them, el: element at an index of that many places"""
    ns = n if isinstance(n, tuple) else (n,)
    key, t = _bodykey(self, ns, el, name)
    tab = self.__dict__.setdefault('_extab', {})
    if key in tab:
        return tab[key]
    m = self.fresh(name, 'int' if T.kind(t) == 'i' else 'real')
    ws, rng = _witness(self, 'arg' + name, ns)
    self.axiom(z3.Implies(z3.And(*[T.to_z3(k) > 0 for k in ns]), z3.And(rng, T.to_z3(T.eq(el(*ws), m)))))
    self.forall(n, (lambda *i: T.le(el(*i), m)) if name == 'max' else (lambda *i: T.ge(el(*i), m)))
    tab[key] = m
    if not isinstance(n, tuple):
        tab[('arg',) + key] = ws[0]
    return m


def _quant(self, name, n, el):
    ns = n if isinstance(n, tuple) else (n,)
    key, _ = _bodykey(self, ns, el, name)
    tab = self.__dict__.setdefault('_extab', {})
    if key in tab:
        return tab[key]
    b = self.fresh(name, 'bool')
    ws, rng = _witness(self, 'wit' + name, ns)
    p = T.to_z3(el(*ws))
    if name == 'all':
        self.axiom(z3.Or(b, z3.And(rng, z3.Not(p))))
        self.forall(n, lambda *i: T.implies(b, el(*i)))
    else:
        self.axiom(z3.Or(z3.Not(b), z3.And(rng, p)))
        self.forall(n, lambda *i: T.implies(el(*i), b))
        for h in self.__dict__.get('hints', ()):
            if len(ns) == len(h):
                self.axiom(T.to_z3(T.implies(T.land(*[T.land(T.le(0, x), T.lt(x, m)) for x, m in zip(h, ns)], el(*h)), b)))
    tab[key] = b
    return b


Ctx.forall = _forall
Ctx._bodykey = _bodykey
Ctx.extremum = _extremum
Ctx.quant = _quant
