"""Equational reasoning over the reals: conditions are decided by the SMT solver on the integer and
boolean part of the facts, definitional instances are oriented into substitutions, and the goal is
reduced to a polynomial identity (checked by normal form)."""
from fractions import Fraction
import time
import z3

from . import terms as T
from .ctx import subterms


class Core:
    """decides integer / boolean conditions (and simple real ones) from the facts"""

    def __init__(self, facts, deadline):
        self.deadline = deadline
        self.s = z3.Solver()
        self.s.set('timeout', 300)
        self.full = list(facts)
        core = [f for f in facts if self.simple(f)]
        self.s.add(*core)
        self.cache = {}
        self.model = None
        self.keep = []
        if self.s.check() == z3.sat:
            self.model = self.s.model()

    @staticmethod
    def simple(f):
        """no nonlinear real arithmetic"""
        for t in subterms([f]):
            if z3.is_app(t):
                k = t.decl().kind()
                if k == z3.Z3_OP_MUL and z3.is_real(t):
                    if sum(1 for c in t.children() if not z3.is_rational_value(c)) > 1:
                        return False
                if k == z3.Z3_OP_DIV and not z3.is_rational_value(t.children()[1]):
                    return False
        return True

    def add(self, f):
        if self.simple(f):
            self.s.add(f)
        self.full.append(f)
        self.cache = {}

    def decide(self, c):
        """True / False / None"""
        c = z3.simplify(c)
        if z3.is_true(c):
            return True
        if z3.is_false(c):
            return False
        i = c.get_id()
        if i in self.cache:
            return self.cache[i]
        self.keep.append(c)
        r = None
        if time.time() < self.deadline:
            v = self.model.eval(c, model_completion=True) if self.model is not None else None
            try_true = v is None or not z3.is_false(v)
            try_false = v is None or not z3.is_true(v)
            if try_true and self.s.check(z3.Not(c)) == z3.unsat:
                r = True
            elif try_false and self.s.check(c) == z3.unsat:
                r = False
        self.cache[i] = r
        return r


def rebuild(t, ch):
    from .solve import rebuild as rb
    return rb(t, ch)


class Simplifier:
    """resolves if-then-else conditions and normalises function arguments"""

    def __init__(self, core):
        self.core = core
        self.cache = {}
        self.keep = []
        self.undecided = []

    def go(self, t):
        i = t.get_id()
        if i in self.cache:
            return self.cache[i]
        self.keep.append(t)
        if not z3.is_app(t) or t.num_args() == 0:
            r = t
        elif t.decl().kind() == z3.Z3_OP_ITE:
            c = self.go(t.children()[0])
            d = self.core.decide(c)
            if d is True:
                r = self.go(t.children()[1])
            elif d is False:
                r = self.go(t.children()[2])
            else:
                self.undecided.append(c)
                r = z3.If(c, self.go(t.children()[1]), self.go(t.children()[2]))
        else:
            ch = [self.go(c) for c in t.children()]
            if t.decl().kind() == z3.Z3_OP_UNINTERPRETED:
                ch = [z3.simplify(c, som=True) for c in ch]
            r = rebuild(t, ch) if any(not a.eq(b) for a, b in zip(ch, t.children())) else t
        self.cache[i] = r
        return r


# ------------------------------------------------------------------ polynomials: {monomial: Fraction}
class Polys:
    def __init__(self, core=None):
        self.core = core
        self.pair = {}
        self.atoms = {}
        self.rev = []
        self.invs = {}

    def atom(self, t):
        t = z3.simplify(t, som=True)
        i = t.get_id()
        if i not in self.atoms:
            self.atoms[i] = len(self.rev)
            self.rev.append(t)
        return self.atoms[i]

    def inverse(self, d, t):
        if len(d) == 1:
            (m, v), = d.items()
            out = []
            for a in m:
                i = self.inv_of((((a,), Fraction(1)),), z3.RealVal(1) / self.rev[a])
                if self.core is not None and i not in self.pair and self.core.decide(self.rev[a] != 0) is True:
                    self.pair[i] = a
                out.append(i)
            return {tuple(sorted(out)): 1 / v}
        if not d:
            return {(self.atom(z3.RealVal(1) / z3.simplify(t, som=True)),): Fraction(1)}
        lead = d[min(d)]
        key = tuple(sorted((m, v / lead) for m, v in d.items()))
        return {(self.inv_of(key, z3.RealVal(1) / (z3.simplify(t, som=True) / z3.simplify(T.to_z3(lead)))),): 1 / lead}

    def cancel(self, p):
        """x * (1 / x) = 1 for x known not to be zero"""
        if not any(i in m for m in p for i in self.pair):
            return p
        r = {}
        for m, v in p.items():
            m = list(m)
            for i in [x for x in m if x in self.pair]:
                if self.pair[i] in m:
                    m.remove(i)
                    m.remove(self.pair[i])
            addto(r, {tuple(m): v})
        return r

    def inv_of(self, key, term):
        if key not in self.invs:
            self.invs[key] = self.atom(term)
        return self.invs[key]

    def of(self, t, unify=None, depth=0):
        if z3.is_rational_value(t) or z3.is_int_value(t):
            v = Fraction(t.numerator_as_long(), t.denominator_as_long()) if z3.is_rational_value(t) else Fraction(t.as_long())
            return {(): v} if v else {}
        k = t.decl().kind()
        ch = t.children()
        if k == z3.Z3_OP_ADD:
            r = {}
            for c in ch:
                addto(r, self.of(c, unify))
            return r
        if k == z3.Z3_OP_SUB:
            r = dict(self.of(ch[0], unify))
            for c in ch[1:]:
                addto(r, self.of(c, unify), -1)
            return r
        if k == z3.Z3_OP_UMINUS:
            return {m: -v for m, v in self.of(ch[0], unify).items()}
        if k == z3.Z3_OP_MUL:
            r = {(): Fraction(1)}
            for c in ch:
                r = mul(r, self.of(c, unify))
            return self.cancel(r)
        if k == z3.Z3_OP_DIV:
            d = self.of(ch[1], unify)
            if len(d) == 1 and () in d:
                return {m: v / d[()] for m, v in self.of(ch[0], unify).items()}
            # a / b = a * inv(b), a product inverted factor by factor (denominators are not zero: an obligation where they arise)
            return self.cancel(mul(self.of(ch[0], unify), self.inverse(d, ch[1])))
        if k == z3.Z3_OP_POWER and z3.is_int_value(ch[1]) or k == z3.Z3_OP_POWER and z3.is_rational_value(ch[1]):
            e = T.fold(ch[1])
            if e == int(e) and 0 <= e <= 8:
                r = {(): Fraction(1)}
                for _ in range(int(e)):
                    r = mul(r, self.of(ch[0], unify))
                return r
        if k == z3.Z3_OP_TO_REAL:
            c = ch[0]
            if z3.is_app(c) and c.decl().kind() in (z3.Z3_OP_ADD, z3.Z3_OP_SUB, z3.Z3_OP_UMINUS, z3.Z3_OP_MUL) or z3.is_int_value(c):
                return self.of(c, unify)
            return {(self.atom(t),): Fraction(1)}
        if z3.is_int(t):
            return {(self.atom(z3.ToReal(t)),): Fraction(1)}
        u = unify(t) if unify else t
        if u is not t and not u.eq(t):
            return self.of(u, unify)
        return {(self.atom(t),): Fraction(1)}


def addto(r, p, s=1):
    for m, v in p.items():
        x = r.get(m, 0) + s * v
        if x:
            r[m] = x
        else:
            r.pop(m, None)
    return r


def mul(p, q):
    r = {}
    for m, v in p.items():
        for n, w in q.items():
            k = tuple(sorted(m + n))
            x = r.get(k, 0) + v * w
            if x:
                r[k] = x
            else:
                r.pop(k, None)
    if len(r) > 3000:
        raise OverflowError
    return r


def subst(p, a, q):
    """replace atom a by polynomial q in p"""
    if not any(a in m for m in p):
        return p
    r = {}
    for m, v in p.items():
        if a not in m:
            addto(r, {m: v})
            continue
        rest = tuple(x for x in m if x != a)
        n = len(m) - len(rest)
        t = {rest: v}
        for _ in range(n):
            t = mul(t, q)
        addto(r, t)
    return r


def flatten(f, core, out, depth=0):
    """unit facts implied by f"""
    if depth > 6:
        return
    if z3.is_and(f):
        for c in f.children():
            flatten(c, core, out, depth + 1)
    elif z3.is_app(f) and f.decl().kind() == z3.Z3_OP_IMPLIES:
        a, b = f.children()
        if core.decide(a) is True:
            flatten(b, core, out, depth + 1)
    elif z3.is_or(f):
        rest = []
        for c in f.children():
            d = core.decide(c)
            if d is True:
                return
            if d is None:
                rest.append(c)
        if len(rest) == 1:
            flatten(rest[0], core, out, depth + 1)
    elif z3.is_app(f) and f.decl().kind() == z3.Z3_OP_ITE and z3.is_bool(f):
        c, a, b = f.children()
        d = core.decide(c)
        if d is True:
            flatten(a, core, out, depth + 1)
        elif d is False:
            flatten(b, core, out, depth + 1)
    elif z3.is_eq(f):
        out.append(f)


def prove(facts, goal, schemas, budget=4.0, rounds=5, depth=0, deadline=None):
    """True if the goal (an equality, possibly under an implication) follows by algebra"""
    from .solve import instantiate
    deadline = deadline or time.time() + budget
    facts = list(facts)
    while z3.is_app(goal) and goal.decl().kind() == z3.Z3_OP_IMPLIES:
        facts.append(goal.children()[0])
        goal = goal.children()[1]
    if z3.is_or(goal):
        # a or b: assume not a, prove b (for the only equality)
        eqs = [c for c in goal.children() if z3.is_eq(c) and z3.is_real(c.children()[0])]
        if len(eqs) == 1:
            for c in goal.children():
                if c is not eqs[0] and not c.eq(eqs[0]):
                    facts.append(z3.Not(c))
            goal = eqs[0]
    if z3.is_app(goal) and goal.decl().kind() == z3.Z3_OP_ITE and z3.is_bool(goal):
        c, a, b = goal.children()
        return prove(facts + [c], a, schemas, budget, rounds, depth + 1, deadline) and \
            prove(facts + [z3.Not(c)], b, schemas, budget, rounds, depth + 1, deadline)
    if not (z3.is_eq(goal) and z3.is_real(goal.children()[0])):
        return False
    if depth > 5 or time.time() > deadline:
        return False
    core = Core(facts, deadline)
    if core.model is None and core.s.check() == z3.unsat:
        return True
    sm = Simplifier(core)
    g = sm.go(goal)
    und = list(sm.undecided)
    if und and depth < 5:
        # split on the first undecided condition of the goal
        c = min(und, key=lambda t: len(str(t)) if len(und) < 6 else 0)
        return all(prove(facts + [x], goal, schemas, budget, rounds, depth + 1, deadline) for x in (c, z3.Not(c)))
    fs = [sm.go(f) for f in facts]
    # instantiate definitions in rounds, resolving conditions as they come
    units = []
    for f in fs:
        flatten(f, core, units)
    work = [g] + [u for u in units if z3.is_real(u.children()[0])]
    done = set()
    keepalive = []
    for r in range(rounds):
        new = []
        for t in subterms(work):
            if not z3.is_app(t) or t.num_args() == 0:
                continue
            n = t.decl().name()
            if n not in schemas or t.get_id() in done:
                continue
            from .solve import has_bound
            if any(has_bound(a) for a in t.children()):
                continue
            done.add(t.get_id())
            keepalive.append(t)
            for fn in schemas[n]:
                for f in fn(t.children()):
                    f = T.fold(f)
                    if f is True or f is False:
                        continue
                    f = sm.go(T.to_z3(f))
                    u = []
                    flatten(f, core, u)
                    new += u
            if time.time() > deadline:
                return False
        units += new
        if attempt(core, units, g, deadline):
            return True
        if not new or len(units) > 600:
            break
        work = new
    # real conditions inside the remaining facts are left to the SMT solver
    return False


def attempt(core, units, g, deadline):
    # unify applications whose arguments are provably equal
    apps = {}
    rep = {}
    keep = []
    for t in subterms([g] + units):
        if z3.is_app(t) and t.num_args() > 0 and t.decl().kind() == z3.Z3_OP_UNINTERPRETED:
            apps.setdefault(t.decl().name(), []).append(t)
    for n, ts in apps.items():
        groups = {}
        for t in sorted(ts, key=lambda t: len(str(t))):
            key = None
            if core.model is not None:
                key = tuple(str(core.model.eval(a, model_completion=True)) if z3.is_int(a) else '' for a in t.children())
            hit = None
            for u in groups.get(key, []):
                if t.eq(u):
                    hit = u
                    break
                eqs = []
                for a, b in zip(t.children(), u.children()):
                    if not a.eq(b):
                        eqs.append(a == b)
                if all(core.decide(e) is True for e in eqs):
                    hit = u
                    break
            if hit is not None:
                rep[t.get_id()] = hit
                keep.append(t)
            else:
                groups.setdefault(key, []).append(t)
            if time.time() > deadline:
                return False

    def unify(t):
        return rep.get(t.get_id(), t)
    P = Polys(core)
    try:
        gp = addto(dict(P.of(g.children()[0], unify)), P.of(g.children()[1], unify), -1)
        if not gp:
            return True
        eqs = []
        for u in units:
            l, r = u.children()
            if not z3.is_arith(l):
                continue
            if any(T_.decl().kind() == z3.Z3_OP_ITE for T_ in subterms([u]) if z3.is_app(T_)):
                pass
            p = addto(dict(P.of(l, unify)), P.of(r, unify), -1)
            first = None
            if z3.is_app(l) and l.decl().kind() == z3.Z3_OP_UNINTERPRETED:
                q = P.of(l, unify)
                if len(q) == 1:
                    (m, v), = q.items()
                    if len(m) == 1:
                        first = m[0]
            if p:
                eqs.append((p, first))
        # elimination
        i = 0
        while eqs:
            if time.time() > deadline:
                return False
            # relevance: prefer equations mentioning atoms of the goal
            ga = {a for m in gp for a in m}
            best = None
            for j, (p, first) in enumerate(eqs):
                piv = pivot(p, first)
                if piv is None:
                    continue
                score = (0 if piv in ga else 1, len(p))
                if best is None or score < best[0]:
                    best = (score, j, piv)
            if best is None:
                break
            _, j, a = best
            p, _ = eqs.pop(j)
            co = p[(a,)]
            q = {m: -v / co for m, v in p.items() if m != (a,)}
            gp = P.cancel(subst(gp, a, q))
            if not gp:
                return True
            ne = []
            for (pp, ff) in eqs:
                pp = P.cancel(subst(pp, a, q))
                if pp:
                    if len(pp) == 1 and () in pp:
                        return True         # the facts are contradictory
                    ne.append((pp, ff if ff != a else None))
            eqs = ne
            i += 1
            if i > 300:
                break
        return not gp
    except OverflowError:
        return False


def pivot(p, first):
    def ok(a):
        return (a,) in p and sum(1 for m in p if a in m) == 1
    if first is not None and ok(first):
        return first
    for m in p:
        if len(m) == 1 and ok(m[0]):
            return m[0]
    return None
