"""pydv.core - path exploration, facts, obligations.

A proof harness is an ordinary Python function that builds symbolic inputs, calls the (instrumented) real code
and states obligations with `prove`.  It is re-executed once per path; `branch` decides a symbolic condition.
"""
import itertools
import os
import time
import z3

I = z3.IntSort()
R = z3.RealSort()
B = z3.BoolSort()


class Control(BaseException):
    """Engine control flow; never visible to the code under proof (`except:` handlers re-raise it)."""


class Unsupported(Control):
    """The code left the subset the engine understands: the obligation is undecided, never proved."""


class Infeasible(Control):
    """The current path has contradictory facts."""


class Obligation:
    __slots__ = ("name", "status", "detail", "time", "n", "backend", "model", "taint")

    def __init__(self, name):
        self.name = name
        self.status = "proved"
        self.detail = None
        self.time = 0.0
        self.n = 0
        self.backend = set()
        self.model = None
        self.taint = []


class Explorer:
    def __init__(self):
        self.trail = []   # [choice, forced]
        self.pos = 0

    def backtrack(self):
        while self.trail and (self.trail[-1][1] or not self.trail[-1][0]):
            self.trail.pop()
        if not self.trail:
            return False
        self.trail[-1][0] = False
        return True


MAX_PATHS = 600
MBQI_OFF = True


class Ctx:
    def __init__(self, timeout_ms=20000, deadline=None):
        self.facts = []          # quantifier-free facts
        self.qfacts = []         # universally quantified facts
        self.decisions = []      # (index into log) decision facts of the current exploration frame
        self.log = []            # list of (kind, fact) of innermost frame: kind in 'dec','fact','qfact'
        self.ex = None
        self.counter = itertools.count()
        self.cnt = 0
        self.ucnt = 0
        self.index_stack = []
        self.splits = []
        self.qcases = []
        self.mute = 0
        self.taint = []
        self.obligations = {}
        self.timeout_ms = timeout_ms
        self.deadline = deadline
        self.solver_time = 0.0
        self.n_queries = 0
        self.n_paths = 0
        self.n_loops = 0
        self.loops_closed = 0
        self.vacuity = 0
        self.solver = z3.Solver()
        self.solver.set("timeout", 3000)
        self.trace_calls = None
        self.inputs = {}
        self.replays = []
        self.live_frames = []    # locals getters of active instrumented loops

    # ---- facts
    def assume(self, f, kind="fact"):
        if isinstance(f, bool):
            if not f:
                raise Infeasible()
            return
        f = z3.simplify(f)
        if z3.is_true(f):
            return
        if z3.is_false(f):
            raise Infeasible()
        if _has_quant(f):
            self.qfacts.append(f)
            self.log.append(("q", f))
        else:
            self.facts.append(f)
            self.log.append((kind, f))
            self.solver.add(f)

    def assume_once(self, f, kind="fact"):
        f = z3.simplify(f)
        for g in (self.qfacts if _has_quant(f) else self.facts):
            if g.eq(f):
                return
        self.assume(f, kind)

    def push(self):
        self.solver.push()
        st = (len(self.facts), len(self.qfacts), self.log, self.cnt, list(self.taint))
        self.log = []
        return st

    def pop(self, st):
        self.solver.pop()
        nf, nq, log, cnt, taint = st
        del self.facts[nf:]
        del self.qfacts[nq:]
        inner = self.log
        self.log = log
        self.cnt = cnt
        self.taint = taint
        return inner

    def _check(self, f, timeout=None):
        if self.deadline and time.time() > self.deadline:
            raise Unsupported("time budget exhausted")
        t = time.time()
        self.n_queries += 1
        self.solver.push()
        self.solver.add(f)
        r = self.solver.check()
        self.solver.pop()
        self.solver_time += time.time() - t
        return r

    def entails(self, f):
        f = z3.simplify(f)
        if z3.is_true(f):
            return True
        if z3.is_false(f):
            return False
        if self._check(z3.Not(f)) == z3.unsat:
            return True
        return False

    def entails_q(self, f, timeout=3000):
        """entailment also with quantified facts and sum lemmas"""
        if self.entails(f):
            return True
        f = z3.simplify(f)
        if z3.is_false(f):
            return self.infeasible(timeout)
        from . import terms
        if terms.quick(f, self.entails):
            return True
        s = z3.Solver()
        s.set("timeout", timeout)
        fs = list(self.facts) + list(self.qfacts) + [z3.Not(f)]
        s.add(*fs)
        s.add(*terms.lemmas(fs))
        t = time.time()
        r = s.check()
        self.solver_time += time.time() - t
        self.n_queries += 1
        return r == z3.unsat

    def infeasible(self, timeout=2000):
        s = z3.Solver()
        s.set("timeout", timeout)
        s.add(*self.facts)
        s.add(*self.qfacts)
        return s.check() == z3.unsat

    def branch(self, c):
        if isinstance(c, bool):
            return c
        c = z3.simplify(c)
        if z3.is_true(c):
            return True
        if z3.is_false(c):
            return False
        ex = self.ex
        if ex is None:
            raise Unsupported("branch outside exploration")
        if ex.pos < len(ex.trail):
            choice, forced = ex.trail[ex.pos]
            ex.pos += 1
            self.assume(c if choice else z3.Not(c), "forced" if forced else "dec")
            return choice
        can_t = self._check(c) != z3.unsat
        can_f = self._check(z3.Not(c)) != z3.unsat
        if not can_t and not can_f:
            raise Infeasible()
        from . import terms
        if can_t and can_f and (self.qfacts or terms.AX):
            if self._check_q(c) == z3.unsat:
                can_t = False
            elif self._check_q(z3.Not(c)) == z3.unsat:
                can_f = False
        forced = not (can_t and can_f)
        choice = can_t
        ex.trail.append([choice, forced])
        ex.pos += 1
        self.assume(c if choice else z3.Not(c), "forced" if forced else "dec")
        return choice

    def _check_q(self, c):
        s = z3.SimpleSolver() if MBQI_OFF else z3.Solver()
        s.set("timeout", 1500)
        if MBQI_OFF:
            s.set("mbqi", False)
            s.set("auto_config", False)
        s.add(*self.facts)
        s.add(*self.qfacts)
        s.add(c)
        from . import terms
        s.add(*terms.axioms(list(self.facts) + list(self.qfacts) + [c]))
        self.n_queries += 1
        t = time.time()
        r = s.check()
        self.solver_time += time.time() - t
        return r

    def explore(self, fn, on_path):
        """Run fn() on all paths; on_path(kind, value, log) is called inside the path (before its facts are popped)."""
        saved = self.ex
        ex = Explorer()
        self.ex = ex
        n = 0
        top = self.cnt
        try:
            while True:
                ex.pos = 0
                st = self.push()
                try:
                    try:
                        v = fn()
                        on_path("ok", v)
                    except Infeasible:
                        pass
                finally:
                    top = max(top, self.cnt)
                    self.pop(st)
                n += 1
                self.n_paths += 1
                if n > MAX_PATHS:
                    raise Unsupported("too many paths")
                if not ex.backtrack():
                    break
        finally:
            self.ex = saved
            self.top = top
        return n

    # ---- fresh symbols (functions of the enclosing generic iterations)
    def fresh(self, name, sort):
        self.cnt += 1
        nm = "%s!%d" % (name, self.cnt)
        if not self.index_stack:
            return z3.Const(nm, sort)
        dom = [i.sort() for i in self.index_stack]
        return z3.Function(nm + "_" + str(len(dom)), *dom, sort)(*self.index_stack)

    def fresh_fun(self, name, dom, rng):
        """fresh function; returns a python callable on z3 terms"""
        self.cnt += 1
        nm = "%s!%d" % (name, self.cnt)
        stack = list(self.index_stack)
        f = z3.Function(nm + "_f%d" % len(stack), *([i.sort() for i in stack] + list(dom) + [rng]))
        return lambda *a: f(*(stack + [_z(x) for x in a]))

    def fresh_const(self, name, sort):
        """A genuinely new constant (skolem / generic index), not a function of the iteration"""
        self.ucnt += 1
        return z3.Const("%s!!%d" % (name, self.ucnt), sort)

    def unique_fun(self, name, dom, rng):
        """function whose name is never reused (may be cached in a value)"""
        self.ucnt += 1
        stack = list(self.index_stack)
        f = z3.Function("%s!!%d_f%d" % (name, self.ucnt, len(stack)), *([i.sort() for i in stack] + list(dom) + [rng]))
        return lambda *a: f(*(stack + [_z(x) for x in a]))

    # ---- obligations
    def undecided(self, name, why):
        """an obligation the engine cannot express for this code"""
        if self.mute:
            return
        ob = self.obligations.setdefault(name, Obligation(name))
        ob.n += 1
        if ob.status == "proved":
            ob.status = "unknown"
            ob.detail = why

    def prove(self, name, goal, extra=()):
        if self.mute:
            return
        ob = self.obligations.get(name)
        if ob is None:
            ob = self.obligations[name] = Obligation(name)
        ob.n += 1
        for t in self.taint:
            if t not in ob.taint:
                ob.taint.append(t)
        if isinstance(goal, bool):
            goal = z3.BoolVal(goal)
        from . import terms
        t0 = time.time()
        goal = z3.simplify(goal)
        if z3.is_true(goal):
            ob.backend.add("simplifier")
            return
        if self.field_goal(goal):
            ob.backend.add("field normalisation")
            ob.time += time.time() - t0
            return
        goal = self.sum_goal(goal) if ob.status == "proved" else goal
        if self.splits and not z3.is_true(goal):
            goal = z3.simplify(self.split_sums(goal))
        if not z3.is_true(goal) and ob.status == "proved" and terms.collect_sums([goal]):
            pos = [s >= 0 for s in terms.collect_sums([goal]) if self.sum_nonneg(s)]
            if pos and self.under(pos, lambda: self.entails(goal)):
                goal = z3.BoolVal(True)
        if z3.is_true(goal):
            ob.backend.add("z3")
            ob.time += time.time() - t0
            return
        fs = list(self.facts) + list(self.qfacts) + list(extra) + [z3.Not(goal)]
        again = ob.status != "proved"        # already not discharged on another path: no need to insist
        status, model, backend = terms.decide(fs, 2000 if again else self.timeout_ms, not again)
        dt = time.time() - t0
        self.solver_time += dt
        self.n_queries += 1
        ob.time += dt
        ob.backend.add(backend)
        if status == "unsat":
            return
        if status == "sat":
            if ob.status != "failed":
                ob.status = "failed"
                ob.model = self.render_model(model)
                ob.detail = "goal: " + str(goal)[:1500] + "\npath: " + "; ".join(str(f)[:160] for k, f in self.log if k == "dec")[:3000] \
                            + "\nmodel: " + str(model)[:3000]
        else:
            if ob.status == "proved":
                ob.status = "unknown"
                ob.detail = "goal: " + str(goal)[:1500]

    sum_ms = None

    def sum_goal(self, goal):
        """an equality of sums: by cases, and term by term over equal ranges"""
        from . import terms
        if not (z3.is_eq(goal) and z3.is_arith(goal.arg(0))) or not terms.collect_sums([goal]):
            return goal
        self.sum_left = None
        if self.sum_zero(goal.arg(0) - goal.arg(1)):
            return z3.BoolVal(True)
        return goal

    def under(self, hyps, fn):
        """fn() with more facts; a contradiction counts as success"""
        st = self.push()
        try:
            try:
                for h in hyps:
                    self.assume(h)
            except Infeasible:
                return True
            if self._check(z3.BoolVal(True)) == z3.unsat:
                return True
            return fn()
        finally:
            cnt = self.cnt
            self.pop(st)
            self.cnt = max(self.cnt, cnt)

    def sum_zero(self, d, depth=0):
        """d == 0 in the current context"""
        from . import terms
        d = self.split_sums(d)
        nl = _sum_products(d)
        d = z3.simplify(d) if nl else z3.simplify(d, som=True)
        zero = z3.IntVal(0) if z3.is_int(d) else z3.RealVal(0)
        if z3.is_int_value(d) or z3.is_rational_value(d):
            return z3.is_true(z3.simplify(d == zero)) or self.infeasible(self.sum_ms or 1500)
        if depth > 24:
            return False
        # cases
        cs = terms._ites(d, True)
        if nl and (not cs or all(terms.collect_sums([c]) for c in cs)):
            # products and quotients of sums: as the numerator of a fraction
            return self.sum_cases(d, depth, lambda x: self.sum_fraction(x, depth))
        if cs:
            c = min(cs, key=lambda c: bool(terms.collect_sums([c])))
            while z3.is_and(c) or z3.is_or(c) or z3.is_not(c):
                c = c.arg(0)
            qn = _has_quant(c)
            known = [v for c0, v in self.qcases if equivalent(c, c0)] if qn else []
            for val in (True, False):
                if known and known[0] != val or not qn and self.entails(z3.Not(c) if val else c):
                    continue          # the case does not occur
                dd = z3.substitute(d, (c, z3.BoolVal(val)))
                if val and z3.is_eq(c):
                    l, r = c.children()
                    for x, y in ((l, r), (r, l)):
                        if z3.is_const(x) and x.decl().kind() == z3.Z3_OP_UNINTERPRETED and not terms.occurs(y, x):
                            dd = z3.substitute(dd, (x, y))
                            break
                self.qcases.append((c, val))
                try:
                    if not self.under([c if val else z3.Not(c)], lambda: self.sum_zero(dd, depth + 1)):
                        return False
                finally:
                    self.qcases.pop()
            return True
        if not terms.collect_sums([d]):
            if self.qcases and _contradictory([c if v else z3.Not(c) for c, v in self.qcases]):
                return True
            return self.field_goal(z3.simplify(d == zero)) or self.entails_q(d == zero, self.sum_ms or self.timeout_ms // 2)
        mons = d.children() if z3.is_add(d) else [d]
        groups, rest = {}, []
        for m in mons:
            fs = m.children() if z3.is_mul(m) else [m]
            at = []
            for x in fs:
                y = x.arg(0) if z3.is_app(x) and x.decl().kind() == z3.Z3_OP_TO_REAL else x
                if z3.is_app(y) and y.decl().name() in terms._sums:
                    at.append((x, y))
            if len(at) == 1:
                co = [x for x in fs if x is not at[0][0]]
                groups.setdefault(at[0][1].arg(0).sexpr(), []).append((m, co, at[0][1]))
            else:
                rest.append(m)
        isr = z3.is_real(d)
        for g in groups.values():
            j = self.fresh_const("sj", I)
            body = None
            for m, co, s in g:
                b = terms.sum_body(s, j)
                b = z3.ToReal(b) if isr and z3.is_int(b) else b
                for x in co:
                    b = x * b
                body = b if body is None else body + b
            hyps, nq = [j >= 0, j < g[0][2].arg(0)], len(self.qcases)
            for f in list(self.qfacts):
                # loop facts at the generic index
                if z3.is_quantifier(f) and f.is_forall() and f.num_vars() == 1 and f.var_sort(0) == I and not _has_quant(f.body()):
                    hyps.append(z3.substitute_vars(f.body(), j))
            known = self.under(hyps[:2], lambda: [self.consequent(h) for h in hyps[2:]])
            if known is not True:
                hyps = hyps[:2] + known
            for T in terms.collect_sums([f for f in list(self.facts) + hyps if not _has_quant(f)]):
                # a count that is zero: its condition holds nowhere
                if terms.is_count(T) and T.arg(0).eq(g[0][2].arg(0)) and self.entails(T == 0):
                    c, a, b = terms.sum_body(T, j).children()
                    if a.as_long() != b.as_long():
                        v = a.as_long() == 0
                        hyps.append(c if v else z3.Not(c))
                        self.qcases.append((c, v))
            ok = self.under(hyps, lambda: self.sum_zero(body, depth + 1))
            del self.qcases[nq:]
            if not ok:
                rest += [m for m, co, s in g]
        if not rest:
            return True
        if len(rest) == len(mons) and depth and len(mons) > 1 and False:
            return False
        r = z3.simplify(z3.Sum(*rest) == zero)
        return self.entails_q(r, self.sum_ms or self.timeout_ms // 2)

    def consequent(self, h):
        """what is left of an implication whose premises hold"""
        h = z3.simplify(h)
        if z3.is_implies(h):
            return self.consequent(h.arg(1)) if self.entails(h.arg(0)) else h
        if z3.is_or(h):
            ds = [d for d in h.children() if not self.entails(z3.Not(d))]
            return h if len(ds) == h.num_args() else ds[0] if len(ds) == 1 else z3.Or(*ds)
        return h

    def sum_fraction(self, d, depth):
        from . import field
        n = field.numerator(d, self.entails_q)
        if n is None:
            return False
        if _sum_products(n):
            return self.entails_q(n == 0, self.sum_ms or self.timeout_ms // 2)
        return self.sum_zero(n, depth + 1)

    def sum_cases(self, d, depth, fn):
        """fn in every case of the conditionals of d"""
        from . import terms
        cs = terms._ites(d, True)
        if not cs:
            return fn(d)
        c = cs[0]
        if depth > 24:
            return False
        for val in (True, False):
            if self.entails_q(z3.Not(c) if val else c, 1000):
                continue
            dd = z3.simplify(z3.substitute(d, (c, z3.BoolVal(val))))
            if not self.under([c if val else z3.Not(c)], lambda: self.sum_cases(dd, depth + 1, fn)):
                return False
        return True

    def sum_nonneg(self, t, depth=0):
        """t >= 0 in the current context: numbers, cases, sums of such terms"""
        from . import terms
        t = z3.simplify(t)
        if z3.is_int_value(t) or z3.is_rational_value(t):
            return z3.is_true(z3.simplify(t >= 0))
        if depth > 6:
            return False
        if z3.is_add(t):
            return all(self.sum_nonneg(x, depth + 1) for x in t.children())
        if z3.is_app(t) and t.decl().kind() == z3.Z3_OP_TO_REAL:
            return self.sum_nonneg(t.arg(0), depth + 1)
        if z3.is_app(t) and t.decl().kind() == z3.Z3_OP_ITE:
            c, a, b = t.children()
            return self.under([c], lambda: self.sum_nonneg(a, depth + 1)) and self.under([z3.Not(c)], lambda: self.sum_nonneg(b, depth + 1))
        if z3.is_mul(t) and all(self.sum_nonneg(x, depth + 1) for x in t.children()):
            return True
        if z3.is_app(t) and t.decl().name() in terms._sums:
            j = self.fresh_const("sj", I)
            return self.under([j >= 0, j < t.arg(0)], lambda: self.sum_nonneg(terms.sum_body(t, j), depth + 1))
        return self.entails(t >= 0)

    def split_sums(self, t):
        """sums over the whole range of a loop that was split, as sums over its parts"""
        from . import terms
        for n, k0 in reversed(self.splits):
            pairs = []
            if not self.entails(z3.And(k0 >= 0, k0 < n)):
                continue
            for s in terms.collect_sums([t]):
                if s.arg(0).eq(n):
                    rest = z3.simplify(n - k0 - 1)
                    body = lambda j: terms.sum_body(s, j)
                    pairs.append((s, terms.mk_sum(k0, body) + body(k0) + terms.mk_sum(rest, lambda j: body(z3.simplify(j + k0 + 1)))))
            if pairs:
                t = z3.substitute(t, *pairs)
        return t

    def field_goal(self, goal):
        """an equality of real terms with products or quotients, tried by field normalisation first"""
        if not (z3.is_eq(goal) and z3.is_arith(goal.arg(0)) and _nonlinear(goal)):
            return False
        from . import field
        g = z3.simplify(field.resolve(goal, self.entails))
        if z3.is_true(g):
            return True
        if not (z3.is_eq(g) and z3.is_arith(g.arg(0))):
            return False
        return field.equal(g.arg(0), g.arg(1), self.entails_q)

    def render_model(self, model):
        out = {}
        for k, fn in self.inputs.items():
            try:
                out[k] = fn(model)
            except Exception as e:   # a value the model does not determine
                out[k] = "?"
        return out

    def cover(self, name):
        """vacuity guard: the current path must be satisfiable"""
        if self.mute:
            return
        s = z3.Solver()
        s.set("timeout", 5000)
        s.add(*self.facts)
        s.add(*self.qfacts)
        r = s.check()
        ob = self.obligations.setdefault("cover:" + name, Obligation("cover:" + name))
        if ob.n == 0:
            ob.status = "unreached"
        ob.n += 1
        if r != z3.unsat:
            ob.status = "proved"
            ob.backend.add("z3")


# ---- transactional heap: every mutable object reports a mutation before it happens
JOURNAL = []     # stack of {id: (obj, state)}
OWN = {}         # id(obj) -> (obj, write-back): elements read from symbolic containers are written back on mutation


WBD = [0]        # ages of the objects being written back
CLOCK = [0]
BORN = {}        # id(instance) -> (instance, stamp)


def tick():
    CLOCK[0] += 1
    return CLOCK[0]


def born(obj):
    b = getattr(obj, "born", None)
    if isinstance(b, int):
        return b
    r = BORN.get(id(obj))
    return r[1] if r is not None and r[0] is obj else 0


def touch(obj):
    if JOURNAL:
        fr = JOURNAL[-1]
        e = fr.get(id(obj))
        if e is None:
            fr[id(obj)] = [obj, obj.__pv_get__() if hasattr(type(obj), "__pv_get__") else inst_get(obj), WBD[-1] if len(WBD) > 1 else False]
        elif e[2] is not False:
            e[2] = False if len(WBD) == 1 else max(e[2], WBD[-1])


def mutated(obj):
    o = OWN.get(id(obj))
    if o is not None and o[0] is obj:
        # age of the object whose mutation is written back
        WBD.append(born(obj) or born(getattr(obj, "buf", None)))
        try:
            o[1](obj)
        finally:
            WBD.pop()


def inst_get(obj):
    return {("a", k): v for k, v in obj.__dict__.items()}


def inst_set(obj, st):
    d = obj.__dict__
    d.clear()
    for (t, k), v in st.items():
        d[k] = v


def get_state(obj):
    return obj.__pv_get__() if hasattr(type(obj), "__pv_get__") else inst_get(obj)


def set_state(obj, st):
    if hasattr(type(obj), "__pv_set__"):
        obj.__pv_set__(st)
    else:
        inst_set(obj, st)


def rollback(frame, stamp=None):
    """restore; objects created after `stamp` are unreachable from the restored state and keep their content (path results may refer to them)"""
    for obj, st, _ in frame.values():
        if stamp is not None and born(obj) > stamp:
            continue
        set_state(obj, st)


def wrap_mutators(cls, names):
    for n in names:
        f = cls.__dict__.get(n) or getattr(cls, n)

        def m(self, *a, __f=f, **k):
            touch(self)
            r = __f(self, *a, **k)
            mutated(self)
            return r
        m.__name__ = n
        setattr(cls, n, m)


_ctx = [None]


def C() -> Ctx:
    return _ctx[0]


def set_ctx(c):
    _ctx[0] = c


def _z(x):
    if isinstance(x, bool):
        return z3.BoolVal(x)
    if isinstance(x, int):
        return z3.IntVal(x)
    if isinstance(x, float):
        return z3.RealVal(repr(x)) if x == x and abs(x) != float("inf") else z3.RealVal(0)
    if hasattr(x, "e"):
        return x.e
    return x


def _nonlinear(f):
    st, seen = [f], set()
    while st:
        e = st.pop()
        if e.get_id() in seen:
            continue
        seen.add(e.get_id())
        if z3.is_quantifier(e):
            continue
        if z3.is_app(e):
            k = e.decl().kind()
            if k == z3.Z3_OP_DIV or k == z3.Z3_OP_MUL and sum(not (z3.is_rational_value(c) or z3.is_int_value(c)) for c in e.children()) > 1:
                return True
        st.extend(e.children())
    return False


def _contradictory(fs):
    s = z3.Solver()
    s.set("timeout", 500)
    s.add(*fs)
    return s.check() == z3.unsat


def _sum_products(t):
    """a product of sums or a quotient by one"""
    from . import terms
    st, seen = [t], set()
    while st:
        e = st.pop()
        if e.get_id() in seen or z3.is_quantifier(e) or not z3.is_app(e):
            continue
        seen.add(e.get_id())
        k = e.decl().kind()
        if e.decl().name() in terms._sums:
            continue
        if k == z3.Z3_OP_DIV and terms.collect_sums([e.arg(1)]) or k in (z3.Z3_OP_MUL, z3.Z3_OP_POWER) and sum(bool(terms.collect_sums([c])) for c in e.children()) > (k == z3.Z3_OP_MUL):
            return True
        st.extend(e.children())
    return False


_eqv = {}


def equivalent(a, b):
    """formulas equivalent in every context (decided quickly)"""
    if a.eq(b):
        return True
    if not _has_quant(a) and not _has_quant(b) and (a.sort() != B or b.sort() != B):
        return False
    k = (a.get_id(), b.get_id())
    r = _eqv.get(k)
    if r is None or not (r[0].eq(a) and r[1].eq(b)):
        res = True
        for f in (z3.And(a, z3.Not(b)), z3.And(b, z3.Not(a))):
            s = z3.Solver()
            s.set("timeout", 1000)
            s.add(f)
            if s.check() != z3.unsat:
                res = False
                break
        r = _eqv[k] = (a, b, res)
    return r[2]


_hq = {}


def _has_quant(f):
    k = f.get_id()
    r = _hq.get(k)
    if r is not None and r[0].eq(f):
        return r[1]
    res = False
    st = [f]
    seen = set()
    while st:
        e = st.pop()
        if e.get_id() in seen:
            continue
        seen.add(e.get_id())
        if z3.is_quantifier(e):
            res = True
            break
        st.extend(e.children())
    if len(_hq) > 50000:
        _hq.clear()
    _hq[k] = (f, res)
    return res
