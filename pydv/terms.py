"""pydv.terms - finite sums as lambda-lifted uninterpreted functions, with instances of their lemmas; solver front end.

SUM_h(n, params) stands for  sum_{0<=b<n} body_h(b, params).  Two sums are related only by instances of lemmas that
hold for all finite sums (extensionality, one-step unfolding, non-negativity, complement of counts)."""
import hashlib
import os
import subprocess
import tempfile
import time
import z3

_sums = {}   # decl name -> (decl, body template, bvar, [param consts])
_depth = [0]


def free_consts(t, skip=()):
    out, seen, st = [], set(), [t]
    order = []
    def rec(e):
        if e.get_id() in seen:
            return
        seen.add(e.get_id())
        if z3.is_const(e):
            if e.decl().kind() == z3.Z3_OP_UNINTERPRETED and not any(e.eq(s) for s in skip):
                out.append(e)
            return
        if z3.is_quantifier(e):
            rec(e.body())
            return
        for c in e.children():
            rec(c)
    rec(t)
    return out


def max_free(t, b):
    """maximal subterms of t without b (values excluded): the parameters of an abstraction over b"""
    out, seen = [], set()

    def rec(e):
        if e.get_id() in seen:
            return
        seen.add(e.get_id())
        if z3.is_quantifier(e):
            for c in free_consts(e, skip=[b]):
                if not any(c.eq(x) for x in out):
                    out.append(c)
            return
        if z3.is_var(e):
            return
        if not occurs(e, b):
            if free_consts(e) and not any(e.eq(x) for x in out):
                out.append(e)
            elif not free_consts(e):
                return
            return
        for c in e.children():
            rec(c)
    rec(t)
    return out


def occurs(t, c):
    seen = set()
    st = [t]
    while st:
        e = st.pop()
        if e.get_id() in seen:
            continue
        seen.add(e.get_id())
        if e.eq(c):
            return True
        if z3.is_quantifier(e):
            st.append(e.body())
        else:
            st.extend(e.children())
    return False


def occurs_decl(t, names):
    seen = set()
    st = [t]
    while st:
        e = st.pop()
        if e.get_id() in seen:
            continue
        seen.add(e.get_id())
        if z3.is_app(e) and e.decl().name() in names:
            return True
        if z3.is_quantifier(e):
            st.append(e.body())
        else:
            st.extend(e.children())
    return False


def linear_in(diff, k):
    """(coef, rest) with diff == coef*k + rest, coef = +-1, or None"""
    d0 = z3.simplify(z3.substitute(diff, (k, z3.IntVal(0))))
    d1 = z3.simplify(z3.substitute(diff, (k, z3.IntVal(1))))
    cf = z3.simplify(d1 - d0)
    if not z3.is_int_value(cf) or cf.as_long() not in (1, -1):
        return None
    cf = cf.as_long()
    if not z3.is_int_value(z3.simplify(diff - (d0 + cf * k))) or z3.simplify(diff - (d0 + cf * k)).as_long() != 0:
        return None
    return cf, d0


def conjuncts(c):
    if z3.is_and(c):
        out = []
        for x in c.children():
            out += conjuncts(x)
        return out
    if z3.is_not(c) and z3.is_or(c.arg(0)):
        out = []
        for x in c.arg(0).children():
            out += conjuncts(z3.simplify(z3.Not(x)))
        return out
    return [c]


KEY_SOLVER = None


def solve_index(cond, k):
    """an index term j (free of k) such that cond implies k == j, or None"""
    for x in conjuncts(cond):
        if z3.is_eq(x) and z3.is_int(x.arg(0)):
            r = linear_in(z3.simplify(x.arg(0) - x.arg(1)), k)
            if r is not None:
                cf, rest = r
                j = z3.simplify(-rest if cf == 1 else rest)
                if not occurs(j, k):
                    return j
    # f(k) == j for an injective f with a known inverse
    if KEY_SOLVER is not None:
        for x in conjuncts(cond):
            if z3.is_eq(x):
                for a, b in ((x.arg(0), x.arg(1)), (x.arg(1), x.arg(0))):
                    if occurs(a, k) and not occurs(b, k):
                        off = None
                        if z3.is_int(a) and z3.is_add(a):       # f(k) + c == b
                            on = [t for t in a.children() if occurs(t, k)]
                            if len(on) == 1:
                                b = z3.simplify(b - (a - on[0]))
                                a = on[0]
                        j = KEY_SOLVER(a, k, b)
                        if j is not None and not occurs(j, k):
                            return j
    # two inequalities k <= j, k >= j
    lo, hi = [], []
    for x in conjuncts(cond):
        neg = False
        y = x
        if z3.is_not(y):
            neg, y = True, y.arg(0)
        if z3.is_le(y) or z3.is_ge(y) or z3.is_lt(y) or z3.is_gt(y):
            if not z3.is_int(y.arg(0)):
                continue
            d = z3.simplify(y.arg(0) - y.arg(1))
            op = "le" if z3.is_le(y) else "ge" if z3.is_ge(y) else "lt" if z3.is_lt(y) else "gt"
            if neg:
                op = {"le": "gt", "ge": "lt", "lt": "ge", "gt": "le"}[op]
            r = linear_in(d, k)
            if r is None:
                continue
            cf, rest = r
            if op in ("lt", "gt"):
                rest = z3.simplify(rest + 1) if op == "lt" else z3.simplify(rest - 1)
                op = "le" if op == "lt" else "ge"
            # cf*k + rest op 0
            if cf == 1:
                (hi if op == "le" else lo).append(z3.simplify(-rest))
            else:
                (lo if op == "le" else hi).append(z3.simplify(rest))
    for a in lo:
        for b in hi:
            if z3.simplify(a - b).eq(z3.IntVal(0)) and not occurs(a, k):
                return a
    return None


def lift_points(e, k, limit=3):
    """pull conditions that determine k (k == j) out of the arithmetic: If(k == j, e1, e2)"""
    for _ in range(limit):
        conds = []
        seen = set()
        st = [e]
        top = set()
        x = e
        while z3.is_app(x) and x.decl().kind() == z3.Z3_OP_ITE:
            top.add(x.arg(0).get_id())
            if solve_index(x.arg(0), k) is None:
                break
            x = x.arg(2)
        while st:
            t = st.pop()
            if t.get_id() in seen or z3.is_quantifier(t):
                continue
            seen.add(t.get_id())
            if z3.is_app(t) and t.decl().kind() == z3.Z3_OP_ITE:
                for c in conjuncts(t.arg(0)) + [t.arg(0)]:
                    if c.get_id() not in top and not any(c.eq(d) for d in conds) and solve_index(c, k) is not None and is_ifree(c):
                        conds.append(c)
            st.extend(t.children())
        if not conds:
            return e
        c = conds[0]
        e1 = z3.simplify(z3.substitute(e, (c, z3.BoolVal(True))))
        e2 = z3.simplify(z3.substitute(e, (c, z3.BoolVal(False))))
        if e1.eq(e2):
            e = e1
            continue
        e = z3.If(c, e1, e2)
        if not conds[1:]:
            return e
    return e


def is_ifree(c):
    return True


def mk_sum(n, fn, sort=None):
    """sum_{0<=b<n} fn(b); fn maps a z3 Int to a z3 arithmetic term"""
    if isinstance(n, int):
        if n <= 0:
            return z3.IntVal(0)
        if n <= 8:
            r = None
            for j in range(n):
                t = fn(z3.IntVal(j))
                r = t if r is None else _add(r, t)
            return r
        n = z3.IntVal(n)
    _depth[0] += 1
    b = z3.Int("$b%d" % _depth[0])
    try:
        t = fn(b)
    finally:
        _depth[0] -= 1
    return _sum_of(n, b, t)


def _add(a, b):
    if a.sort() != b.sort():
        a = z3.ToReal(a) if z3.is_int(a) else a
        b = z3.ToReal(b) if z3.is_int(b) else b
    return a + b


def _to(sortlike, t):
    if sortlike == z3.RealSort() and z3.is_int(t):
        return z3.ToReal(t)
    return t


def _sum_of(n, b, t):
    t = z3.simplify(t)
    srt = t.sort()
    zero = z3.IntVal(0) if z3.is_int(t) else z3.RealVal(0)
    if z3.is_rational_value(t) or z3.is_int_value(t):
        if z3.simplify(t == 0).eq(z3.BoolVal(True)):
            return zero
    if not occurs(t, b):
        nn = z3.If(n > 0, n, z3.IntVal(0))
        nn = z3.simplify(nn)
        return z3.simplify(_to(srt, nn) * t)
    if SELS and not z3.is_add(t):
        r = unselect(n, b, t)
        if r is not None:
            return _sum_of(*r)
    lp = lift_points(t, b, 1)
    if z3.is_app(lp) and lp.decl().kind() == z3.Z3_OP_ITE and solve_index(lp.arg(0), b) is not None:
        # a single index contributes
        c, x, y = lp.children()
        j = solve_index(c, b)
        if not occurs(j, b) and not any(occurs(cc, b) for cc in [z3.simplify(z3.substitute(c, (b, j)))]):
            sub = lambda w: z3.substitute(w, (b, j))
            rest = _sum_of(n, b, y)
            x, y = sub(x), sub(y)
            return z3.simplify(rest + z3.If(z3.And(j >= 0, j < n, sub(c)), x - y, zero))
    if z3.is_add(t):
        r = None
        for c in t.children():
            s = _sum_of(n, b, c)
            r = s if r is None else _add(r, s)
        return r
    if z3.is_mul(t):
        fac = [c for c in t.children() if not occurs(c, b)]
        rest = [c for c in t.children() if occurs(c, b)]
        if fac:
            r = rest[0]
            for c in rest[1:]:
                r = r * c
            s = _sum_of(n, b, r)
            for c in fac:
                s = _to(srt, c) * s
            return s
    if z3.is_app(t) and t.decl().kind() == z3.Z3_OP_TO_REAL:
        return z3.ToReal(_sum_of(n, b, t.arg(0)))
    if z3.is_app(t) and t.decl().kind() == z3.Z3_OP_ITE:
        c, x, y = t.children()
        if not occurs(c, b):
            return z3.If(c, _sum_of(n, b, x), _sum_of(n, b, y))
        # single point
        if z3.is_eq(c) and z3.simplify(y == 0).eq(z3.BoolVal(True)):
            l, r_ = c.children()
            for u, v in ((l, r_), (r_, l)):
                if u.eq(b) and not occurs(v, b):
                    return z3.If(z3.And(v >= 0, v < n), z3.simplify(z3.substitute(x, (b, v))), zero)
    params = max_free(t, b)
    ph = [z3.Const("$p%d" % i, p.sort()) for i, p in enumerate(params)]
    tb = z3.Int("$B")
    tmpl = z3.substitute(t, *([(b, tb)] + list(zip(params, ph))))
    key = hashlib.md5((tmpl.sexpr() + str(srt) + str([str(p.sort()) for p in ph])).encode()).hexdigest()[:12]
    name = "SUM_" + key
    if name not in _sums:
        d = z3.Function(name, z3.IntSort(), *[p.sort() for p in ph], srt)
        _sums[name] = (d, tmpl, tb, ph)
    d = _sums[name][0]
    return d(n, *params)


def sum_body(app, j):
    d, tmpl, tb, ph = _sums[app.decl().name()]
    args = app.children()
    return z3.substitute(tmpl, *([(tb, j)] + list(zip(ph, args[1:]))))


def is_count(app):
    t = _sums[app.decl().name()][1]
    return z3.is_int(t) and z3.is_app(t) and t.decl().kind() == z3.Z3_OP_ITE and all(z3.is_int_value(x) and x.as_long() in (0, 1) for x in t.children()[1:])


SELS = {}    # SEL function name -> (count, n, mask, bvar, params): templates


def unselect(n, b, t):
    """sum over the selected positions -> (n', b', body) over all positions, or None"""
    found, seen, st = {}, set(), [t]
    while st:
        e = st.pop()
        if e.get_id() in seen or z3.is_quantifier(e):
            continue
        seen.add(e.get_id())
        if z3.is_app(e) and e.decl().name() in SELS and e.num_args() and e.arg(0).eq(b):
            found[e.get_id()] = e
        st.extend(e.children())
    if len(found) != 1:
        return None
    app, = found.values()
    cnt, n0, mt, mb, params = SELS[app.decl().name()]
    sub = list(zip(params, app.children()[1:]))
    if not z3.simplify(z3.substitute(cnt, *sub) if sub else cnt).eq(z3.simplify(n)):
        return None
    _depth[0] += 1
    try:
        j = z3.Int("$u%d" % _depth[0])
        body = z3.substitute(t, (app, j))
        if occurs(body, b):
            return None
        mask = z3.substitute(mt, *([(mb, j)] + sub))
        zero = z3.IntVal(0) if z3.is_int(t) else z3.RealVal(0)
        return (z3.substitute(n0, *sub) if sub else n0), j, z3.If(mask, body, zero)
    finally:
        _depth[0] -= 1


def collect_sums(fs):
    out = {}
    for f in fs:
        c1 = _collect1(f)[1]
        for nm in c1:
            if nm in _sums:
                out.update(c1[nm])
    return list(out.values())


def _unfold(t, ent):
    """SUM(m+1, ps) next to SUM(m, ps), m >= 0, by its last step"""
    ss = collect_sums([t])
    pairs = []
    for a in ss:
        for b in ss:
            if a is not b and a.decl().eq(b.decl()) and z3.simplify(a.arg(0) - b.arg(0)).eq(z3.IntVal(1)) \
                    and all(x.eq(y) for x, y in zip(a.children()[1:], b.children()[1:])) and ent(b.arg(0) >= 0):
                pairs.append((a, _add(b, sum_body(b, b.arg(0)))))
                break
    return z3.substitute(t, *pairs) if pairs else t


def _ites(t, quantified=False):
    out, seen, st = [], set(), [t]
    while st:
        e = st.pop()
        if e.get_id() in seen or z3.is_quantifier(e):
            continue
        seen.add(e.get_id())
        if z3.is_app(e) and e.decl().kind() == z3.Z3_OP_ITE and (quantified or not occurs_q(e.arg(0))):
            out.append(e.arg(0))
        st.extend(e.children())
    return out


def occurs_q(e):
    return _quantified(e)


def quick(goal, ent, hyp=(), depth=0):
    """equalities of sums by one step, cases and arithmetic normalisation; False: not decided"""
    goal = z3.simplify(goal)
    if z3.is_true(goal):
        return True
    if z3.is_false(goal) or depth > 7:
        return bool(hyp) and ent(z3.Not(z3.And(*hyp)))
    if z3.is_and(goal):
        return all(quick(g, ent, hyp, depth) for g in goal.children())
    if z3.is_or(goal) or z3.is_implies(goal):
        ds = goal.children() if z3.is_or(goal) else [z3.Not(goal.arg(0)), goal.arg(1)]
        eqs = [d for d in ds if z3.is_eq(d) and z3.is_arith(d.arg(0)) and collect_sums([d])]
        if len(eqs) != 1:
            return False
        return quick(eqs[0], ent, tuple(hyp) + tuple(z3.simplify(z3.Not(d)) for d in ds if not d.eq(eqs[0])), depth)
    if not (z3.is_eq(goal) and z3.is_arith(goal.arg(0))) or not collect_sums([goal]):
        return False
    d = z3.simplify(_unfold(goal.arg(0) - goal.arg(1), ent), som=True)
    if z3.is_int_value(d) or z3.is_rational_value(d):
        if z3.simplify(d == 0).eq(z3.BoolVal(True)):
            return True
        return bool(hyp) and ent(z3.Not(z3.And(*hyp)))
    cs = _ites(d)
    if not cs:
        return bool(hyp) and ent(z3.Not(z3.And(*hyp)))
    c = cs[0]
    while z3.is_and(c) or z3.is_or(c) or z3.is_not(c):
        c = c.arg(0)
    for val in (True, False):
        dd = z3.substitute(d, (c, z3.BoolVal(val)))
        if val and z3.is_eq(c):
            l, r = c.children()
            if z3.is_const(l) and l.decl().kind() == z3.Z3_OP_UNINTERPRETED and not occurs(r, l):
                dd = z3.substitute(dd, (l, r))
            elif z3.is_const(r) and r.decl().kind() == z3.Z3_OP_UNINTERPRETED and not occurs(l, r):
                dd = z3.substitute(dd, (r, l))
            elif z3.is_app(l) and not occurs(r, l) and not z3.is_int_value(l):
                dd = z3.substitute(dd, (l, r))
        z = z3.IntVal(0) if z3.is_int(dd) else z3.RealVal(0)
        if not quick(dd == z, ent, tuple(hyp) + (c if val else z3.Not(c),), depth + 1):
            return False
    return True


AX = {}      # declaration name -> list of closed axioms (definitional extensions)
GROUND = {}  # declaration name -> function(list of ground applications) -> list of lemma instances
LITS = {}    # string literal constants: name -> const


def register(name, *axs):
    if name not in AX:
        AX[name] = list(axs)


_coll = {}


def _collect1(f):
    r = _coll.get(f.get_id())
    if r is not None and r[0].eq(f):
        return r[1], r[2]
    names, cand = set(), {}
    seen = set()
    st = [(f, False)]
    while st:
        e, q = st.pop()
        if (e.get_id(), q) in seen:
            continue
        seen.add((e.get_id(), q))
        if z3.is_quantifier(e):
            st.append((e.body(), True))
            continue
        if z3.is_app(e):
            nm = e.decl().name()
            names.add(nm)
            if e.num_args():
                if not q and e.decl().kind() == z3.Z3_OP_UNINTERPRETED:
                    cand.setdefault(nm, {})[e.get_id()] = e
                for c in e.children():
                    st.append((c, q))
    if len(_coll) > 20000:
        _coll.clear()
    _coll[f.get_id()] = (f, names, cand)
    return names, cand


def collect(fs):
    """declaration names occurring anywhere, and ground applications of the functions with ground lemmas"""
    names, apps = set(), {}
    for f in fs:
        n1, c1 = _collect1(f)
        names |= n1
        for nm in c1:
            if nm in GROUND:
                apps.setdefault(nm, {}).update(c1[nm])
    return names, apps


def axioms(fs):
    out, have = [], set()
    cur = list(fs)
    for _ in range(4):
        names, apps = collect(cur)
        new = []
        for nm in sorted(names):
            if nm in AX and nm not in have:
                have.add(nm)
                new.extend(AX[nm])
        cur = new
        out.extend(new)
        if not new:
            break
    names, apps = collect(list(fs) + out)
    for nm in sorted(apps):
        out.extend(GROUND[nm](list(apps[nm].values())))
    ls = [LITS[n] for n in sorted(names) if n in LITS]
    if len(ls) > 1:
        out.append(z3.Distinct(*ls))
    return out


def lemmas(fs, rounds=2):
    res = axioms(fs)
    fs = list(fs) + res
    n_ax = len(res)
    done = set()
    cur = list(fs)
    skn = [0]
    for _ in range(rounds):
        apps = collect_sums(cur + res)
        new = []
        for a in apps:
            if ("u", a.get_id()) in done:
                continue
            done.add(("u", a.get_id()))
            n = a.arg(0)
            new.append(z3.Implies(n <= 0, a == 0))
            sk = z3.Int("$sk_u%d" % skn[0]); skn[0] += 1
            new.append(z3.Or(z3.And(sk >= 0, sk < n, sum_body(a, sk) < 0), a >= 0))
            sk = z3.Int("$sk_n%d" % skn[0]); skn[0] += 1
            new.append(z3.Or(z3.And(sk >= 0, sk < n, sum_body(a, sk) > 0), a <= 0))
            if z3.is_int(a):
                sk = z3.Int("$sk_c%d" % skn[0]); skn[0] += 1
                new.append(z3.Or(z3.And(sk >= 0, sk < n, sum_body(a, sk) > 1), n < 0, a <= n))
        for i in range(len(apps)):
            for j in range(i + 1, len(apps)):
                a, b = apps[i], apps[j]
                if ("p", a.get_id(), b.get_id()) in done:
                    continue
                done.add(("p", a.get_id(), b.get_id()))
                if len(done) > 400:
                    break
                na, nb = a.arg(0), b.arg(0)
                sk = z3.Int("$sk_e%d" % skn[0]); skn[0] += 1
                ba, bb = sum_body(a, sk), sum_body(b, sk)
                new.append(z3.Or(na != nb, z3.And(sk >= 0, sk < na, ba != bb), a == b))
                # monotone in the summand
                sk2 = z3.Int("$sk_m%d" % skn[0]); skn[0] += 1
                # complement of counts: bodies add up to one everywhere
                ba, bb = sum_body(a, sk2), sum_body(b, sk2)
                cnt = z3.If(na > 0, na, z3.IntVal(0))
                cnt = z3.ToReal(cnt) if (z3.is_real(a) or z3.is_real(b)) else cnt
                new.append(z3.Or(na != nb, z3.And(sk2 >= 0, sk2 < na, _add(ba, bb) != 1), _add(a, b) == cnt))
                # a count that is zero: the condition holds nowhere
                for u, v in ((a, b), (b, a)):
                    if is_count(u):
                        sk3 = z3.Int("$sk_z%d" % skn[0]); skn[0] += 1
                        new.append(z3.Or(na != nb, u > 0, z3.And(sk3 >= 0, sk3 < na, sum_body(u, sk3) == 0, sum_body(v, sk3) != 0), v == 0))
                # one step
                if a.decl().eq(b.decl()) and all(x.eq(y) for x, y in zip(a.children()[1:], b.children()[1:])):
                    new.append(z3.Implies(z3.And(na == nb + 1, nb >= 0), a == b + sum_body(b, nb)))
                    new.append(z3.Implies(z3.And(nb == na + 1, na >= 0), b == a + sum_body(a, na)))
        if not new:
            break
        res.extend(new)
        cur = new
    if len(res) > n_ax:
        have = {f.get_id() for f in res}
        res.extend(f for f in axioms(fs + res) if f.get_id() not in have)
    return res


STATS = {"z3": 0, "cvc5": 0, "z3_time": 0.0, "cvc5_time": 0.0}
CVC5 = "cvc5"
FORCE_CVC5 = False


def witnesses(fs):
    """facts with a constant for each thing stated to exist, and what is stated about all things with sums, about these constants"""
    out, new = [], []
    for f in fs:
        if z3.is_quantifier(f) and f.is_exists() and all(f.var_sort(i) == z3.IntSort() for i in range(f.num_vars())) and len(new) < 12:
            cs = [z3.Int("$ske%d" % (len(new) + i)) for i in range(f.num_vars())]
            new += cs
            b = z3.simplify(z3.substitute_vars(f.body(), *reversed(cs)))
            out += b.children() if z3.is_and(b) else [b]
        else:
            out.append(f)
    if not new:
        return fs
    for f in fs:
        if z3.is_quantifier(f) and f.is_forall() and f.num_vars() == 1 and f.var_sort(0) == z3.IntSort() and any(nm in _sums for nm in _collect1(f)[0]):
            out += [z3.simplify(z3.substitute_vars(f.body(), c)) for c in new]
    return out


def decide(fs, timeout_ms=20000, second=True):
    """-> (status, model, backend): unsat | sat (definite) | maybe (model of an abstraction) | unknown"""
    fs = witnesses(fs)
    ls = lemmas(fs)
    t = time.time()
    r = z3.unknown
    q = any(z3.is_quantifier(f) or _quantified(f) for f in list(fs) + ls)
    for opts, share in (({}, 0.15), ({"mbqi": False}, 0.25), ({"random_seed": 7, "arith.nl": False}, 0.15), ({"random_seed": 3}, 1.0)):
        if not q and "mbqi" in opts:
            continue
        s = z3.Solver()
        s.set("timeout", max(500, int(timeout_ms * share)))
        for k, v in opts.items():
            s.set(k, v)
        s.add(*fs)
        s.add(*ls)
        r1 = s.check()
        if r1 == z3.unsat or r1 == z3.sat and "mbqi" not in opts and "arith.nl" not in opts:
            r = r1
            break
    STATS["z3"] += 1
    STATS["z3_time"] += time.time() - t
    if r == z3.unsat:
        if FORCE_CVC5:
            r2 = cvc5_check(s, timeout_ms)
            return "unsat", None, ("z3+cvc5" if r2 == "unsat" else "z3")
        return "unsat", None, "z3"
    if r == z3.sat:
        abstract = bool(ls) or any(has_abstraction(f) for f in fs)
        return ("maybe" if abstract else "sat"), s.model(), "z3"
    r2 = cvc5_check(s, timeout_ms) if second else "unknown"
    if r2 == "unsat":
        return "unsat", None, "cvc5"
    return "unknown", None, "z3,cvc5"


def _quantified(f):
    from .core import _has_quant
    return _has_quant(f)


def cvc5_check(s, timeout_ms):
    t = time.time()
    try:
        txt = "(set-logic ALL)\n" + "\n".join(l for l in s.to_smt2().splitlines() if not l.startswith("(set-info") and not l.startswith("(set-logic"))
        with tempfile.NamedTemporaryFile("w", suffix=".smt2", delete=False) as f:
            f.write(txt)
        p = subprocess.run([CVC5, "--tlimit=%d" % timeout_ms, f.name], stdout=subprocess.PIPE, stderr=subprocess.PIPE,
                           timeout=timeout_ms / 1000 + 10)
        out = p.stdout.decode().strip().splitlines()
        os.unlink(f.name)
        r = out[-1] if out else "unknown"
    except Exception:
        r = "unknown"
    STATS["cvc5"] += 1
    STATS["cvc5_time"] += time.time() - t
    return r if r in ("sat", "unsat") else "unknown"


_ABS = ("SQRT", "EXP", "LOG", "POW", "SIN", "COS", "ROUND", "SEL!", "RANK!", "fmt:", "str_", "IPOW", "LEGENDRE", "MAX_")


def has_abstraction(f):
    seen = set()
    st = [f]
    while st:
        e = st.pop()
        if e.get_id() in seen:
            continue
        seen.add(e.get_id())
        if z3.is_quantifier(e):
            return True
        if z3.is_app(e):
            nm = e.decl().name()
            if nm.startswith(_ABS):
                return True
            st.extend(e.children())
    return False
