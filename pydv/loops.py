"""pydv.loops - loops over sequences of symbolic length.

The body is executed symbolically for one generic iteration k.  For every cell (local variable, attribute, container content)
the body changes, a closed form form(t) = "value after t iterations" is derived from the transition, and confirmed by
induction: started in form(k), every path of the body that continues ends in form(k+1).  A cell without confirmed form is
havocked (and taints every later obligation)."""
import z3
from .core import (C, Unsupported, Infeasible, Control, JOURNAL, OWN, touch, mutated, get_state, set_state, rollback, born, tick, _z, I, R, B)
from .core import _has_quant as _hq
from . import terms, core, values
from .values import (SNum, SBool, SStr, SBytes, SN, SB, Sym, Seq, PList, PDict, PSet, SymObj, SymMap, Opaque, Havocked, Choice, FMap, key_term, key_value, solve_key, SIter, SRange, _View, simp, merge, subst,
                     num_parts, bool_term, as_seq, is_sym, str_term, eq_term, real, _or, freeze, _at)
from .arr import SArr, Buf, ArrFn, memo, ix


import os
DEBUGP = os.environ.get('PYDV_DEBUGP')


class Tok:
    def __init__(self, n):
        self.n = n

    def __repr__(self):
        return self.n


CONT, BRK, END, SKIP = Tok("CONT"), Tok("BRK"), Tok("END"), Tok("SKIP")


class RET:
    def __init__(self, value):
        self.value = value


def is_ret(r):
    return isinstance(r, RET)


def locs(d):
    out = {}
    for k, f in d.items():
        try:
            out[k] = f()
        except NameError:
            pass
    return out


MAX_ROUNDS = 7
import os
DEBUG = bool(os.environ.get('PYDV_DEBUG'))


# ------------------------------------------------------------------ value comparison
def vkey(v, stamp=None, d=6):
    """canonical text of a value (for comparing the values of two executions)"""
    if isinstance(v, SNum):
        return "n:%s|%s" % (v.e.sexpr(), None if v.nan is None else v.nan.sexpr())
    if isinstance(v, bool) or v is None or isinstance(v, (str, bytes)):
        return repr(v)
    if isinstance(v, int):
        return "n:%d|None" % v
    if isinstance(v, float):
        return "f:%r" % v
    if isinstance(v, SBool):
        return "b:" + v.e.sexpr()
    if isinstance(v, SStr):
        return "s:" + v.e.sexpr()
    if isinstance(v, SBytes):
        return "by:" + vkey(v.s)
    if isinstance(v, SymObj):
        return "o:" + v.e.sexpr()
    if isinstance(v, tuple):
        return "(" + ",".join(vkey(x, stamp, d) for x in v) + ")"
    if isinstance(v, Havocked):
        return "havoc:%d" % tick()
    if isinstance(v, Opaque):
        return "Opaque(%s,%s)" % (v.tag, v.e)
    if d <= 0:
        return "id:%d" % id(v)
    if isinstance(v, PList):
        return "L" + vkey(v.seq(), stamp, d - 1)
    if isinstance(v, Seq):
        if v.kind == "const":
            return "[" + ",".join(vkey(x, stamp, d - 1) for x in v.parts) + "]"
        if v.kind == "cat":
            return "[" + "+".join(vkey(p, stamp, d - 1) for p in v.parts) + "]"
        if v.kind == "flat":
            n, seg = v.parts
            return "flat(%s,%s)" % (_z(n).sexpr(), vkey(seg(z3.Int("$vk%d" % d)), stamp, d - 1))
        if v.kind == "filter":
            n, mask, get = v.parts[:3]
            q = z3.Int("$vk%d" % d)
            return "filter(%s,%s,%s)" % (_z(n).sexpr(), simp(mask(q)).sexpr(), vkey(get(q), stamp, d - 1))
        return "seq(%s,%s)" % (v.nt.sexpr(), vkey(v.get(z3.Int("$vk%d" % d)), stamp, d - 1))
    if isinstance(v, SArr):
        q = tuple(z3.Int("$vk%d_%d" % (d, a)) for a in range(v.ndim))
        return "A%s%s:%s" % (v.kind, [str(x) for x in v.shape_t], vkey(v.get(q), stamp, d - 1))
    if isinstance(v, PDict):
        if not v.symbolic():
            return "{" + ",".join(vkey(k, stamp, d - 1) + ":" + vkey(dict.__getitem__(v, k), stamp, d - 1) for k in dict.__iter__(v)) + "}"
        return "D" + vkey((v.base, tuple(v.log or ())), stamp, d - 1)
    if isinstance(v, SymMap):
        q = z3.Int("$vk%d" % d)
        return "M(%s,%s,%s,%s)" % (_z(v.n).sexpr(), vkey(v.key(q), stamp, d - 1), vkey(v.val(q), stamp, d - 1),
                                   None if v.cond is None else simp(v.cond(q)).sexpr())
    if isinstance(v, slice):
        return "sl" + vkey((v.start, v.stop, v.step), stamp, d)
    if z3.is_expr(v):
        return v.sexpr()
    if hasattr(type(v), "__pv_key__"):
        return v.__pv_key__(lambda x: vkey(x, stamp, d - 1))
    if stamp is not None and hasattr(v, "__dict__") and not isinstance(v, type) and not callable(v) and born(v) > stamp:
        return type(v).__name__ + "<" + ",".join(k + "=" + vkey(x, stamp, d - 2) for k, x in sorted(v.__dict__.items())) + ">"
    return "id:%d" % id(v)


def same(a, b, stamp=None):
    if a is b and not isinstance(a, Havocked):
        return True
    if isinstance(a, ArrFn) or isinstance(b, ArrFn):
        return isinstance(a, ArrFn) and isinstance(b, ArrFn) and a.fn is b.fn
    try:
        return vkey(a, stamp) == vkey(b, stamp)
    except Unsupported:
        return False


def veq(a, b):
    """goal: a and b are the same value (generic constants stand for all indices)"""
    c = C()
    if isinstance(a, Havocked) or isinstance(b, Havocked):
        raise Unsupported("comparison of an unknown value")
    if a is b:
        return z3.BoolVal(True)
    if isinstance(a, Opaque) and isinstance(b, Opaque):
        if (a.e is None) != (b.e is None):
            return z3.BoolVal(False)
        return z3.BoolVal(a.tag == b.tag) if a.e is None else (a.e == b.e if a.tag == b.tag and a.e.sort() == b.e.sort() else z3.BoolVal(False))
    if isinstance(a, (SBool, bool)) and isinstance(b, (SBool, bool)):
        return bool_term(a) == bool_term(b)
    if isinstance(a, SArr) and isinstance(b, SArr):
        if a.ndim != b.ndim:
            return z3.BoolVal(False)
        q = tuple(c.fresh_const("vq", I) for _ in range(a.ndim))
        g = [_z(x) == _z(y) for x, y in zip(a.shape_t, b.shape_t)]
        rng = [z3.And(i >= 0, i < _z(x)) for i, x in zip(q, a.shape_t)]
        return z3.And(*(g + [z3.Implies(z3.And(*rng), veq(a.get(q), b.get(q))) if q else veq(a.get(()), b.get(()))]))
    pa, pb = num_parts(a), num_parts(b)
    if pa is not None and pb is not None:
        x, y = pa[0], pb[0]
        if z3.is_int(x) != z3.is_int(y):
            x, y = real(x), real(y)
        if pa[1] is None and pb[1] is None:
            return x == y
        na = pa[1] if pa[1] is not None else z3.BoolVal(False)
        nb = pb[1] if pb[1] is not None else z3.BoolVal(False)
        return z3.And(na == nb, z3.Or(na, x == y))
    if isinstance(a, (SStr, str)) and isinstance(b, (SStr, str)):
        r = (a == b)
        return bool_term(r)
    if isinstance(a, SBytes) and isinstance(b, SBytes):
        return veq(a.s, b.s)
    if isinstance(a, SymObj) and isinstance(b, SymObj):
        return a.e == b.e if a.e.sort() == b.e.sort() else z3.BoolVal(False)
    if isinstance(a, tuple) and isinstance(b, tuple) and not isinstance(a, Seq):
        return z3.And(*[veq(x, y) for x, y in zip(a, b)]) if len(a) == len(b) else z3.BoolVal(False)
    if isinstance(a, PList) and isinstance(b, PList):
        return veq(a.seq(), b.seq())
    if isinstance(a, Seq) and isinstance(b, Seq):
        if a.concrete() and b.concrete():
            return z3.And(*[veq(a.get(i), b.get(i)) for i in range(a.n)]) if a.n == b.n else z3.BoolVal(False)
        if vkey(a) == vkey(b):
            return z3.BoolVal(True)
        q = c.fresh_const("vq", I)
        if a.kind == b.kind == "filter":
            # the same selection of the same positions
            n, m, g = a.parts[:3]
            n2, m2, g2 = b.parts[:3]
            s = z3.And(_z(n) == _z(n2), z3.Implies(z3.And(q >= 0, q < _z(n)), z3.And(m(q) == m2(q), z3.Implies(m(q), veq(g(q), g2(q))))))
            if c.entails_q(s):
                return z3.BoolVal(True)
        if a.kind == b.kind == "flat":
            n, g = a.parts
            n2, g2 = b.parts
            return z3.And(_z(n) == _z(n2), z3.Implies(z3.And(q >= 0, q < _z(n)), veq(g(q), g2(q))))
        if a.kind == b.kind == "cat" and len(a.parts) == len(b.parts):
            ok = z3.And(*[veq(x, y) for x, y in zip(a.parts, b.parts)])
            if c.entails_q(ok):
                return z3.BoolVal(True)
        return z3.And(a.nt == b.nt, z3.Implies(z3.And(q >= 0, q < a.nt), veq(a.get(q), b.get(q))))
    if isinstance(a, PDict) and isinstance(b, PDict) and not a.symbolic() and not b.symbolic():
        if list(dict.__iter__(a)) != list(dict.__iter__(b)):
            return z3.BoolVal(False)
        return z3.And(*[veq(dict.__getitem__(a, k), dict.__getitem__(b, k)) for k in dict.__iter__(a)]) if len(dict.keys(a)) else z3.BoolVal(True)
    if isinstance(a, PDict) and isinstance(b, PDict) and type(a) is type(b):
        return veq(a.items().seq(), b.items().seq()) if a.symbolic() and b.symbolic() else z3.BoolVal(False)
    if isinstance(a, Choice):
        return z3.If(a.c, veq(a.a, b), veq(a.b, b))
    if isinstance(b, Choice):
        return z3.If(b.c, veq(a, b.a), veq(a, b.b))
    if a is None or b is None:
        return z3.BoolVal(False)
    if type(a) is type(b) and hasattr(type(a), "__pv_veq__"):
        return a.__pv_veq__(b)
    if type(a) is type(b) and hasattr(a, "__dict__") and not callable(a) and set(a.__dict__) == set(b.__dict__) and not isinstance(a, (PDict, PSet)):
        return z3.And(*[veq(a.__dict__[k], b.__dict__[k]) for k in a.__dict__]) if a.__dict__ else z3.BoolVal(True)
    try:
        return z3.BoolVal(bool(type(a) is type(b) and not is_sym(a) and a == b))
    except Exception:
        return z3.BoolVal(False)


# ------------------------------------------------------------------ slots and closed forms
class NotSolved(Exception):
    """depends on cells not solved yet"""


class Split(Exception):
    """a cell that is None until some iteration"""
    def __init__(self, cell, obj):
        self.cell, self.obj = cell, obj


class Peel(Exception):
    pass


def names_in(*ts):
    out = set()
    for t in ts:
        if t is None:
            continue
        seen = set()
        st = [t]
        while st:
            e = st.pop()
            if e.get_id() in seen:
                continue
            seen.add(e.get_id())
            if z3.is_quantifier(e):
                st.append(e.body())
            elif z3.is_app(e):
                if e.decl().kind() == z3.Z3_OP_UNINTERPRETED:
                    out.add(e.decl().name())
                st.extend(e.children())
    return out


def value_names(v, stamp, d=6):
    """names of uninterpreted symbols occurring in a value"""
    import re
    return set(re.findall(r"\$ph[^\s()|]*", vkey(v, stamp, d)))


class Form:
    tainted = False

    def __init__(self, at, confirm=None):
        self._at = at
        self._confirm = confirm

    def at(self, t):
        return self._at(t)

    def confirm(self, loop, post, installed):
        if self._confirm is not None:
            r = self._confirm(loop, post, installed)
            if r is not None:
                return r
        exp = self.at(simp(loop.k + 1))
        if same(post, exp, loop.stamp):
            return True
        try:
            g = veq(post, exp)
        except Unsupported:
            return False
        r = C().entails_q(g, 4000)
        if DEBUG and not r:
            print("NOTCONF", z3.simplify(g))
        return r


class Unchanged(Form):
    def __init__(self, v0):
        self.v0 = v0

    def at(self, t):
        return self.v0

    def confirm(self, loop, post, installed):
        if post is self.v0 or same(post, self.v0, loop.stamp):
            return True
        if isinstance(post, ArrFn):
            return arrfn_same(loop, post, self.v0)
        try:
            return C().entails_q(veq(post, self.v0), 2000)
        except Unsupported:
            return False


def arrfn_same(loop, a, b):
    return False


class Havoc(Form):
    tainted = True

    def __init__(self, mk):
        self.mk = mk

    def at(self, t):
        return self.mk()

    def confirm(self, loop, post, installed):
        return True


def delta(e, ph):
    """e - ph with conditionals distributed"""
    if e.eq(ph):
        return z3.IntVal(0) if z3.is_int(ph) else z3.RealVal(0)
    if z3.is_app(e) and e.decl().kind() == z3.Z3_OP_ITE:
        c, a, b = e.children()
        da, db = delta(a, ph), delta(b, ph)
        if da is None or db is None:
            return None
        if da.sort() != db.sort():
            da, db = real(da), real(db)
        return simp(z3.If(c, da, db))
    if z3.is_int(e) != z3.is_int(ph):
        e, ph = real(e), real(ph)
    return simp(e - ph)


linear_in, conjuncts, solve_index, lift_points = terms.linear_in, terms.conjuncts, terms.solve_index, terms.lift_points


def sum_form(loop, v0e, g):
    """t -> v0e + sum_{j<t} g[k:=j]"""
    k = loop.k

    def at(t):
        s = terms.mk_sum(t, lambda j: z3.substitute(g, (k, j)))
        if z3.is_int(s) != z3.is_int(v0e):
            return simp(real(v0e) + real(s))
        return simp(v0e + s)
    return at


def exists_form(loop, g):
    k = loop.k

    def at(t):
        if not terms.occurs(g, k):
            return simp(z3.And(t > 0, g))
        q = z3.Int("$xq%d" % len(C().index_stack))
        return z3.Exists([q], z3.And(q >= 0, q < t, z3.substitute(g, (k, q))))
    return at


class Slot:
    """one value with placeholders"""


class NumSlot(Slot):
    def __init__(self, loop, v0, ex):
        e, nan = num_parts(v0)
        self.isreal = z3.is_real(e) or any(z3.is_real(num_parts(x)[0]) for x in ex if num_parts(x))
        self.nanful = nan is not None or any(num_parts(x)[1] is not None for x in ex if num_parts(x))
        self.v0 = real(e) if self.isreal else e
        self.n0 = (nan if nan is not None else z3.BoolVal(False)) if self.nanful else None
        self.p = loop.ph(R if self.isreal else I)
        self.pn = loop.ph(B) if self.nanful else None

    def ph(self):
        return SNum(self.p, self.pn)

    def solve(self, loop, posts):
        m = merge_posts(posts)
        e, nan = num_parts(m)
        if self.isreal:
            e = simp(real(e))
        elif z3.is_real(e):
            raise Unsupported("number changes from integer to real")
        fe = solve_num(loop, self.v0, self.p, e)
        if self.nanful:
            nan = nan if nan is not None else z3.BoolVal(False)
            fn = solve_bool(loop, self.n0, self.pn, nan)
            return Form(lambda t: SN(fe(t), fn(t)))
        if nan is not None:
            raise Retype()
        return Form(lambda t: SN(fe(t)))


class Retype(Exception):
    pass


def solve_num(loop, v0, p, e):
    k = loop.k
    pn = p.decl().name()
    if e.eq(p):
        return lambda t: v0
    d = delta(e, p)
    if pn not in names_in(d):
        loop.need_free(d)
        return sum_form(loop, v0, d)
    if pn not in names_in(e):
        loop.need_free(e)
        return lambda t: simp(z3.If(t > 0, z3.substitute(e, (k, simp(t - 1))), v0)) if not C().entails(t > 0) else simp(z3.substitute(e, (k, simp(t - 1))))
    # running maximum / minimum: e >= p in every case and e is one of p, x
    if z3.is_app(e) and e.decl().kind() == z3.Z3_OP_ITE:
        c, a, b = e.children()
        for cc, x, y in ((c, a, b), (simp(z3.Not(c)), b, a)):
            if y.eq(p) and pn not in names_in(x):
                if pn not in names_in(cc):
                    loop.need_free(cc, x)
                    return last_form(loop, v0, cc, x)
                q = simp(z3.And(z3.Implies(x > p, cc), z3.Implies(cc, x >= p)))
                for sign, g in ((1, z3.And(z3.Implies(x > p, cc), z3.Implies(cc, x >= p))), (-1, z3.And(z3.Implies(x < p, cc), z3.Implies(cc, x <= p)))):
                    if C().entails(g):
                        loop.need_free(x)
                        return runmax_form(loop, v0, x, sign)
    raise NotSolved("scalar recurrence")


def runmax_form(loop, v0, x, sign):
    from . import arr
    k = loop.k

    def at(t):
        q = z3.Int("$rm")
        M, W = arr.max_term(t, q, z3.substitute(x, (k, q)), sign)
        return simp(z3.If(t > 0, z3.If((M > v0) if sign > 0 else (M < v0), M, v0), v0))
    return at


def last_form(loop, v0, cond, x):
    """value x at the last index before t where cond holds, else v0"""
    c = C()
    k = loop.k
    L = c.unique_fun("last", [I], I)

    def at(t):
        cc = lambda j: z3.substitute(cond, (k, j))
        q = z3.Int("$lq")
        l = L(t)
        c2 = C()
        c2.assume_once(z3.And(l >= -1, l < t, z3.Implies(l >= 0, cc(l))))
        c2.assume_once(z3.ForAll([q], z3.Implies(z3.And(q > l, q >= 0, q < t), z3.Not(cc(q)))))
        return simp(z3.If(l >= 0, z3.substitute(x, (k, l)), v0))
    return at


def solve_bool(loop, v0, p, b):
    k = loop.k
    pn = p.decl().name()
    if b.eq(p):
        return lambda t: v0
    if pn not in names_in(b):
        loop.need_free(b)
        return lambda t: simp(z3.If(t > 0, z3.substitute(b, (k, simp(t - 1))), v0))
    t1 = simp(z3.substitute(b, (p, z3.BoolVal(True))))
    t0 = simp(z3.substitute(b, (p, z3.BoolVal(False))))
    loop.need_free(t0, t1)
    if z3.is_true(t1) or C().entails(t1):
        ex = exists_form(loop, t0)
        return lambda t: simp(z3.Or(v0, ex(t)))
    if z3.is_false(t0) or C().entails(z3.Not(t0)):
        ex = exists_form(loop, simp(z3.Not(t1)))
        return lambda t: simp(z3.And(v0, z3.Not(ex(t))))
    if t1.eq(t0):
        return lambda t: simp(z3.If(t > 0, z3.substitute(t0, (k, simp(t - 1))), v0))
    # conditional overwrite: b == ite(c, x, p)
    cnd = simp(t0 == t1)
    x = t0
    lf = None
    L = C().unique_fun("last", [I], I)

    def at(t):
        cc = lambda j: z3.substitute(cnd, (k, j))
        q = z3.Int("$lq")
        l = L(t)
        c2 = C()
        c2.assume_once(z3.And(l >= -1, l < t, z3.Implies(l >= 0, cc(l))))
        c2.assume_once(z3.ForAll([q], z3.Implies(z3.And(q > l, q >= 0, q < t), z3.Not(cc(q)))))
        return simp(z3.If(l >= 0, z3.substitute(x, (k, l)), v0))
    if C().entails(z3.Or(t0 == t1, z3.And(t1, z3.Not(t0)))):
        return at
    raise NotSolved("boolean recurrence")


class BoolSlot(Slot):
    def __init__(self, loop, v0, ex):
        self.v0 = bool_term(v0)
        self.p = loop.ph(B)

    def ph(self):
        return SBool(self.p)

    def solve(self, loop, posts):
        f = solve_bool(loop, self.v0, self.p, bool_term(merge_posts(posts)))
        return Form(lambda t: SB(f(t)))


def apps(t, decl):
    out, seen, st = [], set(), [t]
    while st:
        e = st.pop()
        if e.get_id() in seen:
            continue
        seen.add(e.get_id())
        if z3.is_app(e) and e.decl().eq(decl):
            out.append(e)
        if not z3.is_quantifier(e):
            st.extend(e.children())
    return out


def eqs_of(t):
    out, seen, st = [], set(), [t]
    while st:
        x = st.pop()
        if x.get_id() in seen:
            continue
        seen.add(x.get_id())
        if z3.is_eq(x):
            out.append(x)
        st += x.children()
    return out


def _decl(P):
    return P if isinstance(P, z3.FuncDeclRef) else P().decl()


def localize(e, me, conds):
    """under the conditions of a case, other reads of the same array that denote the element itself"""
    if z3.is_app(e) and e.decl().kind() == z3.Z3_OP_ITE:
        c, a, b = e.children()
        c2 = localize(c, me, conds)
        return z3.If(c2, localize(a, me, conds + [c]), localize(b, me, conds + [z3.Not(c)]))
    if not conds or not me.children():
        return e
    rep = []
    for x in apps(e, me.decl()):
        if not x.eq(me) and C().entails(z3.Implies(z3.And(*conds), z3.And(*[p == q for p, q in zip(x.children(), me.children())]))):
            rep.append((x, me))
    return z3.substitute(e, *rep) if rep else e


def _inst(v):
    return hasattr(type(v), "__pv_adopt__") and not isinstance(v, SArr) and hasattr(v, "__dict__")


def _seqof(v):
    return v.seq() if isinstance(v, PList) else v


def _safe(get, i, alt):
    """element of a sequence that may be empty; alt: another value of the same type"""
    try:
        return get(i)
    except (IndexError, Unsupported):
        if alt is None:
            raise
        return alt(i)


def conjs(c):
    return [y for x in c.children() for y in conjs(x)] if z3.is_and(c) else [c]


class FnSlot(Slot):
    """function of integer indices (array content, list of fixed symbolic length); values: scalars, tuples, instances, arrays, lists"""
    def __init__(self, loop, arity, get0, ex_gets, group=None, base=None):
        self.arity = arity
        self.get0 = get0
        self.group = [] if group is None else group       # placeholders of the parts of one element: (function, initial value)
        self.base = arity if base is None else base
        self.gen = [z3.Int("$ga%d_%d" % (len(C().index_stack), a)) for a in range(arity)]
        g = tuple(self.gen)
        v = get0(g)
        exs = [f(g) for f in ex_gets]
        self.kind = None
        if isinstance(v, Havocked) or v is None and exs:
            v = exs[0] if exs else v
        if arity == self.base and any(isinstance(x, Choice) or (isinstance(x, SArr) and x.ndim > 0) != (isinstance(v, SArr) and v.ndim > 0)
                                      or isinstance(x, PList) != isinstance(v, PList) for x in exs) and not isinstance(v, Choice):
            # an element is replaced by a value of another type
            self.kind = "any"
            self.P = loop.phf([I] * arity, z3.DeclareSort("Obj"))
            return
        if isinstance(v, tuple) and type(v) is tuple:
            if any(not isinstance(x, tuple) or len(x) != len(v) for x in exs):
                raise Unsupported("loop state: elements of different structure")
            self.kind = "tuple"
            self.sub = [FnSlot(loop, arity, (lambda idx, a=a: get0(idx)[a]), [(lambda idx, a=a, f=f: f(idx)[a]) for f in ex_gets], self.group, self.base) for a in range(len(v))]
            return
        if _inst(v):
            if any(type(x) is not type(v) or set(x.__dict__) != set(v.__dict__) for x in exs):
                raise Unsupported("loop state: elements of different structure")
            self.kind = "inst"
            self.cls = type(v)
            self.names = sorted(v.__dict__)
            self.const = {}
            self.sub = {}
            for n in self.names:
                x = v.__dict__[n]
                if not is_sym(x) and not isinstance(x, (PList, SArr, tuple, int, float, str)) and not _inst(x):
                    if any(y.__dict__[n] is not x for y in exs):
                        raise Unsupported("loop state: attribute %s of the elements" % n)
                    self.const[n] = x
                    continue
                self.sub[n] = FnSlot(loop, arity, (lambda idx, n=n: get0(idx).__dict__[n]), [(lambda idx, n=n, f=f: f(idx).__dict__[n]) for f in ex_gets], self.group, self.base)
            return
        if isinstance(v, SArr) and v.ndim > 0:
            if any(not isinstance(x, SArr) or x.ndim != v.ndim for x in exs):
                raise Unsupported("loop state: elements of different structure")
            self.kind = "arr"
            nd = v.ndim
            ks = [v.kind] + [x.kind for x in exs]
            self.akind = "float" if "float" in ks else v.kind
            cut = lambda f: (lambda idx: f(tuple(idx[:arity])).get(tuple(idx[arity:])))
            shp = lambda f, a: (lambda idx: SN(_z(f(tuple(idx)).shape_t[a])))
            self.shape = []
            for a in range(nd):
                ds = [simp(_z(x.shape_t[a])) for x in [v] + exs]
                if all(d.eq(ds[0]) for d in ds) and not names_in(ds[0]) & ({x.decl().name() for x in g} | {loop.k.decl().name()} | loop.phnames):
                    self.shape.append(v.shape_t[a] if isinstance(v.shape_t[a], int) else ds[0])
                else:
                    self.shape.append(FnSlot(loop, arity, shp(get0, a), [shp(f, a) for f in ex_gets], self.group, self.base))
            self.sub = FnSlot(loop, arity + nd, cut(get0), [cut(f) for f in ex_gets], self.group, self.base)
            return
        if isinstance(v, (PList, Seq)):
            if any(not isinstance(x, (PList, Seq)) for x in exs):
                raise Unsupported("loop state: elements of different structure")
            self.kind = "list"
            ln = lambda f: (lambda idx: SN(_seqof(f(tuple(idx))).nt))
            el = lambda f, alt=None: (lambda idx: _safe(_seqof(f(tuple(idx[:arity]))).get, idx[arity], alt and (lambda i: alt(idx))))
            e0 = el(ex_gets[0]) if ex_gets else None
            self.plist = isinstance(v, PList)
            self.len = FnSlot(loop, arity, ln(get0), [ln(f) for f in ex_gets], self.group, self.base)
            self.sub = FnSlot(loop, arity + 1, el(get0, e0), [el(f) for f in ex_gets], self.group, self.base)
            return
        if isinstance(v, (SBool, bool)):
            self.kind = "bool"
            self.P = loop.phf([I] * arity, B)
            self.group.append((self.P, lambda idx: bool_term(get0(idx))))
        elif num_parts(v) is not None:
            self.kind = "num"
            self.isreal = z3.is_real(num_parts(v)[0]) or any(z3.is_real(num_parts(x)[0]) for x in exs if num_parts(x))
            self.mixed = self.isreal and any(isinstance(x, values.SMixed) for x in exs) and not isinstance(v, SBool) and \
                all(values._mixable(x, num_parts(x)[0]) for x in [v] + exs)
            self.nanful = num_parts(v)[1] is not None or any(num_parts(x)[1] is not None for x in exs if num_parts(x))
            self.P = loop.phf([I] * arity, R if self.isreal else I)
            self.PN = loop.phf([I] * arity, B) if self.nanful else None
            self.group.append((self.P, lambda idx: real(num_parts(get0(idx))[0]) if self.isreal else num_parts(get0(idx))[0]))
            if self.nanful:
                self.group.append((self.PN, lambda idx: num_parts(get0(idx))[1] if num_parts(get0(idx))[1] is not None else z3.BoolVal(False)))
        elif isinstance(v, (SStr, str)):
            self.kind = "str"
            self.P = loop.phf([I] * arity, z3.DeclareSort("Str"))
            self.group.append((self.P, lambda idx: str_term(get0(idx))))
        elif isinstance(v, SymObj):
            self.kind = "obj"
            self.attrs, self.label = v._attrs, v._label
            self.P = loop.phf([I] * arity, v.e.sort())
            self.group.append((self.P, lambda idx: get0(idx).e))
        else:
            raise Unsupported("loop state: elements of type %s" % type(v).__name__)

    def value(self, idx):
        a = [_z(i) for i in idx]
        if self.kind == "tuple":
            return tuple(s.value(idx) for s in self.sub)
        if self.kind in ("inst", "arr", "list"):
            return self.build(lambda sub: (lambda ix: sub.value(ix)), idx)
        if self.kind == "any":
            return Opaque("$old", self.P(*a))
        if self.kind == "bool":
            return SBool(self.P(*a))
        if self.kind == "str":
            return SStr(self.P(*a))
        if self.kind == "obj":
            return SymObj(self.P(*a), self.attrs, self.label)
        if self.mixed:
            return values.SMixed(self.P(*a))
        return SNum(self.P(*a), self.PN(*a) if self.nanful else None)

    def build(self, of, idx):
        """a composite value at idx from the functions of its parts"""
        idx = tuple(idx)
        if self.kind == "inst":
            r = object.__new__(self.cls)
            core.BORN[id(r)] = (r, tick())
            for n in self.names:
                r.__dict__[n] = self.const[n] if n in self.const else of(self.sub[n])(idx)
            return r
        if self.kind == "arr":
            f = of(self.sub)
            return SArr([_z(of(d)(idx)) if isinstance(d, FnSlot) else d for d in self.shape], lambda ix: f(idx + tuple(ix)), self.akind)
        f = of(self.sub)
        q = Seq(_z(of(self.len)(idx)), lambda i: f(idx + (i,)))
        return PList(_seq=q) if self.plist else q

    def solve_get(self, loop, posts):
        """posts: [(cond, get)] -> t -> get"""
        g = tuple(self.gen)
        if self.kind in ("inst", "arr", "list"):
            if self.kind == "inst":
                parts = [(self.sub[n], (lambda f, n=n: (lambda idx: f(idx).__dict__[n]))) for n in self.sub]
            elif self.kind == "arr":
                n = self.arity
                parts = [(d, (lambda f, a=a: (lambda idx: SN(_z(f(tuple(idx)).shape_t[a]))))) for a, d in enumerate(self.shape) if isinstance(d, FnSlot)]
                parts.append((self.sub, lambda f: (lambda idx: f(tuple(idx[:n])).get(tuple(idx[n:])))))
            else:
                n = self.arity
                alt = None
                parts = [(self.len, lambda f: (lambda idx: SN(_seqof(f(tuple(idx))).nt))),
                         (self.sub, lambda f: (lambda idx: _seqof(f(tuple(idx[:n]))).get(idx[n])))]
            sol = {id(sub): sub.solve_get(loop, [(c, pick(f)) for c, f in posts]) for sub, pick in parts}
            return lambda t: (lambda idx: self.build(lambda sub: sol[id(sub)](t), idx))
        if self.kind == "tuple":
            subs = [s.solve_get(loop, [(c, (lambda idx, f=f, a=a: f(idx)[a])) for c, f in posts]) for a, s in enumerate(self.sub)]
            return lambda t: (lambda idx: tuple(s(t)(idx) for s in subs))
        m = merge_posts([(c, f(g)) for c, f in posts])
        v0 = self.get0
        if self.kind == "any":
            return self._replaced(loop, m, v0)
        if isinstance(m, Choice):
            raise Retype()
        if self.kind == "num":
            if num_parts(m) is None or isinstance(m, SArr) and m.ndim:
                raise Retype()
            e, nan = num_parts(m)
            if self.isreal:
                e = simp(real(e))
            fe = self._solve1(loop, self.P, e, lambda idx: (real(num_parts(v0(idx))[0]) if self.isreal else num_parts(v0(idx))[0]), True)
            if nan is not None and not self.nanful:
                raise Retype()
            if self.mixed and not self.nanful and isinstance(m, values.SMixed) and values._mixable(v0(g), num_parts(v0(g))[0]):
                mx = lambda e: values.SMixed(e) if e.decl().kind() == z3.Z3_OP_ITE else SN(e)
                return lambda t: (lambda idx: mx(simp(fe(t, idx))))
            if self.nanful:
                fb = lambda x: x if x is not None else z3.BoolVal(False)
                fn = self._solve1(loop, self.PN, fb(nan), lambda idx: fb(num_parts(v0(idx))[1]), False)
                return lambda t: (lambda idx: SN(fe(t, idx), fn(t, idx)))
            return lambda t: (lambda idx: SN(fe(t, idx)))
        if self.kind == "bool":
            f = self._solve1(loop, self.P, bool_term(m), lambda idx: bool_term(v0(idx)), False)
            return lambda t: (lambda idx: SB(f(t, idx)))
        if self.kind == "str":
            f = self._solve1(loop, self.P, str_term(m), lambda idx: str_term(v0(idx)), False)
            return lambda t: (lambda idx: SStr(f(t, idx)))
        f = self._solve1(loop, self.P, m.e, lambda idx: v0(idx).e, False)
        return lambda t: (lambda idx: SymObj(f(t, idx), self.attrs, self.label))

    def _replaced(self, loop, m, v0):
        """elements overwritten as a whole, each in the one iteration its index determines"""
        k, g = loop.k, self.gen
        me = self.P(*g)
        wr = []

        def walk(v, conds):
            if isinstance(v, Choice):
                walk(v.a, conds + [v.c])
                walk(v.b, conds + [simp(z3.Not(v.c))])
            elif not (isinstance(v, Opaque) and v.tag == "$old" and v.e is not None and v.e.eq(me)):
                wr.append((simp(z3.And(*conds)) if conds else z3.BoolVal(True), v))
        walk(m, [])
        j = None
        gn = {x.decl().name() for x in g}
        for c, v in wr:
            j1 = None
            for q in sorted(conjs(c), key=lambda q: not (gn & names_in(q))):
                j1 = solve_index(q, k) if j1 is None else j1
            if j1 is None or j is not None and not j1.eq(j):
                raise NotSolved("array recurrence")
            j = j1
            loop.need_free(c)
            if any(nm in vkey(v) for nm in loop.phnames):
                raise NotSolved("array recurrence")
        if not wr:
            return lambda t: v0

        def at(t, idx):
            ps = [(x, _z(i)) for x, i in zip(g, idx)]
            jj = z3.substitute(j, *ps)
            r = v0(idx)
            for c, v in reversed(wr):
                # an index may mention k: simultaneous
                pk = [(k, jj)] + ps
                r = merge(simp(z3.And(jj >= 0, jj < t, z3.substitute(c, *pk))), subst(v, pk), r)
            return r
        return lambda t: (lambda idx: at(_z(t), idx))

    def _solve1(self, loop, P, e, v0, numeric):
        k = loop.k
        g = self.gen
        me = P(*g)
        pn = me.decl().name()
        sub = lambda term, idx: z3.substitute(term, *zip(g, [_z(i) for i in idx])) if g else term
        subk = lambda term, idx, kk: z3.substitute(term, (k, kk), *zip(g, [_z(i) for i in idx]))     # an index may mention k: simultaneous
        if pn in names_in(e):
            e = simp(localize(e, me, []))
        if e.eq(me):
            return lambda t, idx: v0(idx)
        if pn not in names_in(e):
            loop.need_free(e)

            def at(t, idx):
                x = subk(e, idx, simp(t - 1))
                return simp(z3.If(t > 0, x, v0(idx)))
            return at
        if numeric:
            d = delta(e, me)
            if pn not in names_in(d):
                loop.need_free(d)

                def at(t, idx):
                    s = terms.mk_sum(t, lambda j: subk(d, idx, j))
                    return simp(v0(idx) + (real(s) if z3.is_real(v0(idx)) else s))
                # a single write per element is easier to use as a point update
                pw = self._point(loop, P, me, pn, e, v0, sub)
                return pw if pw is not None else at
        pw = self._point(loop, P, me, pn, e, v0, sub)
        if pw is not None:
            return pw
        raise NotSolved("array recurrence")

    def _point(self, loop, P, me, pn, e, v0, sub):
        """e == ite(cond, V, P(gen)) where cond determines the iteration"""
        k = loop.k
        cases = []
        e = lift_points(e, k)

        def walk(t, conds):
            if z3.is_app(t) and t.decl().kind() == z3.Z3_OP_ITE:
                c, a, b = t.children()
                walk(a, conds + [c])
                walk(b, conds + [simp(z3.Not(c))])
            else:
                cases.append((conds, t))
        walk(e, [])
        wr0 = [(simp(z3.And(*c)) if c else z3.BoolVal(True), t) for c, t in cases if not t.eq(me)]
        if not wr0:
            return None
        if any(solve_index(c, k) is None for c, t in wr0 if not z3.is_false(c)):
            ats = [x for x in eqs_of(e) if any(y.eq(z) for y in x.children() for z in self.gen[:self.base]) and k.decl().name() in names_in(x)]
            if ats and all(x.eq(ats[0]) for x in ats):
                off = simp(z3.substitute(e, (ats[0], z3.BoolVal(False))))
                if off.eq(me) or C().entails(off == me):
                    wr0 = [(ats[0], simp(z3.substitute(e, (ats[0], z3.BoolVal(True)))))]
        wr = []
        j = None
        base = self.base
        g = self.gen
        inits = [(P_, z3.Function("$init_" + _decl(P_).name(), *[I] * _decl(P_).arity(), _decl(P_).range()) if _decl(P_).arity() else z3.Const("$init_" + _decl(P_).name(), _decl(P_).range()), f0)
                 for P_, f0 in self.group]

        def initial(t):
            """in iteration j the whole element still has its initial value"""
            for P_, I_, f0 in inits:
                d = _decl(P_)
                for _ in range(4):
                    rep = [(x, I_(*x.children()) if d.arity() else I_) for x in apps(t, d) if all(x.arg(a).eq(g[a]) for a in range(base))]
                    if not rep:
                        break
                    t = z3.substitute(t, *rep)
            return t
        for c, t in wr0:
            if z3.is_false(c):
                continue
            j1 = solve_index(c, k)
            if j1 is None or (j is not None and not j1.eq(j)):
                if DEBUGP: print("POINT noindex", me, "|", c, "|", t, j1, j)
                return None
            j = j1
            # the written index is the generic one: key(k) == g
            for q in (c.children() if z3.is_and(c) else [c]):
                if z3.is_eq(q):
                    for A, G in (q.children(), q.children()[::-1]):
                        if any(G.eq(x) for x in g) and not z3.is_const(A) and k.decl().name() in names_in(A):
                            rest = [z3.substitute(y, (A, G)) if not y.eq(q) else y for y in (c.children() if z3.is_and(c) else [c])]
                            c, t = z3.And(*rest), z3.substitute(t, (A, G))
                            break
            # in iteration j the element still has its initial value
            c = initial(simp(z3.substitute(c, (k, j))))
            t = initial(simp(z3.substitute(t, (k, j))))
            if pn in names_in(c, t):
                if DEBUGP: print("POINT", me, "|", c, "|", t)
                return None
            loop.need_free(c, t)
            wr.append((c, t))
        if not wr:
            return None

        def back(t):
            for _ in range(6):
                rep = []
                for P_, I_, f0 in inits:
                    d = I_ if isinstance(I_, z3.FuncDeclRef) else I_.decl()
                    rep += [(x, f0(tuple(ix(a) for a in x.children()))) for x in apps(t, d)]
                rep = [(x, y if x.sort() == y.sort() else real(y)) for x, y in rep]
                if not rep:
                    return t
                t = z3.substitute(t, *rep)
            raise NotSolved("nested element")

        def at(t, idx):
            jj = sub(j, idx)
            r = v0(idx)
            for c, x in reversed(wr):
                cc = back(sub(c, idx))
                xx = back(sub(x, idx))
                if xx.sort() != r.sort():
                    xx, r = real(xx), real(r)
                r = z3.If(z3.And(jj >= 0, jj < t, cc), xx, r)
            return simp(r)
        return at


class ArrFnSlot(Slot):
    """content of an array buffer"""
    def __init__(self, loop, v0, ex, arity):
        self.f = FnSlot(loop, arity, v0.fn, [x.fn for x in ex])
        self.arity = arity

    def ph(self):
        return ArrFn(lambda idx: self.f.value(idx))

    def solve(self, loop, posts):
        s = self.f.solve_get(loop, [(c, v.fn) for c, v in posts])
        gen = tuple(self.f.gen)

        def confirm(lp, post, installed):
            a, b = post.fn(gen), s(simp(lp.k + 1))(gen)
            if vkey(a) == vkey(b):
                return True
            return C().entails_q(veq(a, b), 4000)
        return Form(lambda t: ArrFn(memo(s(t))), confirm)


class SArrSlot(Slot):
    """array held by value (rebound in every iteration)"""
    def __init__(self, loop, v0, ex):
        self.v0 = v0
        for x in ex:
            if x.ndim != v0.ndim:
                raise Retype()
        if any(not _same_dims(v0, x) for x in ex):
            raise Unsupported("loop state: array changes its shape")
        rd = v0.reader()
        self.f = FnSlot(loop, v0.ndim, rd, [x.reader() for x in ex])
        ks = [v0.kind] + [x.kind for x in ex]
        self.kind = "float" if "float" in ks else ks[-1]

    def ph(self):
        return SArr(self.v0.shape_t, lambda idx: self.f.value(idx), self.kind)

    def solve(self, loop, posts):
        for c, v in posts:
            if not isinstance(v, SArr) or not _same_dims(self.v0, v):
                raise Unsupported("loop state: array changes its shape")
        s = self.f.solve_get(loop, [(c, v.reader()) for c, v in posts])
        return Form(lambda t: SArr(self.v0.shape_t, s(t), self.kind))


def _same_dims(a, b):
    from .arr import same_dim
    return a.ndim == b.ndim and all(same_dim(x, y) for x, y in zip(a.shape_t, b.shape_t))


class TupleSlot(Slot):
    def __init__(self, loop, v0, ex):
        self.sub = [make_slot(loop, x, [e[i] for e in ex]) for i, x in enumerate(v0)]

    def ph(self):
        return tuple(s.ph() for s in self.sub)

    def solve(self, loop, posts):
        fs = [s.solve(loop, [(c, v[i]) for c, v in posts]) for i, s in enumerate(self.sub)]
        return Form(lambda t: tuple(f.at(t) for f in fs))


class SeqSlot(Slot):
    """list content; mode 'append' (every path extends the old content) or 'update' (fixed length)"""
    def __init__(self, loop, v0, ex):
        self.v0 = v0
        self.mode = "append"
        if all(_seq_len_same(v0, x) for x in ex):
            self.mode = "update"
        if self.mode == "update" and v0.concrete():
            self.mode = "vector"
            self.sub = [make_slot(loop, v0.get(i), [x.get(i) for x in ex]) for i in range(v0.n)]
            self.p = Seq.const([s.ph() for s in self.sub])
        elif self.mode == "update":
            self.f = FnSlot(loop, 1, lambda idx: v0.get(idx[0]), [(lambda idx, x=x: x.get(idx[0])) for x in ex])
            self.p = Seq(v0.n, lambda i: self.f.value((i,)), "phu")
        else:
            n = loop.ph(I)
            loop.assume(n >= v0.nt)
            self.p = Seq(n, lambda i: self._elem(loop, i), "ph")
            self._ex = ex

    def _elem(self, loop, i):
        return Opaque("element of a list under construction")

    def ph(self):
        return self.p

    def solve(self, loop, posts):
        if self.mode == "vector":
            if any(not (v.concrete() and v.n == self.v0.n) for c, v in posts):
                raise Retype()
            fs = [s.solve(loop, [(c, v.get(i)) for c, v in posts]) for i, s in enumerate(self.sub)]
            return Form(lambda t: Seq.const([f.at(t) for f in fs]))
        if self.mode == "update":
            for c, v in posts:
                if not _seq_len_same(self.v0, v):
                    raise Retype()
            s = self.f.solve_get(loop, [(c, lambda idx, v=v: v.get(idx[0])) for c, v in posts])
            return Form(lambda t: Seq(self.v0.n, lambda i: s(t)((i,))))
        exts = []
        for c, v in posts:
            e = _strip(v, self.p)
            if e is None:
                raise NotSolved("list is not extended")
            loop.need_free_value(e)
            exts.append((c, e))
        return append_form(loop, self.v0, exts)


def _seq_len_same(a, b):
    if a.concrete() and b.concrete():
        return a.n == b.n
    return simp(a.nt).eq(simp(b.nt)) or (b.kind != "cat" and C().entails(a.nt == b.nt))


def _strip(v, p):
    """what v adds to p, or None"""
    if v is p:
        return Seq.const(())
    pp = p.parts if p.kind == "cat" else (p,)
    if v.kind == "cat":
        vp = v.parts
        if len(vp) >= len(pp) and all(x is y for x, y in zip(pp, vp)):
            rest = vp[len(pp):]
            if not rest:
                return Seq.const(())
            r = rest[0]
            for x in rest[1:]:
                r = Seq.cat(r, x)
            return r
        # trailing constant part of p merged with appended elements
        if pp and len(vp) >= len(pp) and all(x is y for x, y in zip(pp[:-1], vp)) and pp[-1].kind == "const" and vp[len(pp) - 1].kind == "const":
            a, b = pp[-1].parts, vp[len(pp) - 1].parts
            if len(b) >= len(a) and all(x is y for x, y in zip(a, b)):
                r = Seq.const(b[len(a):])
                for x in vp[len(pp):]:
                    r = Seq.cat(r, x)
                return r
        return None
    if p.kind == "const" and v.kind == "const" and len(v.parts) >= len(p.parts) and all(x is y for x, y in zip(p.parts, v.parts)):
        return Seq.const(v.parts[len(p.parts):])
    return None


def append_form(loop, v0, exts):
    k = loop.k
    lens = set((e.n if e.concrete() else None) for c, e in exts)
    nonempty = [(c, e) for c, e in exts if not (e.concrete() and e.n == 0)]

    if not nonempty:
        mk = lambda t: Seq.const(())
        seg = lambda: Seq.const(())
    elif lens == {1}:
        x = merge_posts([(c, e.get(0)) for c, e in exts])
        mk = lambda t: Seq(t, lambda i: subst(x, [(k, _z(i))]))
        seg = lambda: Seq.const([x])
    elif lens == {0, 1}:
        cond = simp(z3.Or(*[c for c, e in nonempty]))
        x = merge_posts([(c, e.get(0)) for c, e in nonempty])
        mk = lambda t: Seq.filt(t, lambda j: simp(z3.substitute(cond, (k, _z(j)))), lambda j: subst(x, [(k, _z(j))]))
        seg = None
    else:
        s = exts[-1][1]
        for c, e in reversed(exts[:-1]):
            s = merge(c, e, s)
        if terms.occurs(s.nt, k) or len(exts) > 1 or True:
            from .values import seq_subst
            mk = lambda t: Seq.flat(t, lambda j: seq_subst(s, [(k, _z(j))]))
        seg = None
    cache = {}

    def at(t):
        key = simp(t).sexpr()
        if key not in cache:
            cache[key] = Seq.cat(v0, mk(simp(t)))
        return cache[key]

    sig = sorted((simp(c).sexpr(), vkey(e, loop.stamp)) for c, e in exts)

    def confirm_all(lp, posts, installed):
        out = []
        for c, v in posts:
            e = _strip(v, installed)
            if e is None:
                return False
            out.append((simp(c).sexpr(), vkey(e, lp.stamp)))
        if sorted(out) == sig:
            return True
        if len(posts) == len(exts):
            # the same conditions and elements up to equality
            for (c, v), (c2, e2) in zip(posts, exts):
                e = _strip(v, installed)
                if not simp(c).eq(simp(c2)):
                    return False
                if not C().entails_q(z3.Implies(c, veq(e, e2))):
                    return False
            return True
        return False
    f = Form(at)
    f.confirm_all = confirm_all
    return f


class PListSlot(Slot):
    """list held by value"""
    def __init__(self, loop, v0, ex):
        self.s = SeqSlot(loop, v0.seq(), [x.seq() for x in ex])

    def ph(self):
        return PList(_seq=self.s.ph())

    def solve(self, loop, posts):
        f = self.s.solve(loop, [(c, v.seq()) for c, v in posts])
        r = Form(lambda t: PList(_seq=f.at(t)))
        if hasattr(f, "confirm_all"):
            r.confirm_all = lambda lp, posts, inst: f.confirm_all(lp, [(c, v.seq()) for c, v in posts], inst.seq())
        return r


class MapSlot(Slot):
    """dictionary with stores at pairwise different keys: state (base, log)"""
    def __init__(self, loop, v0, ex):
        self.v0 = v0
        self.loop = loop

    def ph(self):
        return self.v0        # first guess from the initial state; confirmed by induction

    def solve(self, loop, posts):
        base, log = self.v0
        if isinstance(base, FMap):
            return fmap_form(loop, base, [(c, v[0]) for c, v in posts])
        if base is None and not log and any(isinstance(v[0], FMap) for c, v in posts):
            ms = [v[0] for c, v in posts if v[0] is not None]
            if not all(isinstance(m, FMap) for m in ms):
                raise NotSolved("dictionary recurrence")
            e = FMap.empty(ms[0].sort)
            return fmap_form(loop, e, [(c, e if v[0] is None else _rebase(v[0], e)) for c, v in posts])
        adds = []
        for c, v in posts:
            b, l = v
            if b is not base or len(l) < len(log) or any(x[0] is not y[0] or x[1] is not y[1] for x, y in zip(log, l)):
                raise NotSolved("dictionary recurrence")
            adds.append((c, l[len(log):]))
        return map_form(loop, base, log, adds)


def _stores(m, base):
    """stores that lead from base to m, last one per key; None if m does not come from base"""
    out = []
    while m is not base:
        if m is None or not isinstance(m, FMap) or m.parent is None:
            return None
        if not any(m.at_key.eq(x) for x, v in out):
            out.append((m.at_key, m.new))
        m = m.parent
    return out


def _rebase(m, base):
    """the stores of m, a map that started empty, on top of base"""
    st = []
    while m.parent is not None:
        st.append((m.at_key, m.new))
        m = m.parent
    if not z3.is_false(m.has(z3.Const("$rb", m.sort))):
        raise NotSolved("dictionary recurrence")
    for x, new in reversed(st):
        base = base.store(x, new[0]) if new else base.delete(x)
    return base


def fmap_form(loop, base, posts):
    """every iteration stores under (or deletes) its own key: the key is injective in the iteration"""
    k = loop.k
    c_ = C()
    key, ws = None, []
    for c, m in posts:
        st = _stores(m, base)
        if st is None or len(st) > 1:
            raise NotSolved("dictionary recurrence")
        if st:
            x, new = st[0]
            if key is None:
                key = x
            elif not key.eq(x):
                raise NotSolved("dictionary recurrence: different keys")
            for v in new:
                loop.need_free_value(v)
            loop.need_free(x, c)
            ws.append((c, new))
    if key is None or not terms.occurs(key, k):
        raise NotSolved("dictionary recurrence: key does not depend on the iteration")
    probe = solve_key(key, k, z3.Const("$sx", key.sort()))
    inv = None
    if probe is None:
        i, j = c_.fresh_const("ki", I), c_.fresh_const("kj", I)
        g = z3.Implies(z3.And(i >= 0, i < j, j < loop.n), z3.substitute(key, (k, i)) != z3.substitute(key, (k, j)))
        if not c_.entails_q(g):
            raise Unsupported("dictionary keys of different iterations may agree")
        inv = c_.unique_fun("inv", [key.sort()], I)
        q = z3.Int("$iq")
        c_.assume(z3.ForAll([q], z3.Implies(z3.And(q >= 0, q < loop.n), inv(z3.substitute(key, (k, q))) == q)))

    def index(x):
        j = solve_key(key, k, x)
        return inv(x) if j is None else j
    cond = simp(z3.Or(*[c for c, new in ws])) if len(ws) < len(posts) else None
    present = simp(z3.Or(*[c for c, new in ws if new])) if any(not new for c, new in ws) else None
    vals = [(c, new[0]) for c, new in ws if new]
    val = merge_posts(vals) if vals else None
    sub = lambda t, j: simp(z3.substitute(t, (k, j)))

    def touched(x, t):
        j = index(x)
        g = [j >= 0, j < t, sub(key, j) == x]
        if cond is not None:
            g.append(sub(cond, j))
        return simp(z3.And(*g)), j

    def at(t):
        t = simp(t)

        def has(x):
            tc, j = touched(x, t)
            return z3.If(tc, z3.BoolVal(True) if present is None else sub(present, j), base.has(x))

        def vl(x):
            tc, j = touched(x, t)
            if val is None or z3.is_false(tc):
                return base.val(x)
            v = subst(val, [(k, j)])
            if z3.is_true(tc):
                return v
            b = base.has(x)
            if z3.is_false(b):
                return v
            return merge(tc, v, base.val(x))
        order = None
        if cond is None and present is None and base.order is not None and base.order.concrete() and base.order.n == 0:
            order = Seq(t, lambda i: key_value(sub(key, _z(i))))
        return (FMap(base.sort, has, vl, order), ())
    f = Form(at)

    def confirm_all(lp, posts, installed):
        out = []
        for c, v in posts:
            st = _stores(v[0], installed[0])
            if st is None or len(st) > 1 or (st and not st[0][0].eq(key)):
                return False
            out.append((c, st[0][1] if st else None))
        st2 = [(c, n) for c, n in out if n is not None]
        c2 = simp(z3.Or(*[c for c, n in st2])) if len(st2) < len(out) else z3.BoolVal(True)
        c1 = cond if cond is not None else z3.BoolVal(True)
        p2 = simp(z3.Or(*[c for c, n in st2 if n])) if any(not n for c, n in st2) else z3.BoolVal(True)
        p1 = present if present is not None else z3.BoolVal(True)
        if not (c1.eq(c2) and p1.eq(p2)) and not C().entails_q(z3.And(c1 == c2, z3.Implies(c1, p1 == p2))):
            return False
        vs = [(c, n[0]) for c, n in st2 if n]
        if not vs:
            return val is None
        v2 = merge_posts(vs)
        if same(v2, val, lp.stamp):
            return True
        try:
            return C().entails_q(z3.Implies(z3.And(c1, p1), veq(v2, val)), 4000)
        except Unsupported:
            return False
    f.confirm_all = confirm_all
    return f


def map_form(loop, base, log, adds):
    k = loop.k
    for c, a in adds:
        for kk, vv in a:
            loop.need_free_value((kk, vv))
    if all(len(a) == 1 for c, a in adds):
        cond = None
    elif all(len(a) <= 1 for c, a in adds) and any(a for c, a in adds):
        cond = simp(z3.Or(*[c for c, a in adds if a]))
    else:
        raise NotSolved("dictionary recurrence")
    key = merge_posts([(c, a[0][0]) for c, a in adds if a])
    val = merge_posts([(c, a[0][1]) for c, a in adds if a])
    if base is not None or log:
        raise NotSolved("dictionary not empty at loop entry")
    sig = vkey((key, val), loop.stamp) + (cond.sexpr() if cond is not None else "")

    def at(t):
        return (SymMap(t, lambda j: subst(key, [(k, _z(j))]), lambda j: subst(val, [(k, _z(j))]),
                       None if cond is None else (lambda j: simp(z3.substitute(cond, (k, _z(j)))))), ())
    f = Form(at)

    def confirm_all(lp, posts, installed):
        ib, il = installed
        adds2 = []
        for c, v in posts:
            b, l = v
            if b is not ib:
                return False
            adds2.append((c, l))
        if cond is None and not all(len(a) == 1 for c, a in adds2):
            return False
        if any(len(a) > 1 for c, a in adds2):
            return False
        c2 = None if cond is None else simp(z3.Or(*[c for c, a in adds2 if a]))
        k2 = merge_posts([(c, a[0][0]) for c, a in adds2 if a])
        v2 = merge_posts([(c, a[0][1]) for c, a in adds2 if a])
        s2 = vkey((k2, v2), lp.stamp) + (c2.sexpr() if c2 is not None else "")
        return s2 == sig
    f.confirm_all = confirm_all
    return f


class ConstSlot(Slot):
    """a value that may only be overwritten"""
    def __init__(self, loop, v0, ex):
        self.v0 = v0

    def ph(self):
        return Opaque("$ph-opaque")

    def solve(self, loop, posts):
        for c, v in posts:
            if isinstance(v, Opaque) and v.tag == "$ph-opaque":
                raise NotSolved("conditionally overwritten")
        m = merge_posts(posts)
        loop.need_free_value(m)
        return overwrite_form(loop, self.v0, m)


class VagueSlot(Slot):
    """a local name that only some iterations bind"""
    def ph(self):
        return Havocked("local bound in some iterations")

    def solve(self, loop, posts):
        return Havoc(lambda: Havocked("local bound in some iterations"))


def overwrite_form(loop, v0, m):
    k = loop.k

    def at(t):
        x = subst(m, [(k, simp(t - 1))])
        if C().entails(t > 0):
            return x
        if v0 is UNBOUND:
            return x if loop.final_nonempty else Havocked("unbound")
        try:
            return merge(t > 0, x, v0)
        except Unsupported:
            return Havocked("overwritten")

    f = Form(at)

    def confirm_all(lp, posts, installed):
        m2 = merge_posts(posts)
        if same(m2, m, lp.stamp):
            return True
        try:
            return C().entails_q(veq(m2, m), 4000)
        except Unsupported:
            return False
    f.confirm_all = confirm_all
    return f


UNBOUND = Tok("UNBOUND")
SPLIT = Tok("SPLIT")


def merge_posts(posts):
    r = posts[-1][1]
    for c, v in reversed(posts[:-1]):
        if v is r:
            continue
        r = merge(c, v, r)
    return r


def make_slot(loop, v0, ex, arity=None):
    if isinstance(v0, ArrFn):
        return ArrFnSlot(loop, v0, ex, arity)
    if isinstance(v0, Seq):
        return SeqSlot(loop, v0, ex)
    if isinstance(v0, (SBool, bool)) and all(isinstance(x, (SBool, bool)) for x in ex):
        return BoolSlot(loop, v0, ex)
    if isinstance(v0, SArr) and all(isinstance(x, SArr) for x in ex):
        if v0.ndim > 0:
            return SArrSlot(loop, v0, ex)
    if num_parts(v0) is not None and all(num_parts(x) is not None for x in ex) and not isinstance(v0, bool):
        return NumSlot(loop, v0, ex)
    if isinstance(v0, PList) and all(isinstance(x, PList) for x in ex):
        return PListSlot(loop, v0, ex)
    if isinstance(v0, tuple) and len(v0) == 2 and (v0[0] is None or isinstance(v0[0], (SymMap, FMap))) and isinstance(v0[1], tuple):
        return MapSlot(loop, v0, ex)
    if isinstance(v0, tuple) and all(isinstance(x, tuple) and len(x) == len(v0) for x in ex) and type(v0) is tuple:
        return TupleSlot(loop, v0, ex)
    return ConstSlot(loop, v0, ex)


# ------------------------------------------------------------------ the loop
def mutables(v, stamp, d=5, out=None):
    """ids of the mutable containers created after stamp that are reachable from v"""
    if out is None:
        out = set()
    if d <= 0:
        return out
    if isinstance(v, tuple):
        for x in v:
            mutables(x, stamp, d - 1, out)
    elif isinstance(v, Seq):
        if v.kind in ("const", "cat"):
            for x in v.parts:
                mutables(x, stamp, d - 1, out)
    elif isinstance(v, (PList, PDict, PSet)):
        if born(v) > stamp:
            out.add(id(v))
            if isinstance(v, PList):
                mutables(v.seq(), stamp, d - 1, out)
            elif isinstance(v, PDict) and not v.symbolic():
                for x in dict.values(v):
                    mutables(x, stamp, d - 1, out)
    elif isinstance(v, SArr):
        b = getattr(v, "buf", None)
        if b is not None and born(b) > stamp:
            out.add(id(b))
    return out


class Path:
    __slots__ = ("kind", "cond", "facts", "objs", "locals", "confirmed", "value")


class Loop:
    def __init__(self, n, step, getter, setter, assigned, where, unbounded, it=None):
        c = C()
        self.c = c
        self.n = n
        self.step = step
        self.getter, self.setter, self.assigned = getter, setter, assigned
        self.where = where
        self.unbounded = unbounded
        self.k = c.fresh_const("k", I)
        self.stamp = tick()
        self.phn = 0
        self.phnames = set()
        self.pending = []
        self.final_nonempty = False
        self.it = it

    def ph(self, sort):
        self.phn += 1
        nm = "$ph%d_%s" % (self.phn, self.k.decl().name())
        self.phnames.add(nm)
        return z3.Const(nm, sort)

    def phf(self, dom, rng):
        self.phn += 1
        nm = "$ph%d_%s" % (self.phn, self.k.decl().name())
        self.phnames.add(nm)
        if not dom:
            x = z3.Const(nm, rng)
            return lambda: x
        return z3.Function(nm, *dom, rng)

    def assume(self, f):
        self.pending.append(f)

    def need_free(self, *ts):
        if names_in(*ts) & self.phnames:
            raise NotSolved("depends on other cells")

    def need_free_value(self, v):
        import re
        t = vkey(v, self.stamp)
        for nm in self.phnames:
            if nm in t:
                raise NotSolved("depends on other cells")
        if "Opaque($ph" in t:
            raise NotSolved("opaque")

    def same_length(self, paths):
        """the list iterated over keeps its length (only elements change)"""
        i = id(self.it)
        a = self.v0.get(("O", i, "seq"))
        return isinstance(a, Seq) and all(i not in p.objs or isinstance(p.objs[i][2].get("seq"), Seq) and _seq_len_same(a, p.objs[i][2]["seq"]) for p in paths)

    # one symbolic execution of the generic iteration; state: {cell: value}
    def round(self, state, forms=None, mute=True):
        c = self.c
        k = self.k
        paths = []
        st = c.push()
        c.index_stack.append(k)
        base = c.cnt
        if mute:
            c.mute += 1
        JOURNAL.append({})
        saved_loc = self.getter()
        try:
            c.assume(k >= 0)
            if not self.unbounded:
                c.assume(k < self.n)
            for f in self.pending:
                c.assume(f)
            self.install(state)

            def run():
                JOURNAL.append({})
                stamp = tick()
                loc0 = self.getter()
                p = Path()
                try:
                    try:
                        r = self.step(k)
                        p.kind = "cont" if r is CONT else "exit"
                        p.value = r
                    except Exception as e:
                        p.kind = "exit"
                        p.value = e
                    p.objs = {}
                    fr = JOURNAL[-1]
                    for i, (obj, pre, wb) in fr.items():
                        if born(obj) <= self.stamp and (wb is False or wb > self.stamp):
                            p.objs[i] = (obj, pre, get_state(obj))
                    p.locals = self.getter()
                    p.cond = simp(z3.And(*[f for kd, f in c.log if kd == "dec"])) if any(kd == "dec" for kd, f in c.log) else z3.BoolVal(True)
                    p.facts = [f for kd, f in c.log if kd in ("fact", "q")]
                    p.confirmed = {}
                    if forms is not None and p.kind == "cont":
                        for cell, fm in forms.items():
                            if hasattr(fm, "confirm_all"):
                                continue
                            p.confirmed[cell] = fm.confirm(self, self.post(p, cell, state), state[cell])
                    self.find_shared(p)
                    return p
                finally:
                    rollback(JOURNAL.pop(), stamp)
                    self.setter({x: loc0.get(x, UNBOUND) for x in self.assigned})

            c.explore(run, lambda kind, p: paths.append(p))
        finally:
            rollback(JOURNAL.pop())
            self.setter({x: saved_loc.get(x, UNBOUND) for x in self.assigned})
            if mute:
                c.mute -= 1
            c.index_stack.pop()
            c.pop(st)
            self.top = max(getattr(self, "top", 0), c.top)
        return paths

    def find_shared(self, p):
        """mutable objects created in the iteration that stay reachable from two cells: the local names become unknown"""
        by = {}
        for x in self.assigned:
            if x in p.locals:
                for o in mutables(p.locals[x], self.stamp):
                    by.setdefault(o, []).append(("L", x))
        heap = {}
        for i, (obj, pre, post) in p.objs.items():
            for key, v in post.items():
                if pre.get(key) is not v:
                    for o in mutables(v, self.stamp):
                        heap.setdefault(o, []).append(("O", i, key))
        for o, ls in by.items():
            if len(ls) + len(heap.get(o, ())) > 1:
                self.shared.update(ls)
        for o, hs in heap.items():
            if len(hs) > 1:
                raise Unsupported("one mutable value stored in two places in the loop at %s" % self.where)

    def post(self, p, cell, state):
        if cell[0] == "L":
            return p.locals.get(cell[1], UNBOUND)
        obj, key = self.objs[cell[1]], cell[2]
        o = p.objs.get(cell[1])
        if o is None:
            return state[cell] if cell in state else get_state(obj).get(key, UNBOUND)
        return o[2].get(key, UNBOUND)

    def install(self, state):
        by = {}
        loc = {}
        for cell, v in state.items():
            if cell[0] == "L":
                if v is not UNBOUND:
                    loc[cell[1]] = v
            else:
                by.setdefault(cell[1], {})[cell[2]] = v
        for i, upd in by.items():
            obj = self.objs[i]
            touch(obj)
            stt = dict(get_state(obj))
            for kk, v in upd.items():
                if v is UNBOUND:
                    stt.pop(kk, None)
                else:
                    stt[kk] = v
            set_state(obj, stt)
            mutated(obj)
        if loc:
            self.setter(loc)

    def run(self):
        c = self.c
        self.objs = {}
        self.fails = {}
        self.shared = set()
        v0 = {}
        base_cnt = c.cnt
        init_loc = self.getter()

        def add_cells(paths):
            new = False
            for p in paths:
                for i, (obj, pre, post) in p.objs.items():
                    if i not in self.objs:
                        self.objs[i] = obj
                    cur = get_state(obj)
                    for key in list(post) + [x for x in cur if x not in post]:
                        cell = ("O", i, key)
                        if cell not in v0:
                            v0[cell] = cur.get(key, UNBOUND)
                            new = True
            return new

        for x in self.assigned:
            v0[("L", x)] = init_loc.get(x, UNBOUND)
        paths = self.round({})
        add_cells(paths)
        self.v0 = v0
        if self.it is not None and id(self.it) in self.objs and not self.same_length(paths):
            raise Unsupported("sequence changed while iterating over it at " + self.where)
        cont = [p for p in paths if p.kind == "cont"]
        forms = {}
        slots = {}
        state = dict(v0)
        havocked = set()

        def retry_slot(cell, posts):
            ex = [v for cnd, v in posts]
            if v0[cell] is None and any(v is None for v in ex):
                raise Split(cell, self.objs.get(cell[1]) if cell[0] == "O" else None)
            if v0[cell] is UNBOUND or any(v is UNBOUND for v in ex):
                if cell[0] == "L" and any(v is UNBOUND for v in ex):
                    return VagueSlot()
                if any(v is UNBOUND for v in ex):
                    raise Unsupported("attribute deleted in a loop")
                if cell[0] == "L":
                    return ConstSlot(self, UNBOUND, ex)
                raise Peel()
            arity = None
            if isinstance(v0[cell], ArrFn):
                arity = len(self.objs[cell[1]].shape)
            try:
                s = make_slot(self, v0[cell], ex, arity)
            except Unsupported:
                if cell[0] != "L":
                    raise
                return ConstSlot(self, v0[cell], ex)
            if isinstance(s, ConstSlot) and cell[0] == "O":
                raise Peel()
            return s

        for rnd in range(MAX_ROUNDS):
            # choose state for this round
            for cell in v0:
                if cell in self.shared and cell not in havocked:
                    forms[cell] = Havoc(lambda: Havocked("loop variable that shares a mutable value"))
                    havocked.add(cell)
                    slots.pop(cell, None)
                if cell in forms:
                    state[cell] = forms[cell].at(self.k)
                    continue
                if cell in slots:
                    state[cell] = slots[cell].ph()
                    continue
                posts = [(p.cond, self.post(p, cell, state)) for p in cont]
                if not posts or all(v is v0[cell] or same(v, v0[cell], self.stamp) for cnd, v in posts):
                    forms[cell] = Unchanged(v0[cell])
                    state[cell] = v0[cell]
                else:
                    slots[cell] = retry_slot(cell, posts)
                    state[cell] = slots[cell].ph()
            paths = self.round(state, forms)
            if add_cells(paths):
                cont = [p for p in paths if p.kind == "cont"]
                for cell in v0:
                    if cell not in state:
                        state[cell] = v0[cell]
                continue
            cont = [p for p in paths if p.kind == "cont"]
            progress = False
            bad = []
            for cell, fm in list(forms.items()):
                if cell in havocked:
                    continue
                if hasattr(fm, "confirm_all"):
                    ok = fm.confirm_all(self, [(p.cond, self.post(p, cell, state)) for p in cont], state[cell]) if cont else True
                else:
                    ok = all(p.confirmed[cell] for p in cont)
                if not ok:
                    bad.append(cell)
            for cell in bad:
                fm = forms.pop(cell)
                progress = True
                self.fails[cell] = self.fails.get(cell, 0) + 1
                if self.fails[cell] > 2:
                    forms[cell] = self.havoc(cell, v0[cell], "closed form not confirmed")
                    havocked.add(cell)
                    continue
                if isinstance(fm, Unchanged):
                    posts = [(p.cond, self.post(p, cell, state)) for p in cont]
                    slots[cell] = retry_slot(cell, posts)
                elif cell in slots:
                    pass       # solve again from the placeholder
            unsolved = []
            for cell, sl in slots.items():
                if cell in forms or cell in bad:
                    continue
                posts = [(p.cond, self.post(p, cell, state)) for p in cont]
                if not posts:
                    forms[cell] = Unchanged(v0[cell])
                    progress = True
                    continue
                try:
                    self._cur = cell
                    forms[cell] = sl.solve(self, posts)
                    progress = True
                except NotSolved as e:
                    unsolved.append((cell, str(e)))
                except Retype:
                    slots[cell] = make_slot(self, v0[cell], [v for cnd, v in posts], len(self.objs[cell[1]].shape) if isinstance(v0[cell], ArrFn) else None)
                    progress = True
            if DEBUG:
                print("LOOP", self.where, "round", rnd, "paths", [(p.kind, str(p.cond)[:80], str(p.value)[:60]) for p in paths], "bad", [self.cellname(x) for x in bad],
                      "unsolved", [(self.cellname(x), w) for x, w in unsolved], "forms", [self.cellname(x) for x in forms if not isinstance(forms[x], Unchanged)])
            if not progress and not unsolved:
                break
            if not progress and unsolved:
                for cell, why in unsolved:
                    forms[cell] = self.havoc(cell, v0[cell], why)
                    havocked.add(cell)
        else:
            raise Unsupported("no closed form of the loop at %s" % self.where)
        tainted = [cell for cell in havocked]
        c.n_loops += 1
        if not tainted:
            c.loops_closed += 1
        if not c.mute:
            paths = self.round(state, None, mute=False)
        exits = [p for p in paths if p.kind == "exit"]
        for cell in tainted:
            if isinstance(forms[cell].at(self.k), Havocked):
                continue        # every use of it is undecided
            c.taint.append("%s: no closed form for %s" % (self.where, self.cellname(cell)))
        self.export = [p for p in paths if p.facts]
        self.last = paths
        if exits or self.unbounded:
            E = simp(z3.Or(*[p.cond for p in exits])) if exits else z3.BoolVal(False)
            if self.unbounded or c.branch(c.fresh("exit", B)):
                if not exits:
                    raise Infeasible()      # never terminates
                k0 = c.fresh("k0", I)
                c.assume(k0 >= 0)
                if not self.unbounded:
                    c.assume(k0 < self.n)
                self.assume_all(z3.Not(E), k0)
                c.assume(z3.substitute(E, (self.k, k0)))
                self.export_facts(k0)
                final = {cell: forms[cell].at(k0) for cell in forms}
                self.install_final(final)
                top = max(c.cnt, self.top)
                c.cnt = base_cnt
                c.index_stack.append(k0)
                try:
                    r = self.step(k0)
                finally:
                    c.index_stack.pop()
                    c.cnt = max(c.cnt, top)
                if r is CONT:
                    raise Infeasible()
                return r
            self.assume_all(z3.Not(E), self.n)
        self.export_facts(self.n)
        c.cnt = max(c.cnt, self.top)
        # loop variables and overwritten values keep their old value when there is no iteration
        need_fork = any(isinstance(f.at(self.n), Opaque) for cell, f in forms.items() if cell not in havocked)
        if need_fork:
            if not c.branch(self.n > 0):
                return END
        final = {cell: forms[cell].at(self.n) for cell in forms}
        self.install_final(final)
        return END

    def cellname(self, cell):
        if cell[0] == "L":
            return cell[1]
        return "%s of %s" % (cell[2], type(self.objs[cell[1]]).__name__)

    def install_final(self, final):
        for cell in list(final):
            v = final[cell]
            if isinstance(v, Opaque) and v.tag in ("unbound",):
                del final[cell]
        self.install(final)

    def havoc(self, cell, v0, why):
        c = self.c
        tag = "%s (%s)" % (self.cellname(cell), why)
        if isinstance(v0, Seq):
            return Havoc(lambda: Seq(c.fresh_const("hv", I), lambda i: Havocked(tag), "havoc"))
        if isinstance(v0, ArrFn):
            return Havoc(lambda: ArrFn(lambda idx: Havocked(tag)))
        if isinstance(v0, (SBool, bool)):
            return Havoc(lambda: SBool(c.fresh_const("hv", B)))
        if num_parts(v0) is not None:
            srt = R if z3.is_real(num_parts(v0)[0]) else I
            return Havoc(lambda: SNum(c.fresh_const("hv", srt)))
        if cell[0] == "O" and isinstance(v0, tuple):
            raise Unsupported("dictionary without closed form in the loop at %s" % self.where)
        return Havoc(lambda: Havocked(tag))

    def assume_all(self, f, bound):
        """for all 0<=k<bound: f(k)"""
        c = self.c
        f = simp(f)
        if z3.is_true(f):
            return
        if not terms.occurs(f, self.k):
            c.assume(z3.Implies(bound > 0, f))
            return
        if not _hq(f):
            for j in (simp(bound - 1), z3.IntVal(0)):
                c.assume(z3.Implies(bound > 0, z3.substitute(f, (self.k, j))))
        q = z3.Int("$lk%d" % len(c.index_stack))
        c.assume(z3.ForAll([q], z3.Implies(z3.And(q >= 0, q < bound), z3.substitute(f, (self.k, q)))))

    def export_facts(self, bound):
        for p in self.export:
            for f in p.facts:
                self.assume_all(z3.Implies(p.cond, f), bound)
        # combinations of decisions whose facts are contradictory do not occur
        self.assume_all(simp(z3.Or(*[p.cond for p in self.last])) if self.last else z3.BoolVal(False), bound)


def solve(n, step, getter, setter, assigned, where, unbounded=False, it=None):
    c = C()
    n = _z(n)
    if not unbounded:
        if c.entails(n <= 0):
            return END
    lp = Loop(n, step, getter, setter, assigned, where, unbounded, it)
    try:
        return lp.run()
    except Peel:
        pass
    except Split as e:
        if unbounded:
            raise Unsupported("no stable loop state at " + where)
        return split(n, step, getter, setter, assigned, where, it, e)
    if not unbounded and not c.branch(n > 0):
        return END
    r = step(z3.IntVal(0))
    if r is not CONT:
        return r
    if not unbounded and c.entails(n <= 1):
        return END
    lp = Loop(simp(n - 1), lambda k: step(simp(k + 1)), getter, setter, assigned, where, unbounded, it)
    try:
        return lp.run()
    except Peel:
        raise Unsupported("no stable loop state at " + where)


def split(n, step, getter, setter, assigned, where, it, e):
    """the iterations before, at and after the one in which the cell stops being None"""
    c = C()
    last = [None]

    def now():
        if e.cell[0] == "L":
            return getter().get(e.cell[1], UNBOUND)
        return get_state(e.obj).get(e.cell[2], UNBOUND)

    def step1(k):
        last[0] = k
        r = step(k)
        return SPLIT if r is CONT and now() is not None else r
    lp = Loop(n, step1, getter, setter, assigned, where, False, it)
    try:
        r = lp.run()
    except Peel:
        raise Unsupported("no stable loop state at " + where)
    if r is not SPLIT:
        return r
    k0 = last[0]
    c.splits.append((n, k0))
    return solve(simp(n - k0 - 1), lambda k: step(simp(k + k0 + 1)), getter, setter, assigned, where, False, it)


def _fresh_value(v, t0):
    """mutable values made since t0 (changes of them would be lost)"""
    if isinstance(v, tuple):
        return [y for x in v for y in _fresh_value(x, t0)]
    if isinstance(v, (PList, PDict)) or hasattr(type(v), "__pv_adopt__"):
        b = core.BORN.get(id(v))
        o = OWN.get(id(v))
        if b is not None and b[0] is v and b[1] > t0 and not (o is not None and o[0] is v):
            return [v]
    return []


def _lost(ch):
    raise Unsupported("an element of the sequence iterated over is changed")


def elem(s, k, it=None, off=None):
    """element of a sequence in an iteration; changes of it reach the list it comes from"""
    t0 = tick()
    v = s.get(k)
    if it is not None and not isinstance(v, tuple) and (isinstance(v, (PList, PDict)) or hasattr(type(v), "__pv_adopt__")):
        i = _z(k) if off is None else simp(off + _z(k))
        v = it.seq().get(i)
        return values.adopt(v, lambda ch: it._put(i, ch))
    for x in _fresh_value(v, t0):
        OWN[id(x)] = (x, _lost)
    return v


def live_seq(x):
    """sequence of the elements of x; changes of elements reach x"""
    s = as_seq(x)
    if s is None or s.kind in ("const", "cat", "flat", "filter", "ite") or not isinstance(x, PList) or x.sym is None:
        return s
    return Seq(s.n, lambda i: elem(s, i, x))


def run_seq(s, body, getter, setter, assigned, where, it=None, off=None):
    c = C()
    if s.concrete():
        for i in range(s.n):
            r = body(s.get(i))
            if r is BRK or is_ret(r):
                return r
        return END
    if s.kind == "cat":
        o = z3.IntVal(0) if off is None else off
        for p in s.parts:
            r = run_seq(p, body, getter, setter, assigned, where, it, o)
            if r is BRK or is_ret(r):
                return r
            o = simp(o + p.nt)
        return END
    if s.kind == "ite":
        cnd, a, b = s.parts
        return run_seq(a if c.branch(cnd) else b, body, getter, setter, assigned, where, it, off)
    if s.kind == "filter":
        n, mask, get = s.parts[:3]
        return solve(n, lambda k: body(get(k)) if C().branch(mask(k)) else CONT, getter, setter, assigned, where)
    if s.kind == "flat":
        n, seg = s.parts

        def step(k):
            r = run_seq(seg(k), body, getter, setter, assigned, where)
            return CONT if r is END else r
        return solve(n, step, getter, setter, assigned, where)
    return solve(s.n, lambda k: body(elem(s, k, it, off)), getter, setter, assigned, where, it=it)


def loop_for(it, body, getter, setter, assigned, where):
    s = as_seq(it)
    if s is None:
        if hasattr(type(it), "__pv_iter__"):
            it = it.__pv_iter__()
        for v in it:
            r = body(v)
            if r is BRK or is_ret(r):
                return r
        return END
    if s.kind == "const":
        if isinstance(it, PList) and it.sym is None:
            i = 0
            while i < list.__len__(it):       # live iteration
                r = body(list.__getitem__(it, i))
                if r is BRK or is_ret(r):
                    return r
                i += 1
                if it.sym is not None:
                    raise Unsupported("sequence changed while iterating over it")
            return END
    return run_seq(s, body, getter, setter, assigned, where, it if isinstance(it, PList) else None)


def loop_while(body, getter, setter, assigned, where, cond=None):
    # a condition with a known value: executed as written
    for _ in range(200 if cond is not None else 0):
        c = cond()
        if not isinstance(c, bool):
            break
        if not c:
            return END
        r = body()
        if r is BRK or is_ret(r):
            return r
    return solve(z3.IntVal(0), lambda k: body(), getter, setter, assigned, where, unbounded=True)


def comp(it, f, where):
    s = as_seq(it)
    out = PList()
    if s is None:
        s = Seq.const(tuple(it))

    def body(v):
        r = f(v)
        if r is SKIP:
            return CONT
        out.extend(r)
        return CONT
    run_seq(s, body, lambda: {}, lambda d: None, (), where)
    return out
