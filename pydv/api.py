"""pydv.api - vocabulary of the proof files"""
import linecache
import os
import z3
from .core import C, Unsupported, Infeasible, Control, _z, I, R, B, touch, mutated, tick, BORN, OWN, JOURNAL
from . import core, terms, values, arr, npmodel, runtime, loops
from .values import (SNum, SBool, SStr, SBytes, SN, SB, Sym, Seq, PList, PDict, PSet, SymObj, SymMap, Opaque, SIter, SRange, simp, merge, subst,
                     num_parts, bool_term, as_seq, is_sym, str_term, eq_term, real, to_int, mk_fmt, Str, Obj)
from .arr import SArr
from .loops import veq, vkey, CONT, BRK, END
from .runtime import make_world, Base, Blank, TypeModel, journal_class, p_len
np = npmodel


def fint(name, lo=None, hi=None):
    v = C().fresh(name, I)
    if lo is not None:
        C().assume(v >= _z(lo))
    if hi is not None:
        C().assume(v <= _z(hi))
    return SNum(v)


def freal(name, nan=False):
    return SNum(C().fresh(name, R), C().fresh(name + "_nan", B) if nan else None)


def fbool(name):
    return SBool(C().fresh(name, B))


def fstr(name):
    return SStr(C().fresh(name, Str))


def ffun(name, *sorts):
    """arbitrary function; value wrapper by result sort"""
    f = C().fresh_fun(name, list(sorts[:-1]), sorts[-1])

    def g(*a):
        t = f(*[_z(x) for x in a])
        return wrap(t)
    g.raw = lambda *a: f(*[_z(x) for x in a])
    return g


def wrap(t):
    s = t.sort()
    if s == I or s == R:
        return SN(t)
    if s == B:
        return SB(t)
    if s == Str:
        return SStr(t)
    return SymObj(t)


def farr(name, *shape, nan=False, kind="float", where=None):
    """arbitrary array of the given shape; where: precondition on every element (z3 term -> z3 Bool)"""
    rng = {"float": R, "intfloat": I, "int": I, "bool": B, "str": Str}[kind]
    f = C().fresh_fun(name, [I] * len(shape), rng)
    fn = C().fresh_fun(name + "_nan", [I] * len(shape), B) if nan else None
    if where is not None:
        qs = [z3.Int("$q%d" % i) for i in range(len(shape))]
        C().assume(z3.ForAll(qs, where(f(*qs))), "ax")

    def get(idx):
        a = [_z(i) for i in idx]
        t = f(*a)
        if where is not None:
            C().assume_once(where(t), "ax")
        if kind == "bool":
            return SBool(t)
        if kind == "str":
            return SStr(t)
        if kind == "intfloat":
            t = z3.ToReal(t)
        return SNum(t, fn(*a) if nan else None)
    return SArr([x.e if isinstance(x, SNum) else x for x in shape], get, "float" if kind == "intfloat" else kind)


def flist(n, get):
    """list of symbolic length n; get: z3 Int -> value"""
    return PList(_seq=Seq(_z(n), get))


def sk(name="i", lo=None, hi=None):
    """generic index (for all)"""
    v = C().fresh_const(name, I)
    if lo is not None:
        C().assume(v >= _z(lo))
    if hi is not None:
        C().assume(v < _z(hi))
    return SNum(v)


def prove(name, goal):
    if isinstance(goal, (SBool,)):
        goal = goal.e
    C().prove(name, goal)


def assume(g):
    if isinstance(g, SBool):
        g = g.e
    C().assume(g)


def lemma(name, goal):
    """proved first, then available"""
    prove(name, goal)
    assume(goal)


def prove_from(name, goal, facts, terms_=()):
    """goal from the given facts alone (each has to hold here), with the given terms as arbitrary values"""
    c = C()
    if c.mute:
        return
    goal = goal.e if isinstance(goal, SBool) else goal
    facts = [f.e if isinstance(f, SBool) else f for f in facts]
    if all(c.entails(f) for f in facts):
        pairs = [(t, z3.Const("$any%d" % i, t.sort())) for i, t in enumerate(terms_)]
        g = z3.Implies(z3.And(*[z3.substitute(f, *pairs) for f in facts]), z3.substitute(goal, *pairs))
        st, m, be = terms.decide([z3.Not(g)], c.timeout_ms)
        if st == "unsat":
            c.prove(name, z3.BoolVal(True))
            c.obligations[name].backend.add(be)
            return
    c.prove(name, goal)


def forall_lemma(name, vs, goal):
    """proved for generic constants vs, then available for all"""
    prove(name, goal)
    goal = goal.e if isinstance(goal, SBool) else goal
    vs = [v.e if isinstance(v, SNum) else v for v in vs]
    q = [z3.Const("$fl%d" % i, v.sort()) for i, v in enumerate(vs)]
    assume(z3.ForAll(q, z3.substitute(goal, *zip(vs, q))))


def maximum_of(n, fn):
    """(maximum, index where it is attained, fn) of fn(0..n-1)"""
    q = z3.Int("$mo")
    M, W = arr.max_term(_z(n), q, real(fn(q).e), 1)
    return SN(M), SN(W), lambda j: fn(_z(j))


def log_rules(x):
    """logarithm of x and instances of the product/quotient rule for the subterms of x"""
    t = real(_z(x))
    seen = set()

    def pos(c):
        return c > 0

    def rec(e):
        if e.get_id() in seen or not z3.is_app(e):
            return
        seen.add(e.get_id())
        k = e.decl().kind()
        ch = e.children()
        if z3.is_real(e) and k == z3.Z3_OP_MUL:
            assume(z3.Implies(z3.And(*[c > 0 for c in ch]), values.LOG(e) == z3.Sum(*[values.LOG(c) for c in ch])))
        elif z3.is_real(e) and k == z3.Z3_OP_DIV:
            assume(z3.Implies(z3.And(*[c > 0 for c in ch]), values.LOG(e) == values.LOG(ch[0]) - values.LOG(ch[1])))
        for c in ch:
            rec(c)
    t = z3.simplify(t)
    rec(t)
    return SN(values.LOG(t))


def set_list(lst, seq):
    """replace the content of a list in place"""
    touch(lst)
    list.clear(lst)
    lst.sym = seq
    mutated(lst)


def cases(fn):
    """explore the branches of fn (which only inspects the state) without repeating what led here"""
    c = C()
    JOURNAL.append({})
    try:
        if c._check(z3.BoolVal(True)) == z3.unsat:
            return
        c.explore(fn, lambda k, v: None)
    finally:
        core.rollback(JOURNAL.pop())


def prove_eq(name, a, b):
    C().prove(name, veq(a, b))


def prove_is(name, a, b):
    """the same object; another object may still be equal: undecided"""
    if a is not b:
        C().undecided(name, "not the same object")
        return
    C().prove(name, z3.BoolVal(True))


def cover(name):
    C().cover(name)


def implies(a, b):
    return SB(z3.Implies(bool_term(a), bool_term(b)))


def zsum(n, f):
    return SN(terms.mk_sum(_z(n), lambda j: _z(f(SN(j)))))


def raises(fn, *excs):
    """(value, None) or (None, exception)"""
    try:
        return fn(), None
    except excs or (Exception,) as e:
        if _accidental(e):
            raise Unsupported("%s: %s" % (type(e).__name__, e)) from e
        return None, e


def _accidental(e):
    """an error that may come from a gap of the library models and not from the code"""
    tb = e.__traceback__
    while tb.tb_next is not None:
        tb = tb.tb_next
    f = tb.tb_frame.f_code.co_filename
    if os.path.dirname(os.path.abspath(f)) == os.path.dirname(os.path.abspath(__file__)):
        if "raise" in linecache.getline(f, tb.tb_lineno):
            return False
        return not isinstance(e, (ZeroDivisionError, KeyError, IndexError, StopIteration))
    if isinstance(e, (AttributeError, TypeError, NameError)) and not isinstance(e, UnboundLocalError):
        line = linecache.getline(f, tb.tb_lineno)
        return "raise" not in line and "assert" not in line
    return False


__all__ = [n for n in list(globals()) if not n.startswith("__")]
