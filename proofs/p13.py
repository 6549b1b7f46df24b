"""P13: estimate_n_samples_for_target_variance for any number of levels and moments"""
from pydv.api import *

FUNCTIONS = ["mlmc/estimator.py:estimate_n_samples_for_target_variance"]
TRUSTED = ["numpy model (sqrt, sum, round, maximum, minimum, max, astype, broadcasting, transpose)"]
ASSUMPTIONS = ["floating point numbers are treated as mathematical reals", "level variances are non-negative, costs and target variance positive"]


def inputs():
    L = fint("L", 1)
    M = fint("M", 1)
    V = farr("var", L, M, where=lambda t: t >= 0)
    c = farr("cost", L, where=lambda t: t > 0)
    return L, M, V, c


def total(L, V, c, m):
    return SN(terms.mk_sum(L.e, lambda j: np.sqrt(V.get((j, m)) * c.get((j,))).e))


def opt(L, V, c, T, l, m):
    return np.sqrt(V.get((l, m)) * c.get((l,))) / c.get((l,)) * total(L, V, c, m) / T


def limited(L, V, c, T, l, m):
    """max(min(round(optimal count), variance*levels/target), 2)"""
    r = np.round(opt(L, V, c, T, l, m))
    cap = V.get((l, m)) * L / T
    x = merge(r.e <= cap.e, r, cap)
    return merge(x.e >= 2, x, 2)


def formula():
    """count = max over the moments of the limited, rounded optimal count"""
    w = make_world({})
    est = w.load("mlmc.estimator")
    L, M, V, c = inputs()
    T = freal("T")
    assume(T.e > 0)
    r = est.estimate_n_samples_for_target_variance(T, V, c, L)
    cover("computed")
    prove("one count per level", z3.And(z3.BoolVal(r.ndim == 1), _z(r.shape_t[0]) == L.e))
    l = sk("l", 0, L)
    rl = r[l]
    prove("counts are integers", z3.BoolVal(r.kind == "int" and z3.is_int(rl.e)))
    prove("at least two", rl >= 2)
    m = sk("m", 0, M)
    prove("not below the limited optimum of any moment", real(rl.e) > real(limited(L, V, c, T, l.e, m.e).e) - 1)
    spec = SArr([M.e], lambda idx: limited(L, V, c, T, l.e, idx[0]), "float")
    best = np.max(spec)
    prove("largest limited optimum over the moments", rl == to_int(best))


def optimum():
    """sqrt(V*C)/C is sqrt(V/C)"""
    v, c = freal("v"), freal("c")
    assume(z3.And(v.e >= 0, c.e > 0))
    a, b = np.sqrt(v * c), np.sqrt(v / c)
    lemma("square of sqrt(V*C)/C", (a / c) * (a / c) == v / c)
    prove("the two forms of the optimum agree", a / c == b)


def monotone():
    """counts do not decrease when the target is decreased"""
    w = make_world({})
    est = w.load("mlmc.estimator")
    L, M, V, c = inputs()
    T1, T2 = freal("T1"), freal("T2")
    assume(z3.And(T1.e > 0, T2.e > 0, T1.e <= T2.e))
    r1 = est.estimate_n_samples_for_target_variance(T1, V, c, L)
    r2 = est.estimate_n_samples_for_target_variance(T2, V, c, L)
    l, m = sk("l", 0, L), sk("m", 0, M)
    cover("two targets")
    S = total(L, V, c, m.e)
    lemma("total cost weight is not negative", S >= 0)
    x = np.sqrt(V.get((l.e, m.e)) * c.get((l.e,))) / c.get((l.e,)) * S
    lemma("numerator is not negative", x >= 0)
    lemma("optimal count grows", x / T1 >= x / T2)
    y = V.get((l.e, m.e)) * L
    lemma("limit grows", y / T1 >= y / T2)
    a1, a2 = limited(L, V, c, T1, l.e, m.e), limited(L, V, c, T2, l.e, m.e)
    forall_lemma("limited count of every moment grows", [m], z3.Implies(z3.And(m.e >= 0, m.e < M.e), real(a1.e) >= real(a2.e)))
    m1, w1, b1 = maximum_of(M, lambda j: limited(L, V, c, T1, l.e, j))
    m2, w2, b2 = maximum_of(M, lambda j: limited(L, V, c, T2, l.e, j))
    lemma("count of the first target", r1[l] == to_int(m1))
    lemma("count of the second target", r2[l] == to_int(m2))
    lemma("maximum bounds the limited count", b1(w2) <= m1)
    lemma("maximum is attained", m2 == b2(w2))
    lemma("maxima are ordered", m1 >= m2)
    prove("smaller target, no smaller count", r1[l] >= r2[l])


HARNESSES = [formula, optimum, monotone]
