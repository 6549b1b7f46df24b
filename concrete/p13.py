from common import *
from decimal import Decimal, getcontext
from mlmc.estimator import estimate_n_samples_for_target_variance as est
getcontext().prec = 50


def ref(t, V, C, L):
    """-> per level list of admissible counts (two at a rounding tie)"""
    D = lambda x: Decimal(float(x))
    out = []
    R = V.shape[1]
    for l in range(V.shape[0]):
        lo = hi = Decimal(2)
        for m in range(R):
            tot = sum((D(V[k, m]) * D(C[k])).sqrt() for k in range(V.shape[0]))
            n = (D(V[l, m]) / D(C[l])).sqrt() * tot / D(t)
            eps = (abs(n) + 1) * Decimal("1e-9")
            lim = D(V[l, m]) * L / D(t)
            a = min((n - eps).to_integral_value("ROUND_HALF_EVEN"), lim * (1 - Decimal("1e-9")))
            b = min((n + eps).to_integral_value("ROUND_HALF_EVEN"), lim * (1 + Decimal("1e-9")))
            lo, hi = max(lo, a), max(hi, b)
        out.append((int(lo), int(hi)))
    return out


def _one(seed):
    def run():
        rng = random.Random(seed)
        L, R = rng.randint(1, 5), rng.randint(1, 5)
        V = np.array([[rng.choice([0.0, rng.uniform(0, 1), rng.uniform(0, 100), 10 ** rng.uniform(-6, 3)]) for _ in range(R)] for _ in range(L)])
        if rng.random() < 0.5:
            V[:, 0] = 0
        C = np.array([rng.choice([rng.uniform(0.1, 2), 10 ** rng.uniform(-2, 4)]) for _ in range(L)])
        if rng.random() < 0.2:
            C = list(C)
        t = 10 ** rng.uniform(-4, 1)
        V0 = V.copy()
        n = est(t, V, C, n_levels=L)
        check(np.shape(n) == (L,), "counts", n, "for", L, "levels")
        check(all(float(x) == int(x) for x in n) and np.issubdtype(np.asarray(n).dtype, np.integer), "not integers", n)
        check(np.array_equal(V, V0), "the variances were changed")
        r = ref(t, V, C, L)
        check(all(a <= int(x) <= b for x, (a, b) in zip(n, r)), "counts", n, "expected", r, "target", t, "variances", V, "costs", C)
        prev = n
        for k in range(4):
            t = t / rng.uniform(1.01, 5)
            n2 = est(t, V, C, n_levels=L)
            check(np.all(n2 >= prev), "smaller target gives fewer samples", prev, n2)
            prev = n2
    return run


def _variance(seed):
    """the resulting estimator variance meets the target where the counts are not limited"""
    def run():
        rng = random.Random(seed)
        L, R = rng.randint(1, 4), rng.randint(1, 4)
        V = np.array([[rng.uniform(1, 50) * 10.0 ** -l for _ in range(R)] for l in range(L)])
        C = np.array([rng.uniform(1, 2) * 4.0 ** l for l in range(L)])
        t = 1e-5
        n = est(t, V, C, L)
        v = (V / n[:, None]).sum(axis=0)
        opt = np.sqrt(V / C[:, None]) * np.sqrt(V * C[:, None]).sum(axis=0) / t
        limited = np.any(opt > V * L / t, axis=0)
        check(np.all(v <= np.where(limited, 2.02, 1.02) * t), "variance of the estimate", v, "target", t, "counts", n)
    return run


def cases(tier, rng):
    n = 1 if tier == "quick" else 25
    for k in range(150 * n):
        yield "formula#%d" % k, _one(rng.randrange(10**9))
    for k in range(30 * n):
        yield "variance#%d" % k, _variance(rng.randrange(10**9))
