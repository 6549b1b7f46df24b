"""P09: samples with missing values are dropped whole, and counted."""
from pydv.api import *
from proofs.estlib import *

FUNCTIONS = ["mlmc/quantity/quantity_estimate.py:mask_nan_samples", "mlmc/quantity/quantity_estimate.py:estimate_mean"]
TRUSTED = ["numpy model (isnan, any, boolean indexing, count_nonzero)"]
ASSUMPTIONS = []


def load():
    w = make_world({"time": clock()})
    return w.load("mlmc.quantity.quantity_estimate")


def mask_pairs():
    mask(2)


def mask_fine_only():
    mask(1)


def mask(S):
    """a sample is left out exactly when some component is NaN in its fine or coarse part"""
    qe = load()
    M, N = fint("M", 1), fint("N", 0)
    a = farr("v", M, N, S, nan=True)
    out, n = qe.mask_nan_samples(a)
    cover("masked")
    bad = lambda i: z3.Or(*[z3.Exists([z3.Int("$a1")], z3.And(z3.Int("$a1") >= 0, z3.Int("$a1") < M.e, a.get((z3.Int("$a1"), i, p)).nan)) for p in range(S)])
    cnt, sel, rank = values.compress(N.e, lambda i: z3.Not(bad(i)))
    prove("components and parts are kept", z3.And(_z(out.shape_t[0]) == M.e, _z(out.shape_t[2]) == S))
    prove("used plus removed is collected", _z(out.shape_t[1]) + _z(n) == N.e)
    prove("exactly the complete samples are kept", _z(out.shape_t[1]) == cnt)
    if cnt > 0 if isinstance(cnt, int) else C().branch(cnt > 0):
        cover("some sample is kept")
        i, m, p = sk("i", 0, cnt), sk("m", 0, M), sk("p", 0, S)
        x, y = out[m, i, p], a.get((m.e, sel(i.e), p.e))
        prove("kept samples are unchanged and in order", z3.And(x.e == y.e, num_nan(x) == num_nan(y)))
        prove("kept samples are complete", z3.Not(num_nan(x)))


def num_nan(x):
    return x.nan if x.nan is not None else z3.BoolVal(False)


def estimate():
    qe = load()
    st = QStorage()
    q = Qty(st)
    sp = Spec(st, q)
    qe.mlmc.quantity.quantity.QuantityMean = QMean
    r, e = raises(lambda: qe.estimate_mean(q))
    l = sk("l", 0, st.L)
    if e is not None:
        cover("all masked")
        prove("an error only when no sample is left", sp.used(l) == 0)
        return
    cover("estimated")
    m = sk("m", 0, q.M)
    prove("number of used samples", r.n_samples[l] == SN(sp.used(l)))
    prove("number of removed samples", r.n_rm_samples[l] == SN(sp.removed(l)))
    lemma("used plus removed is collected", sp.used(l) + sp.removed(l) == sp.collected(l))
    prove("counts of every level", z3.And(_z(p_len(r.n_samples)) == st.L.e, _z(p_len(r.n_rm_samples)) == st.L.e))


def all_masked():
    """every sample is incomplete: an error and no estimate"""
    qe = load()
    st = QStorage()
    q = Qty(st)
    st.also = lambda j: q.all_missing(j)
    j = z3.Int("$am")
    assume(z3.ForAll(j, q.all_missing(j)))
    qe.mlmc.quantity.quantity.QuantityMean = QMean
    r, e = raises(lambda: qe.estimate_mean(q))
    cover("run")
    prove("no estimate without samples", z3.BoolVal(e is not None))


HARNESSES = [mask_pairs, mask_fine_only, estimate, all_masked]
