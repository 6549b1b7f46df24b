"""P08: the mean estimate is the multilevel Monte Carlo estimator."""
from pydv.api import *
from proofs.estlib import *

FUNCTIONS = ["mlmc/quantity/quantity_estimate.py:mask_nan_samples", "mlmc/quantity/quantity_estimate.py:estimate_mean", "mlmc/quantity/quantity.py:QuantityMean.__init__", "mlmc/quantity/quantity.py:QuantityMean._calculate_mean_var", "mlmc/quantity/quantity.py:QuantityMean.mean", "mlmc/quantity/quantity.py:QuantityMean.var", "mlmc/quantity/quantity.py:QuantityMean.l_means", "mlmc/quantity/quantity.py:QuantityMean.l_vars"]
TRUSTED = ["numpy model (isnan, any, boolean indexing, count_nonzero, sum, zeros, full)"]
ASSUMPTIONS = []


def load():
    w = make_world({"time": clock()})
    return w.load("mlmc.quantity.quantity_estimate")


def levels():
    qe = load()
    st = QStorage()
    q = Qty(st)
    sp = Spec(st, q)
    qe.mlmc.quantity.quantity.QuantityMean = QMean
    r, e = raises(lambda: qe.estimate_mean(q))
    if e is not None:
        return
    cover("estimated")
    l, m = sk("l", 0, st.L), sk("m", 0, q.M)
    s, s2 = sp.sum(l, m), sp.squares(l, m)
    lemma("number of used samples", r.n_samples[l] == SN(sp.used(l)))
    n = _z(r.n_samples[l])
    mean, var = r.l_means[l][m], r.l_vars[l][m]
    prove("one mean and variance per level", z3.And(_z(p_len(r.l_means)) == st.L.e, _z(p_len(r.l_vars)) == st.L.e))
    nr = z3.ToReal(n)

    def case():
        if not C().branch(n > 0):
            return
        cover("level with samples")
        lemma("level mean", mean.e * nr == s)
        if C().branch(n > 1):
            cover("level with several samples")
            prove("unbiased level variance", var.e * (nr - 1) == s2 - nr * mean.e * mean.e)
        else:
            cover("level with one sample")
            prove("a single sample has infinite variance", var.e == values.INF)
    cases(case)


class Identity(Base):
    def reshape(self, data):
        return data


def total():
    """mean and variance over all levels, from arbitrary level estimates"""
    w = make_world({"time": clock()})
    qm = w.load("mlmc.quantity.quantity")
    L, M = fint("L", 1), fint("M", 1)
    lm, lv = farr("l_means", L, M), farr("l_vars", L, M)
    n = farr("n_samples", L, kind="int", where=lambda t: t >= 1)
    rm = farr("n_rm", L, kind="int", where=lambda t: t >= 0)
    rows = lambda a: flist(L, lambda i: SArr([M.e], lambda idx: a.get((_z(i), idx[0])), "float"))
    nl, rl = flist(L, lambda i: n.get((_z(i),))), flist(L, lambda i: rm.get((_z(i),)))
    q = qm.QuantityMean(Identity(), rows(lm), rows(lv), nl, rl)
    m, l = sk("m", 0, M), sk("l", 0, L)
    cover("made")
    prove("one component per component of the quantity", z3.And(_z(q.mean.shape[0]) == M.e, _z(q.var.shape[0]) == M.e))
    prove("the mean is the sum of the level means", q.mean[m] == SN(terms.mk_sum(L.e, lambda j: lm.get((j, m.e)).e)))
    prove("the variance is the sum of level variances by sample numbers", q.var[m] == SN(terms.mk_sum(L.e, lambda j: lv.get((j, m.e)).e / z3.ToReal(n.get((j,)).e))))
    prove("asked again, the same", z3.And(q.mean[m].e == terms.mk_sum(L.e, lambda j: lm.get((j, m.e)).e)))
    prove("level means are kept", q.l_means[l][m] == lm.get((l.e, m.e)))
    prove("level variances are kept", q.l_vars[l][m] == lv.get((l.e, m.e)))
    prove("sample numbers are kept", z3.And(_z(q.n_samples[l]) == n.get((l.e,)).e, _z(q.n_rm_samples[l]) == rm.get((l.e,)).e))


HARNESSES = [levels, total]
