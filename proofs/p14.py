"""P14: Sampler.process_adding_samples for any number of levels, estimates, fraction and pool behaviour"""
from pydv.api import *
from proofs.stubs import *

FUNCTIONS = ["mlmc/sampler.py:Sampler.process_adding_samples", "mlmc/sampler.py:Sampler.set_scheduled_and_wait", "mlmc/sampler.py:Sampler.l_scheduled_samples",
             "mlmc/sampler.py:Sampler.set_level_target_n_samples", "mlmc/sampler.py:Sampler.n_finished_samples"]
TRUSTED = ["contract of Sampler.schedule_samples (discharged under P01)", "interface contracts of SamplingPool and SampleStorage", "numpy model"]
ASSUMPTIONS = ["floating point numbers are treated as mathematical reals", "partial correctness: waiting may not terminate when the pool never finishes samples"]


def schedule_contract(self, timeout=None):
    """contract of Sampler.schedule_samples (proved under P01): every counter reaches its target, targets unchanged"""
    old, tgt = self._n_scheduled_samples.seq(), self._n_target_samples.copy()
    set_list(self._n_scheduled_samples, Seq(old.n, lambda i: merge(real(tgt.get((_z(i),)).e) > real(num_parts(old.get(i))[0]), SN(z3.ToInt(real(tgt.get((_z(i),)).e))), old.get(i))))


def step():
    """one step of adding samples"""
    sm, s, st, pool, L, n0 = setup(True)
    tgt = farr("target", L, kind="intfloat")
    s._n_target_samples = tgt
    est = farr("estimated", L)
    coef = freal("coef")
    a = sk("a", 0, L)
    sched, old, e = n0(a.e), tgt.get((a.e,)), est.get((a.e,))
    # what one step should ask for on level a
    near = e * coef > e - sched
    want = merge(bool_term(near), e, sched + (e - sched) * coef)
    want = merge(bool_term(e < sched), sched, want)
    raw = want
    want = np.ceil(want)
    pre = z3.And(coef.e >= 0, coef.e <= 1, old.e <= real(sched.e), real(sched.e) <= real(np.ceil(e).e))
    sm.Sampler.schedule_samples = schedule_contract
    done = s.process_adding_samples(est, freal("sleep"), coef, freal("timeout"))
    cover("returned")
    new = s._n_target_samples[a]
    lemma("target is the maximum of the old target and the step", veq(new, merge(real(want.e) > old.e, want, old)))
    prove("target is never lowered", new >= old)
    ce = np.ceil(e)
    lemma("a fraction of the distance is at most the distance", z3.Implies(z3.And(coef.e >= 0, coef.e <= 1, e.e >= real(sched.e)), (e.e - real(sched.e)) * coef.e <= e.e - real(sched.e)))
    lemma("step before rounding", z3.Implies(pre, real(raw.e) <= real(ce.e)))
    lemma("step after rounding", z3.Implies(pre, real(want.e) <= real(ce.e)))
    prove("no overshoot of the rounded estimate", z3.Implies(pre, real(new.e) <= real(ce.e)))
    below = e.e > real(want.e)
    fin = st.last.get((a.e,))
    prove("waits for half of the samples on every level still below its estimate", z3.Implies(below, fin.e >= real(want.e) / 2))
    prove("completion is not reported while a level is below its estimate", z3.Implies(bool_term(done), z3.Not(below)))
    w = z3.Int("$w")
    c2 = lambda j: (lambda e, sc: np.ceil(merge(bool_term(e < sc), sc, merge(bool_term(e * coef > e - sc), e, sc + (e - sc) * coef))))(est.get((j,)), n0(j))
    prove("completion is reported when no level is below its estimate",
          z3.Implies(z3.Not(bool_term(done)), z3.Exists([w], z3.And(w >= 0, w < L.e, est.get((w,)).e > real(c2(w).e)))))


HARNESSES = [step]
