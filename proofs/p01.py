"""P01: Sampler - identifiers, dispatch and targets, for any number of levels and any storage/pool satisfying the interface"""
from pydv.api import *
from proofs.stubs import *

FUNCTIONS = ["mlmc/sampler.py:Sampler.__init__", "mlmc/sampler.py:Sampler._create_level_sim_objects", "mlmc/sampler.py:Sampler.schedule_samples",
             "mlmc/sampler.py:Sampler._get_sample_tag", "mlmc/sampler.py:Sampler.set_level_target_n_samples", "mlmc/sampler.py:Sampler.set_initial_n_samples",
             "mlmc/sampler.py:Sampler.ask_sampling_pool_for_samples", "mlmc/sampler.py:Sampler._store_samples", "mlmc/sampler.py:Sampler._check_failed_samples"]
TRUSTED = ["interface contract of SamplingPool (schedule_sample records the pair; get_finished returns arbitrary results)",
           "interface contract of SampleStorage (load_scheduled_samples returns, per level, the identifiers saved so far)", "numpy model"]


def schedule():
    """Sampler.schedule_samples after any restart"""
    sm, s, st, pool, L, n0 = setup(True)
    cover("constructed")
    l = sk("l", 0, L)
    prove("one simulation object per level", veq(p_len(s._level_sim_objects), L))
    prove("counters restored from storage", veq(s._n_scheduled_samples[l], SN(n0(l.e).e)))
    prove("targets start at zero", veq(s._n_target_samples[l], 0))
    # any targets
    tgt = farr("target", L, kind="intfloat")
    s._n_target_samples = tgt
    a = sk("a", 0, L)     # an arbitrary level
    before = [s._n_scheduled_samples[a], s._n_target_samples[a]]
    s.schedule_samples()
    cover("scheduled")
    need = merge(before[1].e > real(before[0].e), before[1] - before[0], 0)
    prove("counter reaches the target", veq(s._n_scheduled_samples[a], before[0] + need))
    prove("targets unchanged", veq(s._n_target_samples[a], before[1]))
    saved = st.saved.seq()
    prove("one storage entry per level", saved.nt == L.e)
    lev, ids = saved.get(a.e)
    prove("storage entry names its level", veq(lev, a))
    ids = ids.seq()
    prove("stored identifiers: exactly the missing ones", z3.ToReal(ids.nt) == real(num_parts(need)[0]))
    i = sk("i", 0, ids.nt)
    prove("stored identifiers are consecutive", veq(ids.get(i.e), mk_fmt("L{:02d}_S{:07d}", [a, SN(n0(a.e).e + i.e)])))
    # what the pool got
    log = pool.log.seq()
    if log.kind != "flat":
        raise Unsupported("pool log has kind %s" % log.kind)
    n, seg = log.parts
    prove("pool gets one group per level", _z(n) == L.e)
    sg = seg(a.e)
    prove("pool gets exactly the missing samples", z3.ToReal(sg.nt) == real(num_parts(need)[0]))
    sid, sim = sg.get(i.e)
    C().assume(i.e < sg.nt)
    prove("pool gets the stored identifiers in order", veq(sid, ids.get(i.e)))
    prove("pool gets the level's simulation", veq(sim._level_id, a))


def targets():
    """Sampler.set_level_target_n_samples never lowers a target"""
    sm, s, st, pool, L, n0 = setup(False)
    s._n_target_samples = farr("target", L)
    new = farr("new", L)
    a = sk("a", 0, L)
    old = s._n_target_samples[a]
    s.set_level_target_n_samples(new)
    cover("set")
    prove("maximum of old and new", veq(s._n_target_samples[a], merge(new[a].e > old.e, new[a], old)))


HARNESSES = [schedule, targets]
