"""P04: a sample is failed exactly when something went wrong, with the error text; otherwise successful with exactly the returned pair."""
from pydv.api import *
from proofs.poollib import *

FUNCTIONS = ["mlmc/sampling_pool.py:SamplingPool.calculate_sample", "mlmc/sampling_pool.py:SamplingPool.handle_sim_files", "mlmc/sampling_pool.py:SamplingPool.change_to_sample_directory",
             "mlmc/sampling_pool.py:SamplingPool.copy_sim_files", "mlmc/sampling_pool.py:OneProcessPool._process_result", "mlmc/sampling_pool.py:OneProcessPool._save_running_time"]
TRUSTED = ["traceback.format_exception gives a non-empty text determined by the exception", "os/shutil (recorded; every operation may raise OSError)", "queue.Queue.put appends"]
ASSUMPTIONS = ["result vectors are numpy arrays", "array shapes in the result format are pairs", "removing a finished sample's directory does not raise"]
EMPTY = values.lit("")


def classified():
    """calculate_sample: error text exactly for bad samples, never an exception; the result is the simulation's pair"""
    w, fs = pool_world()
    fs.fail = True
    sp = w.load("mlmc.sampling_pool")
    i = fstr("sample_id")
    sim = LevelSim()
    out = sp.SamplingPool.calculate_sample(i, sim, work_dir=fstr("work_dir"))
    cover("calculated")
    j, res, err, t = out
    prove("the sample keeps its identifier", str_term(j) == i.e)
    bad = z3.Not(str_term(err) == EMPTY)
    called = as_seq(sim.calls).n
    if sim.raised is not None:
        prove("exception gives an error", bad)
        prove("error text is the text of the exception", str_term(err) == TEXT(sim.raised.e))
    elif not called:
        prove("workspace that cannot be prepared gives an error", bad)
    else:
        n = sim.length()
        ok = z3.And(_z(sim.nf) == n, _z(sim.nc) == n)
        prove("wrong length gives an error", z3.Implies(z3.Not(ok), bad))
        prove("well-formed result gives no error", z3.Implies(ok, z3.Not(bad)))
        prove_same("fine result is the simulation's", res[0], sim.fine)
        prove_same("coarse result is the simulation's", res[1], sim.coarse)


def prove_same(name, a, b):
    """the same numbers, in the same order"""
    if not isinstance(a, SArr) or a.ndim != b.ndim:
        C().undecided(name, "value of another type")
        return
    k = sk("k", 0, b.shape_t[0])
    prove(name, z3.And(_z(a.shape_t[0]) == _z(b.shape_t[0]), veq(a.get((k.e,)), b.get((k.e,)))))


def lengths():
    """a vector with several dimensions counts with all its elements"""
    w, fs = pool_world()
    sp = w.load("mlmc.sampling_pool")
    i = fstr("sample_id")
    sim = LevelSim(workspace=False, may_fail=False)
    a, b, c_ = fint("a", 0), fint("b", 0), fint("c", 0)
    sim.fine, sim.coarse = farr("fine", a, b, nan=True), farr("coarse", c_, b, nan=True)
    j, res, err, t = sp.SamplingPool.calculate_sample(i, sim, None)
    cover("calculated")
    n = sim.length()
    bad = z3.Not(str_term(err) == EMPTY)
    ok = z3.And(a.e * b.e == n, c_.e * b.e == n)
    prove("wrong length gives an error", z3.Implies(z3.Not(ok), bad))
    prove("well-formed result gives no error", z3.Implies(ok, z3.Not(bad)))


def processed():
    """_process_result: exactly one entry, in the right queue of the right level"""
    w, fs = pool_world()
    sp = w.load("mlmc.sampling_pool")
    files_contract(sp, fs)
    p = sp.OneProcessPool()
    p._debug = fbool("debug")
    c = C()
    st = {}
    for nm in ("_queues", "_failed_queues"):
        h, n, it = c.fresh_fun("has" + nm, [I], B), c.fresh_fun("n" + nm, [I], I), z3.Function("item" + nm, I, I, Obj)
        nonneg(n, I)
        st[nm] = (h, n, it)
        setattr(p, nm, fdict(h, lambda x, n=n, it=it: Queue(items=flist(n(x), lambda i: SymObj(it(x, _z(i)))))))
    sim = LevelSim()
    i, err = fstr("sample_id"), fstr("err")
    fine, coarse = Opaque("fine"), Opaque("coarse")
    p._process_result(i, (fine, coarse), err, freal("t"), sim)
    cover("processed")
    lev = _z(sim._level_id)
    bad = c.branch(err.e != EMPTY)
    x = c.fresh_const("x", I)
    for nm in ("_queues", "_failed_queues"):
        h, n, it = st[nm]
        mine = (nm == "_failed_queues") == bad
        d = getattr(p, nm)
        n0 = z3.If(h(x), n(x), 0)

        def after():
            q = d.get(SN(x), None)
            if q is None:
                prove("queues of other levels are unchanged", z3.And(z3.Not(h(x)), z3.BoolVal(not mine) if not mine else x != lev))
                return
            k = sk("k", 0, n0)
            s = as_seq(q.items)
            prove("one entry is added", s.nt == (n0 + z3.If(x == lev, 1, 0) if mine else n0))
            prove("earlier entries are kept", veq(s.get(k.e), SymObj(it(x, k.e)))) if not isinstance(s.get(k.e), tuple) else None
        cases(after)

        def added():
            if not mine:
                return
            q = d.get(SN(lev), None)
            if q is None:
                prove("the sample is recorded", z3.BoolVal(False))
                return
            s = as_seq(q.items)
            e = s.get(simp(s.nt - 1))
            if not isinstance(e, tuple):
                return
            prove("under its identifier", str_term(e[0]) == i.e)
            if bad:
                prove("with its error text", str_term(e[1]) == err.e)
            else:
                prove_is("with its fine result", e[1][0], fine)
                prove_is("with its coarse result", e[1][1], coarse)
        cases(added)


HARNESSES = [classified, lengths, processed]
