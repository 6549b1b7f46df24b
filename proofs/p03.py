"""P03: every sample handed to a local pool comes back exactly once.
Ghost argument: running = handed - returned.  Handing over a sample adds one; its completion puts exactly one entry (P04 processed) into the queue of
its level; a poll removes from every queue exactly what it returns and lowers `running` by the number of returned entries.  Other threads may put
entries before every access to a queue outside its mutex."""
from pydv.api import *
from proofs.poollib import *
from proofs.p04 import processed

FUNCTIONS = ["mlmc/sampling_pool.py:OneProcessPool.schedule_sample", "mlmc/sampling_pool.py:ProcessPool.schedule_sample", "mlmc/sampling_pool.py:ProcessPool.res_callback",
             "mlmc/sampling_pool.py:OneProcessPool._process_result", "mlmc/sampling_pool.py:OneProcessPool.get_finished", "mlmc/sampling_pool.py:OneProcessPool._queues_to_list"]
TRUSTED = ["queue.Queue: entries in order, the mutex excludes concurrent puts; list(dict.items()) is one atomic snapshot",
           "multiprocessing pools run every submitted task once and call the callback once from one thread"]
ASSUMPTIONS = ["schedule_sample and get_finished are called from one thread"]


def poll():
    """get_finished returns exactly what it removes from the queues, level by level, in the order of completion"""
    w, fs = pool_world()
    sp = w.load("mlmc.sampling_pool")
    p = sp.OneProcessPool()
    c = C()
    st = {}
    for nm in ("_queues", "_failed_queues"):
        h, lo, n = c.fresh_fun("has" + nm, [I], B), c.fresh_fun("lo" + nm, [I], I), c.fresh_fun("n" + nm, [I], I)
        sid, pay = z3.Function("id" + nm, I, I, Str), z3.Function("payload" + nm, I, I, Obj)
        nonneg(n, I)
        st[nm] = (h, lo, n, sid, pay)
        setattr(p, nm, fdict(h, lambda x, lo=lo, n=n, sid=sid, pay=pay: SharedQueue(Entries(x, sid, pay), SN(lo(x)), SN(lo(x) + n(x)))))
    run0 = fint("running")
    p._n_running = run0
    keys = {nm: getattr(p, nm).base.keys_seq() for nm in st}
    ok, bad, running, times = p.get_finished()
    cover("polled")
    x = c.fresh_const("x", I)
    total = z3.IntVal(0)
    for nm, r in (("_queues", ok), ("_failed_queues", bad)):
        h, lo, n, sid, pay = st[nm]
        d = getattr(p, nm)

        def after():
            q = d.get(SN(x), None)
            got = r.get(SN(x), None)
            if q is None:
                prove("only known levels are returned", z3.BoolVal(got is None))
                return
            prove("nothing is put back", z3.And(_z(q.lo) >= lo(x), _z(q.lo) <= _z(q.hi), _z(q.hi) >= lo(x) + n(x)))
            prove("the queue is released", z3.BoolVal(q.held is False))
            if got is None:
                prove("everything removed is returned", _z(q.lo) == lo(x))
                prove("everything put before the poll is returned", n(x) == 0)
                return
            s = as_seq(got)
            prove("everything removed is returned", s.nt == _z(q.lo) - lo(x))
            prove("everything put before the poll is returned", s.nt >= n(x))
            k = sk("k", 0, s.nt)
            e = s.get(k.e)
            prove("each under its own identifier, in the order of completion", str_term(e[0]) == sid(x, lo(x) + k.e))
            prove("with its own result or error", veq(e[1], SymObj(pay(x, lo(x) + k.e))))
        cases(after)
        ks = keys[nm]

        def count(j):
            y = _z(ks.get(j))
            return d.base.val(y).lo.e - lo(y) if d.symbolic() and isinstance(d.base, values.FMap) else z3.IntVal(0)
        total = total + terms.mk_sum(ks.nt, count)
    prove("running falls by the number returned", _z(running) == run0.e - total)
    prove("the count is kept", _z(p._n_running) == _z(running))


class Entries:
    """item(i) of the queue of level x"""
    def __init__(self, x, sid, pay):
        self.x, self.sid, self.pay = x, sid, pay

    def __call__(self, i):
        return (SStr(self.sid(self.x, _z(i))), SymObj(self.pay(self.x, _z(i))))

    def __pv_key__(self, f):
        return "entries(%s,%s)" % (self.x.sexpr(), self.sid.name())

    def __pv_veq__(self, o):
        return z3.And(self.x == o.x, z3.BoolVal(self.sid is o.sid and self.pay is o.pay))

    def __pv_subst__(self, pairs):
        return Entries(z3.substitute(self.x, *pairs), self.sid, self.pay)


def handed(cls):
    def h():
        w, fs = pool_world()
        sp = w.load("mlmc.sampling_pool")
        calc = CalcContract()
        sp.SamplingPool.calculate_sample = staticmethod(calc)
        files_contract(sp, fs)
        p = make_pool(sp, cls)
        run0 = fint("running", 0)
        p._n_running = run0
        i, sim = fstr("sample_id"), LevelSim()
        p.schedule_sample(i, sim)
        prove("running grows by one", _z(p._n_running) == run0.e + 1)
        run_tasks(p)
        cover("scheduled")
        prove("completion does not change the number of running samples", _z(p._n_running) == run0.e + 1)
        prove("the sample is calculated once", as_seq(calc.calls).nt == 1)
        j, res, err, t = calc.out
        n = 0
        for nm, want in (("_queues", isinstance(err, str)), ("_failed_queues", not isinstance(err, str))):
            d = getattr(p, nm)
            for lev in list(d.keys()):
                q = d[lev]
                s = as_seq(q.items)
                n += s.n
                prove("in the queue of its level", _z(lev) == _z(sim._level_id))
                prove("successful and failed samples are told apart", z3.BoolVal(want))
                e = s.get(0)
                prove("under its identifier", str_term(e[0]) == i.e)
                if want and nm == "_queues":
                    prove_is("with its fine result", e[1][0], res[0])
                    prove_is("with its coarse result", e[1][1], res[1])
                else:
                    prove("with its error text", str_term(e[1]) == str_term(err))
        prove("exactly one entry", z3.BoolVal(n == 1))
    h.__name__ = "handed_" + cls
    h.__doc__ = "a sample handed over is counted once and completes with exactly one entry"
    return h


HARNESSES = [handed("OneProcessPool"), handed("ProcessPool"), handed("ThreadPool"), processed, poll]
