"""P18: collecting samples into jobs.  Invariant between calls: the waiting list, its length counter and its weight; every function preserves it.
A job is checked from outside: the script given to qsub is read, the process it starts is created with its arguments, and what that process loads is compared
with the waiting list."""
from pydv.api import *
from pydv import text
from proofs.batchlib import *

FUNCTIONS = ["mlmc/sampling_pool_pbs.py:SamplingPoolPBS." + n for n in ("__init__", "schedule_sample", "execute", "_create_script", "pbs_common_setting", "write_script", "get_finished", "_get_job_count", "serialize_level_sim")] + \
            ["mlmc/tool/pbs_job.py:PbsJob." + n for n in ("__init__", "create_job", "_serialize_pbs_process", "create_process", "command_params", "_deserialize_pbs_process", "save_scheduled",
                                                          "get_scheduled_sample_ids", "_get_level_id_sample_id_seed", "save_sample_id_job_id", "job_id_from_sample_id", "write_pbs_id")]
TRUSTED = ["files: what is written under a path is what is read from it; json, yaml and pickle round trips", "qsub prints the number of the accepted job followed by a dot", "glob, re: names of the form <number>_job.sh",
           "list.sort: stable sorting permutation"]
ASSUMPTIONS = ["file operations succeed", "directory names contain no blank, brace, semicolon, star, newline or digit", "sample identifiers are distinct", "paths of different structure name different files"]

SEED = z3.Function("seed_of", Str, I)


def config():
    return dict(n_cores=1, n_nodes=1, select_flags=PList(["cgroups=cpuacct"]), mem="1Gb", queue="charon", pbs_name="flow123d", walltime="72:00:00",
                optional_pbs_requests=PList([]), home_dir="", python="python3", env_setting=PList(["cd dir", "module load x"]))


def construct(w, debug):
    """a new pool; its directories are prepared as P17 says.  Returns (pool, directories made, directories whose jobs were counted, next job number)"""
    ps, sp = w.load("mlmc.sampling_pool_pbs"), w.load("mlmc.sampling_pool")
    made, log, J = PList(), PList(), fint("next", 0)

    def create(self, directory=""):
        made.append(directory)
        return path_join(self._output_dir, directory) if directory != "" else self._output_dir

    def base_init(self, work_dir=None, debug=False):
        self._output_dir = path_join(work_dir, "output")
        self._debug = debug
    old = sp.SamplingPool.__dict__["__init__"], sp.SamplingPool.__dict__["_create_dir"], ps.SamplingPoolPBS.__dict__["_get_job_count"]
    sp.SamplingPool.__init__ = base_init
    sp.SamplingPool._create_dir = create
    ps.SamplingPoolPBS._get_job_count = lambda self: (log.append(self._jobs_dir), J)[1]
    p = ps.SamplingPoolPBS(directory("work_dir"), debug=debug)
    sp.SamplingPool.__init__, sp.SamplingPool._create_dir, ps.SamplingPoolPBS._get_job_count = old
    return p, made, log, J


def represented(p, *names):
    """the state below is written in terms of these attributes; another representation is out of reach"""
    for n in names:
        if n not in p.__dict__:
            raise Unsupported("representation of the pool changed: %s" % n)


def state(w, sample=None):
    """a pool between two calls: any number of waiting samples, any job number, any count of failures"""
    ps = w.load("mlmc.sampling_pool_pbs")
    c = C()
    p, made, log, J0 = construct(w, C().branch(C().fresh("debug", B)))
    represented(p, "_scheduled", "_n_samples_in_job", "_current_job_weight", "_pbs_ids", "_job_count", "_qsub_failed_n", "_qstat_failed_n", "_unfinished_sample_ids", "_debug", "_jobs_dir", "_output_dir")
    n = fint("n_waiting", 0)
    lev, ident = c.fresh_fun("lev", [I], I), c.fresh_fun("ident", [I], Str)
    q, r = z3.Int("$q"), z3.Int("$r")
    c.assume(z3.ForAll([q], lev(q) >= 0, patterns=[lev(q)]))
    c.assume(z3.ForAll([q, r], z3.Implies(z3.And(q >= 0, q < r, r < n.e), ident(q) != ident(r)), patterns=[z3.MultiPattern(ident(q), ident(r))]))
    item = lambda j: (SN(lev(_z(j))), SStr(ident(_z(j))), SN(SEED(ident(_z(j)))))
    p._scheduled = flist(n, item)
    p._n_samples_in_job = n
    p._current_job_weight = freal("weight")
    p.pbs_script = None
    p._pbs_ids = flist(fint("n_jobs", 0), lambda j: SStr(z3.Function("job_number", I, Str)(_z(j))))
    p._unfinished_sample_ids = PSet()
    J = fint("job_count", 0)
    p._job_count = J
    F = fint("failures", 0, ps.SamplingPoolPBS.QSUB_FAILED_MAX_N)
    p._qsub_failed_n = F
    p._qstat_failed_n = 0
    p.pbs_common_setting(**config())
    return ps, p, n, lev, ident, item, J, F


def prepare_files(w, p, ps):
    """files that may exist before"""
    fs, c = w.fs, C()
    pj = w.load("mlmc.tool.pbs_job")
    cls = path_join(p._output_dir, pj.PbsJob.CLASS_FILE)
    if c.branch(c.fresh("first_job", B)):
        fs.put(cls, None)
    else:
        fs.put(cls, ("text", SStr(c.fresh("class_file", Str), ("pieces", tuple(q for s in (p._jobs_dir, ";", ps.SamplingPoolPBS.LEVEL_SIM_CONFIG, ";", str(p._debug), ";") for q in text.pieces(s))))))
    m = path_join(p._jobs_dir, pj.PbsJob.SAMPLE_ID_JOB_ID)
    old, job = c.fresh_fun("known", [Str], B), c.fresh_fun("job_of", [Str], Str)
    if c.branch(c.fresh("first_map", B)):
        fs.put(m, None)
        old = lambda x: z3.BoolVal(False)
    else:
        fs.put(m, ("json", fdict(old, lambda x: SStr(job(x)), Str)))
    return pj, old, job


def collected():
    """a scheduled sample joins the waiting ones with its level and seed; the job is submitted when the weight exceeds one or the number exceeds 1000"""
    w = batch_world()
    ps, p, n, lev, ident, item, J, F = state(w)
    calls = PList()
    ps.SamplingPoolPBS.execute = lambda self: calls.append(as_seq(self._scheduled).nt)
    ps.SamplingPoolPBS.compute_seed = staticmethod(lambda i: SN(SEED(str_term(i))))
    saved = PList()
    ps.SamplingPoolPBS.serialize_level_sim = lambda self, s: saved.append(s)
    sim = LevelSim(workspace=False)
    w0 = p._current_job_weight
    i = fstr("sample_id")
    p.schedule_sample(i, sim)
    cover("scheduled")
    s = as_seq(p._scheduled)
    j = sk("j", 0, s.nt)
    prove("one more sample is waiting", s.nt == n.e + 1)
    a, b, c_ = s.get(j.e)
    oa, ob, oc = item(j)
    prove("waiting samples are kept, the new one follows with its level, identifier and seed",
          z3.And(_z(a) == z3.If(j.e < n.e, _z(oa), _z(sim._level_id)), str_term(b) == z3.If(j.e < n.e, str_term(ob), i.e), _z(c_) == z3.If(j.e < n.e, _z(oc), SEED(i.e))))
    prove("number of waiting samples", _z(p._n_samples_in_job) == s.nt)
    prove("weight of the waiting samples", real(_z(p._current_job_weight)) == real(w0.e) + real(sim.task_size.e))
    k = as_seq(calls)
    due = z3.Or(real(w0.e) + real(sim.task_size.e) > 1, n.e + 1 > 1000)
    prove("submitted exactly when due", k.nt == z3.If(due, 1, 0))
    if k.concrete() and k.n == 1:
        prove("the new sample is submitted too", k.get(0) == n.e + 1)
    m = as_seq(saved)
    prove("level simulation is stored", m.nt >= 1)
    if m.n:
        prove_is("level simulation of the sample", m.get(0), sim)


def stored():
    """the level simulation is stored where the job reads it"""
    w = batch_world()
    ps, p, n, lev, ident, item, J, F = state(w)
    sim = LevelSim(workspace=False)
    pj = w.load("mlmc.tool.pbs_job")
    f = path_join(p._output_dir, mk_fmt("level_{}_simulation_config", [sim._level_id]))
    known = C().branch(C().fresh("known_level", B))
    w.fs.put(f, ("pickle", sim) if known else None)
    p.serialize_level_sim(sim)
    cover("stored")
    job = pj.PbsJob(p._output_dir, p._jobs_dir, fstr("job"), ps.SamplingPoolPBS.LEVEL_SIM_CONFIG, p._debug)
    job._get_level_sim(sim._level_id)
    g = job._level_simulations.get(sim._level_id)
    prove_is("the job loads the same simulation", g, sim)


def submitted():
    """a submission: everything waiting goes into one job, or everything keeps waiting"""
    argv = PList()
    w = batch_world(argv=argv)
    ps, p, n, lev, ident, item, J, F = state(w)
    pj, old, job = prepare_files(w, p, ps)
    c = C()
    w0, ids0 = p._current_job_weight, as_seq(p._pbs_ids)
    r, e = raises(p.execute)
    s = as_seq(p._scheduled)
    calls = as_seq(w.cmd.calls)
    if not c.branch(n.e > 0):
        cover("nothing waiting")
        prove("no exception", z3.BoolVal(e is None))
        prove("nothing is submitted when nothing waits", z3.And(calls.nt == 0, s.nt == 0))
        prove("counters unchanged", z3.And(_z(p._job_count) == J.e, _z(p._qsub_failed_n) == F.e))
        return
    prove("one submission", calls.nt == 1)
    if calls.n != 1:
        return
    cmd = calls.get(0)
    ok = c.branch(w.cmd.rc.e == 0)
    if not ok:
        cover("refused")
        limit = ps.SamplingPoolPBS.QSUB_FAILED_MAX_N
        prove("error after more than the allowed number of consecutive failures, and only then", z3.BoolVal(e is not None) == (F.e + 1 > limit))
        prove("failures are counted", _z(p._qsub_failed_n) == F.e + 1)
        j = sk("j", 0, n)
        prove("all samples keep waiting", s.nt == n.e)
        prove("waiting samples unchanged", z3.And(*[veq(x, y) for x, y in zip(s.get(j.e), item(j))]))
        prove("number and weight of waiting samples", z3.And(_z(p._n_samples_in_job) == n.e, real(_z(p._current_job_weight)) == real(w0.e)))
        prove("job number is used again", _z(p._job_count) == J.e)
        prove("no job is waited for", as_seq(p._pbs_ids).nt == ids0.nt)
        return
    cover("accepted")
    prove("no exception", z3.BoolVal(e is None))
    prove("nothing keeps waiting", z3.And(s.nt == 0, _z(p._n_samples_in_job) == 0, real(_z(p._current_job_weight)) == 0))
    prove("failures are forgotten", _z(p._qsub_failed_n) == 0)
    prove("next job gets the next number", _z(p._job_count) == J.e + 1)
    ids = as_seq(p._pbs_ids)
    k = sk("k", 0, ids.nt)
    prove("the job is waited for", ids.nt == ids0.nt + 1)
    prove("its number is the one qsub printed", str_term(ids.get(k.e)) == z3.If(k.e < ids0.nt, str_term(ids0.get(k.e)), w.cmd.pbs_id.e))
    # the job as the batch system sees it
    script = cmd[1]
    name = mk_fmt("{:04d}", [J])
    prove("name of the script carries the job number", z3.BoolVal(w.fs.key(script) == w.fs.key(path_join(p._jobs_dir, mk_fmt("{:04d}_job.sh", [J])))))
    con = w.fs.content(script)
    runs = [x for x in text.split(con[1], "\n") if "mlmc.tool.pbs_job" in text.key(x)]
    prove("the script starts one process", z3.BoolVal(len(runs) == 1))
    if len(runs) != 1:
        return
    words = text.split(runs[0], " ")
    k = words.index("mlmc.tool.pbs_job")
    set_list(argv, Seq.const(("pbs_job.py", words[k + 1], words[k + 2])))
    prove("number printed by qsub is recorded for the job", z3.BoolVal(w.fs.has(path_join(p._jobs_dir, mk_fmt("{:04d}_{}", [J, w.cmd.pbs_id])))))
    pr = pj.PbsJob.create_process()
    prove("process of this job", z3.BoolVal(text.key(pr._job_id) == text.key(name) and w.fs.key(pr._jobs_dir) == w.fs.key(p._jobs_dir) and w.fs.key(pr._output_dir) == w.fs.key(p._output_dir)))
    prove("debug mode is passed on", z3.BoolVal(pr._debug is p._debug))
    L = as_seq(pj.PbsJob.get_scheduled_sample_ids(pr._job_id, pr._jobs_dir))
    j = sk("j", 0, n)
    prove("the job lists as many samples as were waiting", L.nt == n.e)
    prove("every waiting sample is listed with its level and seed", z3.And(*[veq(x, y) for x, y in zip(L.get(j.e), item(j))]))
    M = as_seq(pr._get_level_id_sample_id_seed())
    t = z3.Int("$t")
    prove("the process runs as many samples as were waiting", M.nt == n.e)
    x = M.get(j.e)
    prove("the process runs only waiting samples", z3.Exists([t], z3.And(t >= 0, t < n.e, *[veq(a, b) for a, b in zip(x, item(t))])))
    j2 = sk("j2", 0, n)
    prove("the process runs no sample twice", z3.Implies(j.e != j2.e, str_term(x[1]) != str_term(M.get(j2.e)[1])))     # as many as waiting: all of them
    got = pj.PbsJob.job_id_from_sample_id(SStr(ident(j.e)), p._jobs_dir)
    prove("the stored map names the job of the sample", str_term(got) == str_term(name))
    y = C().fresh_const("other", Str)
    q = z3.Int("$q2")
    assume(z3.And(old(y), z3.ForAll([q], z3.Implies(z3.And(q >= 0, q < n.e), ident(q) != y))))
    cover("other sample")
    prove("jobs of other samples are kept in the map", str_term(pj.PbsJob.job_id_from_sample_id(SStr(y), p._jobs_dir)) == job(y))


def polled():
    """every poll first submits what is waiting"""
    w = batch_world()
    ps, p, n, lev, ident, item, J, F = state(w)
    log = PList()
    ps.SamplingPoolPBS.execute = lambda self: log.append("submit")
    ps.SamplingPoolPBS._qstat_pbs_job = lambda self: (log.append("status"), (PList(), PList()))[1]
    ps.SamplingPoolPBS._get_result_files = lambda self, a, b: (log.append("results"), (PDict(), PDict(), 0, PList()))[1]
    p.get_finished()
    cover("polled")
    s = as_seq(log)
    assert s.concrete()
    ops = [s.get(i) for i in range(s.n)]
    sub = "submit" in ops
    if not sub:
        prove("waiting samples are submitted", n.e == 0)
    else:
        prove("waiting samples are submitted", z3.BoolVal(True))
        prove("before the status query", z3.BoolVal("status" not in ops or ops.index("submit") < ops.index("status")))


def numbered():
    """after a restart the next job number is larger than every number used before"""
    c = C()
    m = fint("n_files", 0)
    num = c.fresh_fun("num", [I], I)
    q = z3.Int("$q")
    c.assume(z3.ForAll([q], num(q) >= 0, patterns=[num(q)]))
    out = directory("jobs_dir")
    pat = text.key(path_join(out, "*_job.sh"))

    def globs(p):
        if text.key(p) != pat:
            raise Unsupported("glob %s" % text.key(p))
        return flist(m, lambda j: path_join(out, mk_fmt("{:04d}_job.sh", [SN(num(_z(j)))])))
    w = batch_world(globs=globs)
    ps = w.load("mlmc.sampling_pool_pbs")
    p = object.__new__(ps.SamplingPoolPBS)
    p._jobs_dir = out
    r = p._get_job_count()
    cover("counted")
    j = sk("j", 0, m)
    prove("not negative", _z(r) >= 0)
    if c.branch(m.e > 0):
        prove("larger than every used number", _z(r) > num(j.e))
    k = sk("k", 0)
    a, b = mk_fmt("{:04d}", [r]), mk_fmt("{:04d}", [k])
    prove("different numbers give different job identifiers", z3.Implies(_z(r) != k.e, str_term(a) != str_term(b)))


def started():
    """a new pool waits for nothing and continues the numbering of its job directory"""
    w = batch_world()
    p, made, log, J = construct(w, C().branch(C().fresh("debug", B)))
    represented(p, "_scheduled", "_n_samples_in_job", "_current_job_weight", "_pbs_ids", "_job_count", "_qsub_failed_n")
    cover("started")
    prove("nothing waits", z3.And(as_seq(p._scheduled).nt == 0, _z(p._n_samples_in_job) == 0, real(_z(p._current_job_weight)) == 0, as_seq(p._pbs_ids).nt == 0, _z(p._qsub_failed_n) == 0))
    prove("numbering continues", _z(p._job_count) == J.e)
    s = as_seq(log)
    prove("numbering of its own jobs directory", z3.BoolVal(s.n >= 1 and all(w.fs.key(s.get(i)) == w.fs.key(p._jobs_dir) for i in range(s.n))))
    prove("jobs directory is prepared", z3.BoolVal("jobs" in [as_seq(made).get(i) for i in range(as_seq(made).n)]))


HARNESSES = [collected, stored, submitted, polled, numbered, started]
