"""P17: file operations around a sample.  The file system is a model with arbitrary content; the obligations speak about which paths are touched and what
the directories contain afterwards, not about the operations used."""
from pydv.api import *
from proofs.poollib import *

FUNCTIONS = ["mlmc/sampling_pool.py:SamplingPool." + n for n in ("__init__", "_create_dir", "handle_sim_files", "change_to_sample_directory", "copy_sim_files", "move_successful_rm", "move_failed_rm",
                                                                  "move_dir", "remove_sample_dir", "calculate_sample")] + ["mlmc/sampling_pool.py:OneProcessPool._process_result", "mlmc/sampling_pool.py:OneProcessPool.schedule_sample"]
TRUSTED = ["os/shutil: model of directories with symbolic paths (makedirs, rmtree, copytree, move, copy, chdir, exists)"]
ASSUMPTIONS = ["one sample at a time per process (concurrent threads share the working directory: known finding)", "sample numbers below 10^7", "identifiers and directory names are relative paths, distinct paths name distinct directories"]


def touched(fs, allowed, what="no other file or directory is touched"):
    """every operation concerns allowed paths only"""
    s = as_seq(fs.ops)
    a = [str_term(p) for p in allowed]
    okp = lambda p: z3.Or(str_term(p) == values.lit(""), *[str_term(p) == t for t in a])
    for i in range(s.n) if s.concrete() else [None]:
        op, x, y = s.get(i if i is not None else sk("k", 0, s.nt).e)
        prove(what, z3.And(z3.Or(str_term(op) == values.lit("copy"), okp(x)), okp(y)))     # copy reads its first argument
    if s.n == 0:
        prove(what, z3.BoolVal(True))


def start():
    """a new pool prepares its three directories; in debug mode nothing is deleted; without a working directory nothing happens"""
    w, fs = pool_world()
    sp = w.load("mlmc.sampling_pool")
    debug = C().branch(C().fresh("debug", B))
    wd = fstr("work_dir") if C().branch(C().fresh("with_work_dir", B)) else None
    p = sp.OneProcessPool(work_dir=wd, debug=debug)
    cover("started")
    ops = as_seq(fs.ops)
    if wd is None:
        prove("without working directory no file operations", z3.BoolVal(ops.n == 0))
        return
    out = path_join(SStr(ABS(wd.e), ("abs",)), "output")
    dirs = [out, path_join(out, "failed"), path_join(out, "several_successful")]
    touched(fs, dirs)
    for d in dirs:
        prove("the directory is there", z3.BoolVal(fs.content(d) != ""))
    if debug:
        prove("nothing is deleted in debug mode", z3.BoolVal(not any(ops.get(i)[0] in ("rmtree", "move", "remove", "rmdir") for i in range(ops.n))))
        prove("content is kept in debug mode", z3.BoolVal(all(fs.content(d) == "new" or fs.content(d) == "old:" + key(d) for d in dirs)))
    else:
        prove("old content is removed", z3.BoolVal(all(fs.content(d) == "new" for d in dirs)))
    prove("output directory", str_term(p._output_dir) == str_term(out))
    prove("directory of successful samples", str_term(p._successful_dir) == str_term(dirs[2]))


def prepared():
    """the workspace of a sample: a directory of its own with copies of all common files, made the working directory"""
    w, fs = pool_world()
    sp = w.load("mlmc.sampling_pool")
    i, wd = fstr("sample_id"), SStr(C().fresh("out", Str), ("abs",))
    sim = LevelSim(workspace=True)
    if C().branch(C().fresh("no_common_files", B)):
        sim.common_files = None
    sp.SamplingPool.handle_sim_files(wd, i, sim)
    cover("prepared")
    D = path_join(wd, i)
    touched(fs, [D])
    prove("the directory is there", z3.BoolVal(fs.content(D) in ("new", "old:" + key(D))))
    prove("it is the working directory", str_term(fs.cwd) == str_term(D) if fs.cwd is not None else z3.BoolVal(False))
    s = as_seq(fs.copies)
    if sim.common_files is None:
        prove("no file is copied", s.nt == 0)
        return
    f = as_seq(sim.common_files)
    k = sk("k", 0, f.nt)
    prove("every common file is copied once", s.nt == f.nt)
    if C().branch(s.nt > 0):
        o = s.get(k.e)
        prove("into the sample's directory", z3.And(str_term(o[0]) == str_term(f.get(k.e)), str_term(o[1]) == str_term(D)))


def without():
    """a simulation without workspace causes no file operations"""
    w, fs = pool_world()
    sp = w.load("mlmc.sampling_pool")
    p = sp.OneProcessPool(work_dir=None, debug=fbool("debug"))
    if C().branch(C().fresh("with_work_dir", B)):
        p._output_dir = SStr(C().fresh("out", Str), ("abs",))
        p._successful_dir = path_join(p._output_dir, "several_successful")
    i = mk_fmt("L{:02d}_S{:07d}", [fint("lev", 0), fint("num", 0)])
    sim = LevelSim(workspace=False)
    p.schedule_sample(i, sim)
    cover("run")
    prove("no file operations", as_seq(fs.ops).nt == 0)


def order():
    """the workspace is prepared before the simulation is called"""
    w, fs = pool_world()
    sp = w.load("mlmc.sampling_pool")
    i, wd = fstr("sample_id"), SStr(C().fresh("out", Str), ("abs",))
    sim = LevelSim(workspace=True)
    calls = PList()
    sp.SamplingPool.handle_sim_files = staticmethod(lambda work_dir, sample_id, level_sim: calls.append((work_dir, sample_id, level_sim, as_seq(level_sim.calls).nt)))
    sp.SamplingPool.calculate_sample(i, sim, work_dir=wd)
    cover("calculated")
    s = as_seq(calls)
    prove("prepared once", s.nt == 1)
    a, b, c_, n = s.get(0)
    prove("in the output directory, under the identifier", z3.And(str_term(a) == wd.e, str_term(b) == i.e))
    prove("before the simulation", n == 0)
    prove_is("for its simulation", c_, sim)


def finished():
    """after a sample: failed ones are kept, the first five successful ones of a level are kept, the working directory is removed"""
    w, fs = pool_world()
    sp = w.load("mlmc.sampling_pool")
    debug = C().branch(C().fresh("debug", B))
    p = sp.OneProcessPool(work_dir=None, debug=debug)
    out = SStr(C().fresh("out", Str), ("abs",))
    p._output_dir = out
    p._successful_dir = path_join(out, "several_successful")
    num = fint("num", 0, 9999999)
    i = mk_fmt("L{:02d}_S{:07d}", [fint("lev", 0), num])
    sim = LevelSim(workspace=True)
    D, S, F = path_join(out, i), path_join(path_join(out, "several_successful"), i), path_join(path_join(out, "failed"), i)
    C().assume(z3.Distinct(str_term(D), str_term(S), str_term(F)))
    fs.state[key(D)] = "sample"
    failed = C().branch(C().fresh("failed", B))
    err = fstr("err") if failed else ""
    if failed:
        C().assume(err.e != values.lit(""))
    r, e = raises(lambda: p._process_result(i, (Opaque("fine"), Opaque("coarse")), err, freal("t"), sim))
    prove("no exception", z3.BoolVal(e is None))
    if e is not None:
        return
    cover("finished")
    if debug and not failed:
        prove("debug mode leaves successful samples in place", as_seq(fs.ops).nt == 0)
        return
    prove("working directory of the sample is removed", z3.BoolVal(fs.content(D) == ""))
    if failed:
        touched(fs, [D, F])
        prove("failed sample is kept among the failed ones", z3.BoolVal(fs.content(F) == "sample"))
    else:
        if C().branch(num.e < 5):
            touched(fs, [D, S])
            prove("one of the first five successful samples is kept", z3.BoolVal(fs.content(S) == "sample"))
        else:
            touched(fs, [D])


HARNESSES = [start, prepared, without, order, finished]
