import threading
from common import *
from mlmc.sampling_pool import OneProcessPool, ThreadPool, ProcessPool
from pbsenv import FakePBS
import pbsenv

CALLS = {}


def ws_calc(config, seed):
    """records where it runs and what it finds there, leaves files behind"""
    cwd = os.getcwd()
    with open(os.path.join(config["rec"], "%d.%s" % (int(seed), config["tag"])), "a") as f:
        f.write(json.dumps([cwd, {n: open(n).read() for n in sorted(os.listdir(".")) if os.path.isfile(n)}]) + "\n")
    with open("trace", "w") as f:
        f.write("seed %d" % int(seed))
    os.makedirs("sub/deep", exist_ok=True)
    with open("sub/deep/x", "w") as f:
        f.write("x%d" % int(seed))
    if int(seed) in config["fail"]:
        raise ValueError("failing sample")
    return np.array([1.0, 2.0, 3.0]), np.array([4.0, 5.0, 6.0])


def plain_calc(config, seed):
    if int(seed) in config["fail"]:
        raise ValueError("failing sample")
    return np.array([1.0, 2.0, 3.0]), np.array([4.0, 5.0, 6.0])


def tree(root):
    out = {}
    for d, ds, fs in os.walk(root):
        r = os.path.relpath(d, root)
        out[r + "/"] = None
        for f in fs:
            with open(os.path.join(d, f), "rb") as fh:
                out[os.path.join(r, f)] = fh.read()
    return out


def below(t, pre):
    pre = os.path.normpath(pre)
    out = {}
    for k, v in t.items():
        n = os.path.normpath(k)
        if n == pre or n.startswith(pre + os.sep):
            out[os.path.relpath(n, pre) + ("/" if k.endswith("/") else "")] = v
    return out


def expected_dir(i, common, kind):
    s = int(SamplingPool.compute_seed(i))
    d = {"./": None}
    for n, c in common.items():
        d[n] = c.encode()
    if kind != "noprep":
        d.update({"trace": b"seed %d" % s, "sub/": None, "sub/deep/": None, "sub/deep/x": b"x%d" % s})
    return d


def norm(t):
    return {os.path.normpath(k) + ("/" if k.endswith("/") else ""): v for k, v in t.items()}


def _hist(kind, debug, seed, workdir=True):
    def run():
        rng = random.Random(seed)
        base = os.getcwd()
        for d in ("w", "rec", "cmn", "other"):
            os.mkdir(d)
        for n in ("other/keep", "w/keep", "w/L00_S0000001"):
            with open(n, "w") as f:
                f.write("precious")
        wd = os.path.join(base, "w")
        common = {"c%d.txt" % k: "common %d" % rng.randrange(1000) for k in range(rng.randint(0, 3))}
        for n, c in common.items():
            with open(os.path.join("cmn", n), "w") as f:
                f.write(c)
        files = [os.path.join(base, "cmn", n) for n in common]
        levels = rng.randint(1, 3)
        nums = [0, 1, 4, 5, 6, 9, 10, 13, 10004, 123456]
        ids = [sid(l, k) for l in range(levels) for k in rng.sample(nums, rng.randint(3, 7))]
        rng.shuffle(ids)
        fail = {i for i in ids if rng.random() < 0.35}
        failseeds = tuple(int(SamplingPool.compute_seed(i)) for i in fail)
        ws = [True] + [rng.random() < 0.7 for _ in range(levels - 1)]
        sims = []
        for l in range(levels):
            cfg = {"rec": os.path.join(base, "rec"), "tag": float(l), "fail": failseeds}
            sims.append(LevelSimulation(config_dict=cfg, calculate=ws_calc if ws[l] else plain_calc, level_id=l, result_format=pbsenv.fmt3,
                                        need_sample_workspace=ws[l], common_files=files if files else None, task_size=rng.choice([0.0, 0.4])))
        env = None
        try:
            if kind == "one":
                pool = OneProcessPool(work_dir=wd, debug=debug)
            elif kind == "process":
                pool = ProcessPool(2, work_dir=wd, debug=debug)
            else:
                env = FakePBS()
                env.__enter__()
                env.work = wd
                pool = env.pool(debug=debug)
            start = tree(base)
            for i in ids:
                pool.schedule_sample(i, sims[int(i[1:3])])
            if env is not None:
                pool.get_finished()
                env.run_jobs()
            n, t0, back = 1, time.time(), set()
            while n > 0 and time.time() - t0 < 30:
                o, b, n, _ = pool.get_finished()
                back |= {i for v in o.values() for i, _ in v} | {i for v in b.values() for i, _ in v}
            os.chdir(base)
            check(back == set(ids), "returned", sorted(back), "expected", sorted(ids))

            def verify():
                end = tree(base)
                out = below(end, "w/output")
                # where it ran
                for i in ids:
                    l = int(i[1:3])
                    p = os.path.join(base, "rec", "%d.%s" % (int(SamplingPool.compute_seed(i)), float(l)))
                    if ws[l]:
                        with open(p) as f:
                            runs = [json.loads(x) for x in f]
                        check(len(runs) == 1, "sample", i, "ran", len(runs), "times")
                        check(os.path.realpath(runs[0][0]) == os.path.realpath(os.path.join(wd, "output", i)), i, "ran in", runs[0][0])
                        check(runs[0][1] == common, i, "found", runs[0][1], "expected the common files", common)
                # what is kept
                exp = {"failed": {}, "several_successful": {}, ".": {}}
                for i in ids:
                    l = int(i[1:3])
                    if not ws[l]:
                        continue
                    where = None
                    if i in fail:
                        where = "failed"
                    elif debug:
                        where = "."
                    elif int(i[-7:]) < 5:
                        where = "several_successful"
                    if where is not None:
                        exp[where][i] = norm(expected_dir(i, common, "ran"))
                for where in ("failed", "several_successful"):
                    got = below(out, where)
                    names = {k.split("/")[0] for k in got} - {"."}
                    check(names == set(exp[where]), "directories in", where, sorted(names), "expected", sorted(exp[where]))
                    for i in names:
                        check(norm(below(got, i)) == exp[where][i], "content of", where, i, below(got, i), "expected", exp[where][i])
                names = {k.split("/")[0] for k in out if k.split("/")[0][:1] == "L" and "_S" in k}
                check(names == set(exp["."]), "sample directories left:", sorted(names), "expected", sorted(exp["."]))
                for i in names:
                    check(norm(below(out, i)) == exp["."][i], "content of", i, below(out, i))
                # nothing else touched
                for root in ("other", "cmn"):
                    check(below(start, root) == below(end, root), root, "was changed:", below(end, root))
                a = {k: v for k, v in below(start, "w").items() if not k.startswith("output")}
                b = {k: v for k, v in below(end, "w").items() if not k.startswith("output")}
                check(a == b, "files of the working directory changed: before", a, "after", b)
            t0 = time.time()
            while True:
                try:
                    verify()
                    break
                except (Viol, OSError):
                    if kind != "process" or time.time() - t0 > 10:   # the directory is handled after the result is delivered
                        raise
                    time.sleep(0.1)
        finally:
            os.chdir(base)
            if env is not None:
                env.__exit__()
            else:
                stop(pool)
    return run


def _plain(kind, seed):
    """without workspace there are no file operations at all"""
    def run():
        import builtins
        rng = random.Random(seed)
        base = os.getcwd()
        wd = os.path.join(base, "w") if kind != "nodir" else None
        pool = OneProcessPool(work_dir=wd, debug=rng.random() < 0.5)
        ids = [sid(0, k) for k in range(8)]
        ls = LevelSimulation(config_dict={"fail": tuple(int(SamplingPool.compute_seed(i)) for i in ids if rng.random() < 0.4)}, calculate=plain_calc,
                             level_id=0, result_format=pbsenv.fmt3, common_files=[os.path.join(base, "not_there")])
        names = [(os, n) for n in ("mkdir", "makedirs", "remove", "unlink", "rename", "replace", "rmdir", "chdir", "link", "symlink", "removedirs")]
        names += [(shutil, n) for n in ("rmtree", "copy", "copy2", "copyfile", "copytree", "move")]
        saved = [(m, n, getattr(m, n)) for m, n in names]
        calls = []

        def rec(n, f):
            def g(*a, **k):
                calls.append((n, a))
                return f(*a, **k)
            return g
        before = tree(base)
        try:
            for m, n, f in saved:
                setattr(m, n, rec(n, f))
            for i in ids:
                pool.schedule_sample(i, ls)
            o, b, n, _ = pool.get_finished()
        finally:
            for m, n, f in saved:
                setattr(m, n, f)
        check(not calls, "file operations without workspace:", calls[:5])
        check(os.getcwd() == base and tree(base) == before, "file tree changed")
        check(sum(len(v) for v in o.values()) + sum(len(v) for v in b.values()) == 8, "samples lost")
    return run


def _restart(kind, debug):
    """starting a pool on an existing working directory: debug mode deletes nothing; otherwise only the output is renewed"""
    def run():
        base = os.getcwd()
        wd = os.path.join(base, "w")
        for d in ("w/output/failed/L00_S0000003", "w/output/several_successful/L00_S0000000", "w/output/L01_S0000007", "w/output/jobs", "w/keep", "other"):
            os.makedirs(d)
        for f in ("w/output/failed/L00_S0000003/a", "w/output/several_successful/L00_S0000000/b", "w/output/L01_S0000007/c", "w/output/d", "w/output/jobs/0000_job.sh",
                  "w/keep/e", "w/f", "other/g"):
            with open(f, "w") as fh:
                fh.write(f)
        before = tree(base)
        env = None
        try:
            if kind == "one":
                pool = OneProcessPool(work_dir=wd, debug=debug)
            elif kind == "thread":
                pool = ThreadPool(1, work_dir=wd, debug=debug)
            elif kind == "process":
                pool = ProcessPool(1, work_dir=wd, debug=debug)
            else:
                env = FakePBS()
                env.__enter__()
                env.work = wd
                pool = env.pool(debug=debug)
            after = tree(base)
        finally:
            os.chdir(base)
            if env is not None:
                env.__exit__()
            else:
                stop(pool)
        if debug:
            for k, v in before.items():
                check(k in after and after[k] == v, "starting the pool in debug mode removed or changed", k)
        else:
            for k, v in before.items():
                if not below({k: v}, "w/output"):
                    check(k in after and after[k] == v, "starting the pool removed or changed", k)
        for d in ("w/output/failed/", "w/output/several_successful/"):
            check(d in after, d, "missing")
    return run


def _nodir(debug):
    """without a working directory the current directory is used; failed samples are kept there too"""
    def run():
        base = os.getcwd()
        os.mkdir("rec")
        with open("keep", "w") as f:
            f.write("k")
        pool = OneProcessPool(debug=debug)
        ids = [sid(0, k) for k in (0, 1, 7)]
        ls = LevelSimulation(config_dict={"rec": os.path.join(base, "rec"), "tag": 0.0, "fail": (int(SamplingPool.compute_seed(ids[1])),)}, calculate=ws_calc,
                             level_id=0, result_format=pbsenv.fmt3, need_sample_workspace=True)
        for i in ids:
            pool.schedule_sample(i, ls)
        os.chdir(base)
        t = tree(base)
        check(t.get("./keep") == b"k" or t.get("keep") == b"k", "file of the current directory changed")
        check("failed/" + ids[1] + "/" in t and ids[1] + "/" not in t, "failed sample", sorted(t))
        for i in (ids[0], ids[2]):
            check((i + "/" in t) == debug, "directory of", i, "debug", debug)
    return run


def _again(seed):
    """a sample computed again (renewed after a failure, or once more with its number among the first ones): what is kept is the last run's directory"""
    def run():
        rng = random.Random(seed)
        base = os.getcwd()
        pool = OneProcessPool(work_dir=os.path.join(base, "w"))
        i = sid(rng.randrange(2), rng.choice([0, 4, 5, 12]))
        what = {}

        def calc(config, seed):
            os.makedirs("d/e", exist_ok=True)
            for n, c in what["files"].items():
                with open(n, "w") as f:
                    f.write(c)
            if what["bad"]:
                raise ValueError("bad")
            return np.array([1.0, 2.0, 3.0]), np.array([4.0, 5.0, 6.0])
        ls = LevelSimulation(config_dict={}, calculate=calc, level_id=0, result_format=pbsenv.fmt3, need_sample_workspace=True)
        last = {}
        for k in range(rng.randint(2, 5)):
            what["bad"] = rng.random() < 0.6
            what["files"] = {n: "%d %s" % (k, n) for n in rng.sample(["a", "b", "d/x", "d/e/y", "c"], rng.randint(0, 4))}
            where = "failed" if what["bad"] else "several_successful"
            if what["bad"] or int(i[-7:]) < 5:
                last[where] = norm(dict({"./": None, "d/": None, "d/e/": None}, **{n: c.encode() for n, c in what["files"].items()}))
            pool.schedule_sample(i, ls)
            os.chdir(base)
            out = below(tree(base), "w/output")
            check(not norm(below(out, i)), "sample directory left", i)
            for w in ("failed", "several_successful"):
                got = norm(below(out, w + "/" + i))
                check(got == last.get(w, {}), "content of", w, i, "after run", k, got, "expected", last.get(w, {}))
    return run


def _threads():
    """two samples running at the same time in a thread pool each have their own current directory"""
    def run():
        base = os.getcwd()
        pool = ThreadPool(2, work_dir=os.path.join(base, "w"), debug=True)
        started = [threading.Event(), threading.Event()]
        seeds = [int(SamplingPool.compute_seed(sid(0, k))) for k in range(2)]
        cwd = {}

        def calc(config, seed):
            k = seeds.index(int(seed))
            started[k].set()
            started[1 - k].wait(5)
            cwd[k] = os.getcwd()
            return np.array([1.0, 2.0, 3.0]), np.array([4.0, 5.0, 6.0])
        ls = LevelSimulation(config_dict={}, calculate=calc, level_id=0, result_format=pbsenv.fmt3, need_sample_workspace=True)
        try:
            for k in range(2):
                pool.schedule_sample(sid(0, k), ls)
            t0, n = time.time(), 1
            while n > 0 and time.time() - t0 < 20:
                n = pool.get_finished()[2]
        finally:
            os.chdir(base)
            stop(pool)
        for k in range(2):
            check(k in cwd and os.path.basename(cwd[k]) == sid(0, k), "sample", sid(0, k), "runs in", cwd.get(k), "while another sample is running")
    return run


def cases(tier, rng):
    n = 6 if tier == "quick" else 80
    for k in range(n):
        for kind in ("one", "pbs"):
            for debug in (False, True):
                yield "%s-%s#%d" % (kind, "debug" if debug else "normal", k), _hist(kind, debug, rng.randrange(10**9))
    for k in range(1 if tier == "quick" else 6):
        for debug in (False, True):
            yield "process-%s#%d" % ("debug" if debug else "normal", k), _hist("process", debug, rng.randrange(10**9))
    for k in range(4):
        yield "plain#%d" % k, _plain("dir" if k % 2 else "nodir", rng.randrange(10**9))
    for k in range(6 if tier == "quick" else 60):
        yield "again#%d" % k, _again(rng.randrange(10**9))
    for kind in ("one", "thread", "process", "pbs"):
        for debug in (False, True):
            yield "restart-%s#%s" % (kind, debug), _restart(kind, debug)
    for debug in (False, True):
        yield "nodir#%s" % debug, _nodir(debug)
    yield "concurrent-threads#0", _threads()
