from common import *
from mlmc.sampling_pool import OneProcessPool, ThreadPool, ProcessPool
import pbsenv
from pbsenv import FakePBS


class Odd(Exception):
    def __init__(self, a, b):
        super().__init__(a)
        self.b = b


def _behaviour(rng, size):
    """(kind, what the simulation does); kind: ok | bad"""
    u = rng.random()
    vec = lambda n: np.array([rng.choice([0.0, -1.5, float("nan"), float("inf"), rng.random()]) for _ in range(n)])
    if u < 0.45:
        f, c = vec(size), vec(size)
        if size % 2 == 0 and rng.random() < 0.3:
            f, c = f.reshape(2, -1), c.reshape(-1, 2)
        if rng.random() < 0.2:
            f, c = np.arange(size), np.arange(size) * 2
        return "ok", lambda: (f, c)
    if u < 0.65:
        e = rng.choice([ValueError("boom"), ZeroDivisionError("zero"), Odd("x", 3), AssertionError("a"), KeyError("k"), OSError(2, "no"),
                        StopIteration("s"), RuntimeError(""), AttributeError("att"), IndexError()])

        def f():
            raise e
        return "bad", f
    d = rng.choice([-1, 1, size, 2])
    n = max(0, size + d)
    if n == size:
        n = size + 1
    which = rng.choice(["fine", "coarse", "both"])
    f = vec(n if which in ("fine", "both") else size)
    c = vec(n if which in ("coarse", "both") else size)
    return "bad", lambda: (f, c)


def _hist(kind, seed):
    def run():
        rng = random.Random(seed)
        fmts = [mk_fmt(rng) for _ in range(3)]
        beh = {}
        cur = {}
        if kind == "one":
            pool = OneProcessPool()
        elif kind == "thread":
            pool = ThreadPool(2)

        def calc(config, s):
            return beh[cur[int(s)]][1]()
        sims = [LevelSimulation(config_dict={}, calculate=calc, level_id=l, result_format=(lambda l=l: fmts[l])) for l in range(3)]
        ids = [sid(rng.randint(0, 2), k) for k in range(25)]
        try:
            for i in ids:
                beh[i] = _behaviour(rng, fmt_size(fmts[int(i[1:3])]))
                cur[int(SamplingPool.compute_seed(i))] = i
            for i in ids:
                pool.schedule_sample(i, sims[int(i[1:3])])
            ok, bad = {}, {}
            t0 = time.time()
            while len(ok) + len(bad) < len(ids) and time.time() - t0 < 30:
                o, b, n, _ = pool.get_finished()
                for l, rs in o.items():
                    for i, r in rs:
                        ok[i] = (l, r)
                for l, rs in b.items():
                    for i, m in rs:
                        bad[i] = (l, m)
            check(set(ok) | set(bad) == set(ids) and not set(ok) & set(bad), "samples missing")
            for i in ids:
                if beh[i][0] == "ok":
                    check(i in ok, "well-formed sample", i, "reported as failed:", bad.get(i))
                    f, c = beh[i][1]()
                    check(same(ok[i][1][0], f) and same(ok[i][1][1], c), "result of", i, ok[i][1], "expected", (f, c))
                else:
                    check(i in bad, "bad sample", i, "reported as successful", ok.get(i), "format size", fmt_size(fmts[int(i[1:3])]))
                    check(isinstance(bad[i][1], str) and len(bad[i][1]) > 0, "no error text", bad[i])
                    try:
                        beh[i][1]()
                    except Exception as e:
                        check(type(e).__name__ in bad[i][1] and str(e) in bad[i][1], "error text", bad[i], "of", repr(e))
        finally:
            stop(pool)
    return run


def _calc(seed):
    def run():
        rng = random.Random(seed)
        for _ in range(40):
            fmt = mk_fmt(rng)
            kind, f = _behaviour(rng, fmt_size(fmt))
            ls = LevelSimulation(config_dict={}, calculate=lambda c, s: f(), level_id=0, result_format=lambda: fmt)
            i, res, err, t = SamplingPool.calculate_sample(sid(0, 1), ls)
            check(i == sid(0, 1), "identifier", i)
            if kind == "ok":
                check(err == "", "well-formed sample has error", err, fmt_size(fmt))
                ef, ec = f()
                check(same(res[0], ef) and same(res[1], ec), "result changed", res, (ef, ec))
            else:
                check(err != "", "bad sample without error, length", fmt_size(fmt))
            check(t >= 0, "negative time")
    return run


def _process(seed):
    def run():
        rng = random.Random(seed)
        pool = ProcessPool(2)
        try:
            sims = [LevelSimulation(config_dict={"tag": 1.0, "fail": tuple(int(SamplingPool.compute_seed(sid(0, k))) for k in range(0, 12, 3))},
                                    calculate=pbsenv.echo, level_id=0, result_format=pbsenv.fmt3),
                    LevelSimulation(config_dict={"tag": 1.0}, calculate=pbsenv.echo, level_id=1, result_format=lambda_fmt2)]
            for k in range(12):
                pool.schedule_sample(sid(0, k), sims[0])
                pool.schedule_sample(sid(1, k), sims[1])
            ok, bad = set(), set()
            t0 = time.time()
            while len(ok) + len(bad) < 24 and time.time() - t0 < 30:
                o, b, n, _ = pool.get_finished()
                ok |= {i for v in o.values() for i, _ in v}
                bad |= {i for v in b.values() for i, _ in v}
            exp = {sid(0, k) for k in range(0, 12, 3)} | {sid(1, k) for k in range(12)}
            check(bad == exp and ok == {sid(0, k) for k in range(12)} - exp, "failed", sorted(bad), "expected", sorted(exp))
        finally:
            stop(pool)
    return run


def lambda_fmt2():
    return [QuantitySpec(name="q", unit="m", shape=(2, 1), times=[1.0], locations=["a"])]


def _pbs(seed):
    def run():
        rng = random.Random(seed)
        with FakePBS() as env:
            pool = env.pool()
            ids = [sid(l, k) for l in range(2) for k in range(rng.randint(2, 6))]
            fail = {i for i in ids if rng.random() < 0.4}
            for i in ids:
                l = int(i[1:3])
                pool.schedule_sample(i, env.level_sim(l, fail=[int(SamplingPool.compute_seed(j)) for j in fail if int(j[1:3]) == l]))
            pool.get_finished()
            env.run_jobs()
            ok, bad = env.collect(pool)
            check(set(bad) == fail and set(ok) == set(ids) - fail, "failed", sorted(bad), "expected", sorted(fail))
            for i in fail:
                check("failing sample" in bad[i][1], "error text", bad[i])
            for i in ok:
                s = float(int(SamplingPool.compute_seed(i)))
                check(same(ok[i][1][0], [s, 100.0 + ok[i][0], 1.0]) and same(ok[i][1][1], [s, 100.0 + ok[i][0], 2.0]), "result", ok[i])
    return run


def _prep_fails(kind):
    """a workspace that cannot be prepared fails the sample, not the pool"""
    def run():
        pool = OneProcessPool(work_dir=os.path.abspath("w")) if kind == "one" else ThreadPool(2, work_dir=os.path.abspath("w"))
        cwd = os.getcwd()
        good = LevelSimulation(config_dict={"tag": 1.0}, calculate=pbsenv.echo, level_id=0, result_format=pbsenv.fmt3)
        badl = LevelSimulation(config_dict={"tag": 1.0}, calculate=pbsenv.echo, level_id=1, result_format=pbsenv.fmt3,
                               need_sample_workspace=True, common_files=[os.path.abspath("missing_file")])
        try:
            pool.schedule_sample(sid(0, 0), good)
            pool.schedule_sample(sid(1, 0), badl)
            pool.schedule_sample(sid(0, 1), good)
            ok, bad = set(), set()
            t0 = time.time()
            n = 1
            while n > 0 and time.time() - t0 < 5:
                o, b, n, _ = pool.get_finished()
                ok |= {i for v in o.values() for i, _ in v}
                bad |= {i for v in b.values() for i, _ in v}
            check(ok == {sid(0, 0), sid(0, 1)} and bad == {sid(1, 0)}, "successful", ok, "failed", bad)
        finally:
            os.chdir(cwd)
            stop(pool)
    return run


def cases(tier, rng):
    n = 12 if tier == "quick" else 200
    for k in range(n):
        yield "calculate#%d" % k, _calc(rng.randrange(10**9))
        yield "one#%d" % k, _hist("one", rng.randrange(10**9))
    for k in range(n // 4):
        yield "thread#%d" % k, _hist("thread", rng.randrange(10**9))
        yield "pbs#%d" % k, _pbs(rng.randrange(10**9))
    yield "process#0", _process(1)
    yield "prepare-one#0", _prep_fails("one")
    yield "prepare-thread#0", _prep_fails("thread")
