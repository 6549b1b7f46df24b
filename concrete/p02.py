import hashlib
import struct
from common import *
from mlmc.sampling_pool import OneProcessPool, ThreadPool, ProcessPool
from pbsenv import FakePBS


def spec_seed(s):
    return struct.unpack("<I", hashlib.md5(s.encode("ascii")).digest()[:4])[0]


def _seed_fn(ids):
    def run():
        for i in ids:
            s = SamplingPool.compute_seed(i)
            check(int(s) == spec_seed(i), "seed of", i, "is", s, "expected", spec_seed(i))
            check(int(SamplingPool.compute_seed(i)) == int(s), "seed not a function of the identifier", i)
    return run


def echo(config, seed):
    """result carries the seed and the level tag"""
    return np.array([float(int(seed)), config["tag"], 1.0]), np.array([float(int(seed)), config["tag"], 2.0])


def fmt3():
    return [QuantitySpec(name="q", unit="m", shape=(3, 1), times=[1.0], locations=["a"])]


def _sim(level, calc=echo, **k):
    return LevelSimulation(config_dict={"tag": 100.0 + level}, calculate=calc, level_id=level, result_format=fmt3, **k)


def _explicit(seed):
    def run():
        rng = random.Random(seed)
        calls = []

        def calc(config, s):
            calls.append((config, s))
            return echo(config, s)
        for _ in range(20):
            ls = _sim(rng.randint(0, 12), calc)
            i = sid(rng.randint(0, 15), rng.randint(0, 3000000))
            given = rng.choice([None, 0, 1, rng.randrange(2**32)])
            del calls[:]
            out = SamplingPool.calculate_sample(i, ls, seed=given) if given is not None else SamplingPool.calculate_sample(i, ls)
            check(len(calls) == 1, "simulation called", len(calls), "times")
            exp = spec_seed(i) if given is None else given
            check(int(calls[0][1]) == exp, "sample", i, "explicit seed", given, "computed with", calls[0][1], "expected", exp)
            check(calls[0][0] is ls.config_dict, "configuration is not the level's")
            check(out[0] == i and float(out[1][0][0]) == exp and float(out[1][1][2]) == 2.0, "result", out)
    return run


def _pool(kind, seed):
    def run():
        rng = random.Random(seed)
        if kind == "one":
            pool = OneProcessPool()
        elif kind == "thread":
            pool = ThreadPool(rng.randint(1, 4))
        else:
            pool = ProcessPool(2)
        sims = [_sim(l) for l in range(3)]
        ids = []
        for l in range(3):
            for _ in range(rng.randint(1, 6)):
                ids.append((sid(l, rng.randint(0, 9999999)), l))
        ids = list(dict.fromkeys(ids))
        rng.shuffle(ids)
        try:
            for i, l in ids:
                pool.schedule_sample(i, sims[l])
            got = {}
            t0 = time.time()
            n = 1
            while n > 0 and time.time() - t0 < 40:
                ok, bad, n, _ = pool.get_finished()
                check(not bad, "unexpected failure", bad)
                for l, rs in ok.items():
                    for i, (f, c) in rs:
                        got[i] = (l, f, c)
            check(len(got) == len(ids), "results missing", len(got), len(ids))
            for i, l in ids:
                check(float(got[i][1][0]) == spec_seed(i) == float(got[i][2][0]), kind, "pool computed", i, "with seed", got[i][1][0], "expected", spec_seed(i))
                check(float(got[i][1][1]) == 100.0 + l == float(got[i][2][1]), "level configuration", got[i], l)
        finally:
            stop(pool)
    return run


def _restart(seed):
    """the seed after a restart and for renewed failed samples"""
    def run():
        rng = random.Random(seed)
        log = []

        class S(Sim):
            fail = True

            @staticmethod
            def calculate(config, s):
                log.append((config["fine"][0], int(s)))
                if S.fail and int(s) % 3 == 0:
                    raise ValueError("bad sample")
                return np.array([float(int(s))]), np.array([0.0])
        path = os.path.abspath("s.hdf5")
        params = [[1.0], [0.5], [0.25]]
        n = [rng.randint(3, 9) for _ in params]
        st = SampleStorageHDF(path)
        s = Sampler(st, OneProcessPool(), S(), params)
        s.set_initial_n_samples(n)
        s.schedule_samples()
        s.ask_sampling_pool_for_samples()
        exp = {}
        for l, p in enumerate(params):
            for i in range(n[l]):
                exp[sid(l, i)] = (p[0], spec_seed(sid(l, i)))
        check(sorted(log) == sorted(exp.values()), "seeds used", sorted(log)[:5], "expected", sorted(exp.values())[:5])
        failed = {i for v in st.failed_samples().values() for i in v}
        del log[:]
        S.fail = False
        st = SampleStorageHDF(path)
        s = Sampler(st, OneProcessPool(), S(), params)
        s.renew_failed_samples()
        s.ask_sampling_pool_for_samples()
        check(sorted(log) == sorted(exp[i] for i in failed), "renewed samples", failed, "ran with", log)
    return run


def _pbs(seed):
    def run():
        rng = random.Random(seed)
        with FakePBS() as env:
            pool = env.pool()
            ids = []
            for l in range(rng.randint(1, 3)):
                for _ in range(rng.randint(1, 4)):
                    i = sid(l, rng.randint(0, 9999999))
                    ids.append((l, i))
            ids = list(dict.fromkeys(ids))
            for l, i in ids:
                pool.schedule_sample(i, env.level_sim(l))
            pool.get_finished()
            jobs = env.submitted_jobs()
            got = {s[1]: s for j in jobs for s in j}
            for l, i in ids:
                check(i in got, "sample", i, "not in a job", jobs)
                check(int(got[i][2]) == spec_seed(i), "job lists", got[i], "expected seed", spec_seed(i))
            env.run_jobs()
            ok, bad = env.collect(pool)
            for l, i in ids:
                check(i in ok, "result missing for", i, bad)
                f, c = ok[i][1]
                check(float(f[0]) == spec_seed(i) == float(c[0]), "PBS job ran", i, "with seed", f, c, "expected", spec_seed(i))
    return run


def cases(tier, rng):
    ids = [sid(l, i) for l in range(0, 14, 3) for i in (0, 1, 2, 99, 1234567, 9999999)]
    yield "compute_seed#grid", _seed_fn(ids)
    n = 10 if tier == "quick" else 100
    for k in range(n):
        yield "compute_seed#%d" % k, _seed_fn(["".join(rng.choice("abcLS_0123456789") for _ in range(rng.randint(1, 80))) for _ in range(50)])
    for k in range(n // 2):
        yield "calculate#%d" % k, _explicit(rng.randrange(10**9))
    for k in range(3 if tier == "quick" else 30):
        yield "one#%d" % k, _pool("one", rng.randrange(10**9))
        yield "thread#%d" % k, _pool("thread", rng.randrange(10**9))
    for k in range(2 if tier == "quick" else 8):
        yield "process#%d" % k, _pool("process", rng.randrange(10**9))
        yield "restart#%d" % k, _restart(rng.randrange(10**9))
        yield "pbs#%d" % k, _pbs(rng.randrange(10**9))
