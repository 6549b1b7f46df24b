from common import *
from pbsenv import FakePBS
import pbsenv
from p03 import _manual
from mlmc.sampling_pool import OneProcessPool, ThreadPool, ProcessPool


class Clock:
    """all clocks of the process show this time"""
    NAMES = ("time", "perf_counter", "monotonic", "process_time", "thread_time")

    def __enter__(self):
        self.now = 1024.0
        self.saved = {n: getattr(time, n) for n in self.NAMES}
        for n in self.NAMES:
            setattr(time, n, lambda: self.now)
        return self

    def __exit__(self, *a):
        for n, f in self.saved.items():
            setattr(time, n, f)


def mk_storage(kind, levels, path="s.h5"):
    st = Memory() if kind == "memory" else SampleStorageHDF(file_path=os.path.abspath(path))
    st.save_global_data(level_parameters=[[1.0 / (l + 1)] for l in range(levels)], result_format=pbsenv.fmt3())
    return st


def verify(st, total, levels, where=""):
    got = [float(x) for x in st.get_n_ops()]
    exp = [total[l][0] / total[l][1] if total[l][1] > 0 else 0.0 for l in range(levels)]
    check(len(got) == levels and np.allclose(got, exp, rtol=1e-9, atol=1e-12), "cost per sample", got, "expected", exp, "totals", total, where)


def _storage(kind, seed):
    def run():
        rng = random.Random(seed)
        levels = rng.randint(1, 4)
        st = mk_storage(kind, levels)
        total = [[0.0, 0] for _ in range(levels)]
        verify(st, total, levels, "nothing measured")
        for _ in range(rng.randint(1, 12)):
            u = rng.random()
            if u < 0.2 and kind == "hdf":
                st = SampleStorageHDF(file_path=os.path.abspath("s.h5"))
            else:
                batch = []
                for l in rng.sample(range(levels), rng.randint(0, levels)):
                    n = rng.choice([0, 0, 1, 2, 7, 100])
                    t = rng.choice([0.125, 1.5, 1000.0, rng.random()]) * n
                    batch.append((l, [t, n]))
                    total[l][0] += t
                    total[l][1] += n
                st.save_n_ops(batch)
            verify(st, total, levels)
    return run


def _pool(pkind, skind, seed):
    def run():
        rng = random.Random(seed)
        levels = rng.randint(1, 3)
        with Clock() as clk:
            st = mk_storage(skind, levels)
            mp = None
            if pkind == "one":
                pool = OneProcessPool()
            else:
                pool, mp = _manual(ThreadPool if pkind == "thread" else ProcessPool)
            total = [[0.0, 0] for _ in range(levels)]
            plan = {}

            def calc(config, seed):
                l, dt, kind = plan[int(seed)]
                clk.now += dt
                if kind == "raise":
                    raise ValueError("x")
                return np.array([1.0, 2.0, 3.0]), np.array([1.0, 2.0, 3.0])
            sims = [LevelSimulation(config_dict={}, calculate=calc, level_id=l, result_format=pbsenv.fmt3) for l in range(levels)]

            def ran(s):
                l, dt, kind = plan[s]
                if kind == "ok":
                    total[l][0] += dt
                    total[l][1] += 1
            k = 0
            for _ in range(rng.randint(5, 30)):
                u = rng.random()
                if u < 0.5:
                    l = rng.randrange(levels)
                    i = sid(l, k)
                    k += 1
                    s = int(SamplingPool.compute_seed(i))
                    plan[s] = (l, rng.choice([0.125, 0.5, 3.0, 17.25]), rng.choice(["ok", "ok", "ok", "raise"]))
                    pool.schedule_sample(i, sims[l])
                    if mp is None:
                        ran(s)
                elif u < 0.75 and mp is not None and mp.tasks:
                    j = rng.randrange(len(mp.tasks))
                    s = int(SamplingPool.compute_seed(mp.tasks[j][1][0]))
                    mp.complete(j)
                    ran(s)
                else:
                    for _ in range(rng.randint(1, 3)):
                        o, b, n, times = pool.get_finished()
                        st.save_samples(o, b)
                        st.save_n_ops(times)
                        verify(st, total, levels)
            st.save_n_ops(pool.get_finished()[3])
            verify(st, total, levels, "at the end")
    return run


def slow(config, seed):
    config_clock().now += config["dt"][int(seed)]
    return np.array([1.0, 2.0, 3.0]), np.array([1.0, 2.0, 3.0])


_CLK = []


def config_clock():
    return _CLK[-1]


def _pbs(skind, seed):
    def run():
        rng = random.Random(seed)
        levels = rng.randint(1, 3)
        with FakePBS() as env, Clock() as clk:
            _CLK.append(clk)
            try:
                st = mk_storage(skind, levels, os.path.join(env.dir, "s.h5"))
                pool = env.pool()
                total = [[0.0, 0] for _ in range(levels)]
                dt = {}
                ids = [sid(l, k) for l in range(levels) for k in range(rng.randint(1, 5))]
                rng.shuffle(ids)
                for i in ids:
                    dt[int(SamplingPool.compute_seed(i))] = rng.choice([0.125, 0.5, 3.0, 17.25])
                for l in range(levels):
                    env.sims[l] = LevelSimulation(config_dict={"dt": dt}, calculate=slow, level_id=l, result_format=pbsenv.fmt3, task_size=0.3)
                for i in ids:
                    pool.schedule_sample(i, env.sims[int(i[1:3])])
                pool.get_finished()
                for p, (name, lst) in env.jobs().items():
                    env.run_job(p)
                    for l, i, s in lst:
                        total[int(l)][0] += dt[int(s)]
                        total[int(l)][1] += 1
                    if rng.random() < 0.6:
                        for _ in range(2):
                            st.save_n_ops(pool.get_finished()[3])
                            verify(st, total, levels)
                for _ in range(2):
                    st.save_n_ops(pool.get_finished()[3])
                verify(st, total, levels, "at the end")
            finally:
                _CLK.pop()
    return run


def _sampler(skind, seed):
    """through the sampler, polled many times"""
    def run():
        rng = random.Random(seed)
        levels = rng.randint(1, 3)
        with Clock() as clk:
            total = [[0.0, 0] for _ in range(levels)]

            class S(Sim):
                def level_instance(self, fine, coarse):
                    return LevelSimulation(config_dict={"l": int(round(fine[0]))}, task_size=0)

                @staticmethod
                def calculate(config, seed):
                    dt = float(int(seed) % 64 + 1) / 8
                    clk.now += dt
                    total[config["l"]][0] += dt
                    total[config["l"]][1] += 1
                    return np.array([1.0]), np.array([1.0])
            st = Memory() if skind == "memory" else SampleStorageHDF(file_path=os.path.abspath("s.h5"))
            s = Sampler(sample_storage=st, sampling_pool=OneProcessPool(), sim_factory=S(), level_parameters=[[float(l)] for l in range(levels)])
            n = np.zeros(levels)
            for _ in range(rng.randint(1, 4)):
                n = n + np.array([rng.randint(0, 6) for _ in range(levels)])
                s.set_level_target_n_samples(n)
                s.schedule_samples()
                for _ in range(rng.randint(1, 3)):
                    s.ask_sampling_pool_for_samples()
                verify(st, total, levels)
    return run


def cases(tier, rng):
    n = 10 if tier == "quick" else 150
    for k in range(n):
        for st in ("memory", "hdf"):
            yield "storage-%s#%d" % (st, k), _storage(st, rng.randrange(10**9))
            yield "sampler-%s#%d" % (st, k), _sampler(st, rng.randrange(10**9))
            for p in ("one", "thread", "process"):
                yield "%s-%s#%d" % (p, st, k), _pool(p, st, rng.randrange(10**9))
    for k in range(n // 3):
        for st in ("memory", "hdf"):
            yield "pbs-%s#%d" % (st, k), _pbs(st, rng.randrange(10**9))
