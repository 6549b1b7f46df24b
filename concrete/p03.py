import sys
import threading
import multiprocessing
import multiprocessing.pool
from common import *
import mlmc.sampling_pool as sp
from mlmc.sampling_pool import OneProcessPool, ThreadPool, ProcessPool


class ManualPool:
    """stand-in for a pool of workers: tasks complete when told to"""
    last = None

    def __init__(self, *a, **k):
        self.tasks = []
        ManualPool.last = self

    def apply_async(self, func, args=(), kwds={}, callback=None, error_callback=None):
        self.tasks.append((func, args, kwds, callback, error_callback))

    def complete(self, k=0):
        func, args, kwds, cb, ecb = self.tasks.pop(k)
        try:
            r = func(*args, **kwds)
        except Exception as e:
            ecb(e)
            return
        cb(r)

    def close(self):
        pass

    terminate = join = close


def val(i):
    return np.array([float(hash_(i))]), np.array([float(hash_(i)) + 0.5])


def hash_(i):
    return int(i[-7:]) + 10**7 * int(i[1:3])


def mk_sim(level, current):
    def calc(config, seed):
        i = current[int(seed)]
        if hash_(i) % 4 == 3:
            raise RuntimeError("error of " + i)
        return val(i)
    return LevelSimulation(config_dict={}, calculate=calc, level_id=level, result_format=lambda: FMT1)


class Seeds(dict):
    def __init__(self, ids):
        for i in ids:
            self[int(SamplingPool.compute_seed(i))] = i


class Account:
    def __init__(self, pool):
        self.pool = pool
        self.handed = []
        self.done = []        # order of completion
        self.back = {}
        self.order = {}

    def take(self, r, where=""):
        ok, bad, n, times = r
        for kind, d in (("ok", ok), ("bad", bad)):
            for l, rs in d.items():
                for i, v in rs:
                    check(i in self.handed, "unknown sample returned", i, where)
                    check(i not in self.back, "sample returned twice", i, where)
                    check(int(i[1:3]) == l, "sample", i, "returned under level", l, where)
                    if kind == "ok":
                        check(hash_(i) % 4 != 3, "failed sample returned as successful", i)
                        f, c = v
                        check(same(f, val(i)[0]) and same(c, val(i)[1]), "result of", i, "is", v, where)
                    else:
                        check(hash_(i) % 4 == 3, "successful sample returned as failed", i, v)
                        check("error of " + i in v, "error text of", i, "is", v)
                    self.back[i] = kind
                    self.order.setdefault((l, kind), []).append(i)
        check(n == len(self.handed) - len(self.back), "reported running", n, "handed", len(self.handed), "returned", len(self.back), where)

    def finish(self):
        check(len(self.back) == len(self.handed), "samples lost:", sorted(set(self.handed) - set(self.back)))
        for (l, kind), o in self.order.items():
            exp = [i for i in self.done if int(i[1:3]) == l and (hash_(i) % 4 == 3) == (kind == "bad")]
            check(o == exp, "order of level", l, kind, o, "order of completion", exp)


def _hist_one(seed):
    def run():
        rng = random.Random(seed)
        pool = OneProcessPool()
        ids = [sid(rng.randint(0, 3), k) for k in range(40)]
        cur = Seeds(ids)
        sims = [mk_sim(l, cur) for l in range(4)]
        a = Account(pool)
        k = 0
        for _ in range(30):
            if k < len(ids) and rng.random() < 0.7:
                i = ids[k]
                k += 1
                a.handed.append(i)
                pool.schedule_sample(i, sims[int(i[1:3])])
                a.done.append(i)
            else:
                a.take(pool.get_finished())
        a.take(pool.get_finished())
        a.finish()
    return run


def _manual(cls):
    saved = multiprocessing.pool.ThreadPool, sp.ProcPool if hasattr(sp, "ProcPool") else None, multiprocessing.Pool
    multiprocessing.pool.ThreadPool = ManualPool
    multiprocessing.Pool = ManualPool
    for n in ("ProcPool", "Pool"):
        if hasattr(sp, n):
            setattr(sp, n, ManualPool)
    try:
        p = cls(2)
    finally:
        multiprocessing.pool.ThreadPool = saved[0]
        multiprocessing.Pool = saved[2]
        if saved[1] is not None:
            sp.ProcPool = saved[1]
    return p, ManualPool.last


def _hist_manual(cls, seed):
    def run():
        rng = random.Random(seed)
        pool, mp = _manual(cls)
        ids = [sid(rng.randint(0, 2), k) for k in range(24)]
        cur = Seeds(ids)
        sims = [mk_sim(l, cur) for l in range(3)]
        a = Account(pool)
        k = 0
        for _ in range(60):
            u = rng.random()
            if k < len(ids) and u < 0.4:
                i = ids[k]
                k += 1
                a.handed.append(i)
                pool.schedule_sample(i, sims[int(i[1:3])])
            elif mp.tasks and u < 0.75:
                j = rng.randrange(len(mp.tasks))
                a.done.append(mp.tasks[j][1][0])
                mp.complete(j)
            else:
                a.take(pool.get_finished())
        while mp.tasks:
            a.done.append(mp.tasks[0][1][0])
            mp.complete(0)
        a.take(pool.get_finished())
        a.take(pool.get_finished())
        a.finish()
    return run


def _interleave(cls, pre, inject, point):
    """complete the samples `inject` at the point-th line executed by a poll, for samples `pre` completed before it.
    Returns False when the poll has fewer lines"""
    def run():
        pool, mp = _manual(cls)
        ids = [sid(l, k) for k, l in enumerate(pre + inject)]
        cur = Seeds(ids)
        sims = [mk_sim(l, cur) for l in range(3)]
        a = Account(pool)
        for i in ids:
            a.handed.append(i)
            pool.schedule_sample(i, sims[int(i[1:3])])
        for _ in pre:
            a.done.append(mp.tasks[0][1][0])
            mp.complete(0)
        state = {"n": 0, "hit": False, "th": []}

        def tracer(frame, event, arg):
            if not frame.f_code.co_filename.endswith("sampling_pool.py"):
                return None
            if event == "line":
                state["n"] += 1
                if state["n"] == point:
                    state["hit"] = True

                    def go():
                        while mp.tasks:
                            a.done.append(mp.tasks[0][1][0])
                            mp.complete(0)
                    t = threading.Thread(target=go, daemon=True)
                    t.start()
                    t.join(0.05)     # the thread may have to wait for a lock held by the poll
                    state["th"].append(t)
            return tracer
        old = sys.gettrace()
        sys.settrace(tracer)
        try:
            r = pool.get_finished()
        finally:
            sys.settrace(old)
        for t in state["th"]:
            t.join(20)
            check(not t.is_alive(), "completion blocked for ever")
        if not state["hit"]:
            return False
        a.take(r, "completion at line %d of the poll" % point)
        a.take(pool.get_finished(), "second poll")
        a.finish()
        return True
    return run


def _interleave_all(cls, pre, inject, maxp=40):
    def run():
        for p in range(1, maxp):
            if not _interleave(cls, pre, inject, p)():
                break
        check(p > 3, "poll executes no lines")
    return run


def _stress(cls, seed, n):
    def run():
        rng = random.Random(seed)
        pool = cls(3)
        try:
            ids = [sid(rng.randint(0, 2), k) for k in range(n)]
            cur = Seeds(ids)
            sims = [mk_sim(l, cur) for l in range(3)]
            a = Account(pool)
            for i in ids:
                a.handed.append(i)
                pool.schedule_sample(i, sims[int(i[1:3])])
                if rng.random() < 0.3:
                    r = pool.get_finished()
                    a.take(r)
            t0 = time.time()
            while len(a.back) < len(ids) and time.time() - t0 < 30:
                a.take(pool.get_finished())
            check(len(a.back) == len(ids), "samples lost", sorted(set(ids) - set(a.back))[:5])
        finally:
            stop(pool)
    return run


def cases(tier, rng):
    n = 25 if tier == "quick" else 400
    for cls in (ThreadPool, ProcessPool):
        for pre, inj in (([], [0]), ([0], [0]), ([0, 0, 1], [0]), ([1], [0, 1]), ([0, 1, 0, 2], [0, 1, 2, 0]), ([0, 0, 0, 0], [0, 0, 0, 0])):
            yield "interleave-%s#%s-%s" % (cls.__name__, pre, inj), _interleave_all(cls, list(pre), list(inj))
    for k in range(n):
        yield "one#%d" % k, _hist_one(rng.randrange(10**9))
        yield "manual#%d" % k, _hist_manual(rng.choice([ThreadPool, ProcessPool]), rng.randrange(10**9))
    for k in range(3 if tier == "quick" else 40):
        yield "stress#%d" % k, _stress(ThreadPool, rng.randrange(10**9), 150)
