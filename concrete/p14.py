import math
import time
from common import *


class SlowPool(SamplingPool):
    """finishes a given number of samples per poll"""
    def __init__(self, rng, fail=0.0, rate=3):
        super().__init__()
        self.rng, self.fail, self.rate = rng, fail, rate
        self.todo, self.given, self.done, self.polls = [], [], {}, 0

    def schedule_sample(self, sample_id, level_sim):
        self.todo.append((sample_id, level_sim._level_id))
        self.given.append((sample_id, level_sim._level_id))

    def have_permanent_samples(self, ids):
        return False

    def get_finished(self):
        self.polls += 1
        ok, bad = {}, {}
        self.rng.shuffle(self.todo)
        for _ in range(self.rng.randint(0, self.rate)):
            if not self.todo:
                break
            i, l = self.todo.pop()
            self.done[l] = self.done.get(l, 0) + 1
            if self.rng.random() < self.fail:
                bad.setdefault(l, []).append((i, "err"))
            else:
                ok.setdefault(l, []).append((i, (np.array([1.0]), np.array([0.5]))))
        return ok, bad, len(self.todo), []


def rule(est, sched, c):
    if est < sched:
        return sched
    if est * c > est - sched:
        return math.ceil(est - 1e-12)
    return math.ceil(sched + (est - sched) * c - 1e-9)


def _steps(seed, kind):
    def run():
        rng = random.Random(seed)
        L = rng.randint(1, 4)
        params = [[1.0 / (l + 1)] for l in range(L)]
        st = Memory() if kind == "memory" else SampleStorageHDF(os.path.abspath("s.hdf5"))
        pool = SlowPool(random.Random(seed + 1), rng.choice([0, 0, 0.3]), rng.choice([1, 4, 20]))
        s = Sampler(st, pool, Sim(), params)
        sched = [0] * L
        if rng.random() < 0.8:
            init = [rng.randint(1, 12) for _ in range(L)]
            s.set_level_target_n_samples(init)
            s.schedule_samples()
            s.ask_sampling_pool_for_samples()
            sched = init
        for step in range(rng.randint(1, 6)):
            if rng.random() < 0.15 and kind == "hdf":
                s.ask_sampling_pool_for_samples()
                st = SampleStorageHDF(os.path.abspath("s.hdf5"))
                p2 = SlowPool(pool.rng, pool.fail, pool.rate)
                p2.done, p2.given = pool.done, pool.given
                pool = p2
                s = Sampler(st, pool, Sim(), params)
            est = np.array([rng.choice([sched[l], max(0, sched[l] - rng.randint(0, 5)), sched[l] + rng.randint(1, 4), sched[l] + rng.randint(5, 60)])
                            for l in range(L)])
            if rng.random() < 0.3:
                est = est + np.array([rng.choice([0.0, 0.25, 0.5]) for _ in range(L)])
            c = rng.choice([0.1, 0.1, 0.25, 0.5, 1.0])
            kw = {} if c == 0.1 else {"add_coeff": c}
            e0 = est.copy()
            r = s.process_adding_samples(est, **kw)
            check(np.array_equal(est, e0), "the estimates were changed", est, e0)
            new = [rule(float(est[l]), sched[l], c) for l in range(L)]
            got = [int(x) for x in s.l_scheduled_samples()]
            check(got == new, "scheduled", got, "expected", new, "from", sched, "estimated", est, "fraction", c)
            cnt = [sum(1 for _, l in pool.given if l == k) for k in range(L)]
            check(cnt == new, "handed to the pool", cnt, "expected", new)
            for l in range(L):
                check(got[l] <= max(math.ceil(est[l]), sched[l]), "overshoot on level", l)
            below = [l for l in range(L) if est[l] > new[l]]
            check(bool(r) == (not below), "completion reported", r, "levels below the estimate", below, "est", est, "scheduled", new)
            fin = [int(x) for x in st.n_finished()]
            for l in below:
                check(fin[l] >= 0.5 * new[l], "returned before half of the samples finished on level", l, fin, new)
            sched = new
    return run


def _converge(seed):
    def run():
        rng = random.Random(seed)
        L = rng.randint(1, 3)
        s = Sampler(Memory(), SlowPool(random.Random(seed), 0, 50), Sim(), [[1.0 / (l + 1)] for l in range(L)])
        s.set_level_target_n_samples([rng.randint(1, 10) for _ in range(L)])
        s.schedule_samples()
        est = np.array([rng.randint(1, 200) for _ in range(L)])
        start = [int(x) for x in s.l_scheduled_samples()]
        for k in range(200):
            if s.process_adding_samples(est):
                break
        else:
            raise Viol("no completion after 200 steps, scheduled %s estimated %s" % (s.l_scheduled_samples(), est))
        got = [int(x) for x in s.l_scheduled_samples()]
        check(got == [max(a, int(b)) for a, b in zip(start, est)], "after completion", got, "estimated", est, "start", start)
    return run


def _wait(seed):
    def run():
        rng = random.Random(seed)
        L = rng.randint(1, 3)
        st = Memory()
        pool = SlowPool(random.Random(seed), 0.2, 2)
        s = Sampler(st, pool, Sim(), [[1.0 / (l + 1)] for l in range(L)])
        n = np.array([float(rng.randint(1, 15)) for _ in range(L)])
        coef = rng.choice([0.2, 0.5, 0.9, 1.0])
        items = np.array(sorted(rng.sample(range(L), rng.randint(1, L))))
        s.set_scheduled_and_wait(n.copy(), items, 0, fin_sample_coef=coef)
        fin = [int(x) for x in st.n_finished()] + [0] * L
        check([int(x) for x in s.l_scheduled_samples()] == [int(x) for x in n], "scheduled", s.l_scheduled_samples(), n)
        for l in items:
            check(fin[l] >= coef * n[l], "returned before the fraction", coef, "finished on level", l, fin, n)
    return run


def cases(tier, rng):
    n = 1 if tier == "quick" else 25
    for k in range(40 * n):
        yield "steps-memory#%d" % k, _steps(rng.randrange(10**9), "memory")
    for k in range(12 * n):
        yield "steps-hdf#%d" % k, _steps(rng.randrange(10**9), "hdf")
    for k in range(15 * n):
        yield "convergence#%d" % k, _converge(rng.randrange(10**9))
    for k in range(20 * n):
        yield "waiting#%d" % k, _wait(rng.randrange(10**9))
