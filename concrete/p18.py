from common import *
from pbsenv import FakePBS
from mlmc.tool.pbs_job import PbsJob
from mlmc.sampling_pool_pbs import SamplingPoolPBS


def submitted(env):
    """sample id -> [(job name, level, seed)] over the successfully submitted jobs"""
    out, names = {}, []
    for pid, (name, lst) in env.jobs().items():
        names.append(name)
        for l, i, s in lst:
            out.setdefault(i, []).append((name, int(l), int(s)))
    check(len(names) == len(set(names)), "job identifiers not distinct:", names)
    return out, names


def _verify(env, given, waiting, max_waiting_weight=None):
    sub, names = submitted(env)
    for i, l in given.items():
        got = sub.get(i, [])
        if i in waiting:
            check(not got, "waiting sample", i, "already submitted in", got)
            continue
        check(len(got) == 1, "sample", i, "is in", len(got), "submitted jobs", got)
        check(got[0][1] == l and got[0][2] == int(SamplingPool.compute_seed(i)), "sample", i, "level, seed", got[0][1:], "expected", l, SamplingPool.compute_seed(i))
    extra = set(sub) - set(given)
    check(not extra, "unknown samples submitted", extra)
    jobs_dir = os.path.join(env.work, "output", "jobs")
    lists = {}
    for i, got in sub.items():
        j = PbsJob.job_id_from_sample_id(i, jobs_dir)
        check(j == got[0][0], "the stored map assigns", i, "to job", j, "but it is in", got[0][0])
        if j not in lists:
            lists[j] = {tuple(x)[1] for x in PbsJob.get_scheduled_sample_ids(j, jobs_dir)}
        check(i in lists[j], "scheduled list of job", j, "lacks", i)
    return names


def _hist(seed, restarts):
    def run():
        rng = random.Random(seed)
        with FakePBS() as env:
            sizes = [rng.choice([0.0, 0.1, 0.3, 0.6, 1.0, 1.5]) for _ in range(3)]
            debug = restarts or rng.random() < 0.5
            pool = env.pool(debug=debug)
            given, waiting, weight, fails, cnt = {}, [], 0.0, 0, [0, 0, 0]
            njobs = 0

            def attempt():
                """what one submission attempt does"""
                nonlocal weight, njobs, fails
                if int(env_fail[0]) > 0:
                    env_fail[0] -= 1
                    fails += 1
                    return
                fails = 0
                waiting.clear()
                weight = 0.0
                njobs += 1
            env_fail = [0]
            for step in range(rng.randint(20, 45)):
                u = rng.random()
                if u < 0.12:
                    env_fail[0] = rng.randint(0, 4)
                    env.put("qsub_fail", env_fail[0])
                elif u < 0.75:
                    l = rng.randrange(3)
                    i = sid(l, cnt[l])
                    cnt[l] += 1
                    given[i] = l
                    waiting.append(i)
                    weight += sizes[l]
                    pool.schedule_sample(i, env.level_sim(l, task_size=sizes[l]))
                    if weight > 1 or len(waiting) > 1000:
                        attempt()
                elif u < 0.9 or not restarts:
                    pool.get_finished()
                    if waiting:
                        attempt()
                else:
                    if waiting:
                        continue          # samples not yet submitted are lost with the process
                    pool = env.pool(debug=True)
                names = _verify(env, given, waiting)
                check(len(names) == njobs, "number of submitted jobs", len(names), "expected", njobs, "waiting", len(waiting), "weight", weight)
            for _ in range(6):
                pool.get_finished()
            _verify(env, given, [])
    return run


def _fail_limit(k):
    """more than the allowed number of consecutive failures raises, not fewer, and nothing is lost"""
    def run():
        with FakePBS() as env:
            pool = env.pool()
            limit = SamplingPoolPBS.QSUB_FAILED_MAX_N
            if k == 1:       # failures that are not consecutive do not count
                pool.schedule_sample(sid(0, 0), env.level_sim(0))
                env.put("qsub_fail", limit)
                for _ in range(limit):
                    pool.get_finished()
                pool.get_finished()
                pool.schedule_sample(sid(0, 1), env.level_sim(0))
                env.put("qsub_fail", limit)
                for _ in range(limit):
                    pool.get_finished()
                _verify(env, {sid(0, 0): 0, sid(0, 1): 0}, [sid(0, 1)])
                pool.get_finished()
                _verify(env, {sid(0, 0): 0, sid(0, 1): 0}, [])
            else:
                pool.schedule_sample(sid(0, 0), env.level_sim(0))
                env.put("qsub_fail", 100)
                for _ in range(limit):
                    pool.get_finished()
                expect_raises(pool.get_finished, "submission failed %d times" % (limit + 1))
                env.put("qsub_fail", 0)
                pool.get_finished()
                _verify(env, {sid(0, 0): 0}, [])
    return run


def _count_limit():
    """more than one thousand samples make a job"""
    def run():
        with FakePBS() as env:
            pool = env.pool()
            given = {}
            for k in range(1000):
                given[sid(0, k)] = 0
                pool.schedule_sample(sid(0, k), env.level_sim(0))
            check(len(env.jobs()) == 0, "job submitted with 1000 samples")
            given[sid(0, 1000)] = 0
            pool.schedule_sample(sid(0, 1000), env.level_sim(0))
            check(len(env.jobs()) == 1, "no job submitted with 1001 samples")
            _verify(env, given, [])
            pool.schedule_sample(sid(0, 1001), env.level_sim(0))
            check(len(env.jobs()) == 1, "job submitted with one sample")
    return run


def _weight(sizes, expect):
    def run():
        with FakePBS() as env:
            pool = env.pool()
            for k, s in enumerate(sizes):
                pool.schedule_sample(sid(k, 0), env.level_sim(k, task_size=s))
                check(len(env.jobs()) == expect[k], "after weights", sizes[:k + 1], "jobs", len(env.jobs()), "expected", expect[k])
    return run


def _restart_order(first, n_before, seed):
    """job numbers continue after the highest one whatever the order of files in the directory"""
    def run():
        import glob as g
        rng = random.Random(seed)
        with FakePBS() as env:
            pool = env.pool(debug=True)
            pool._job_count = first
            given = {}
            for k in range(n_before):
                given[sid(0, k)] = 0
                pool.schedule_sample(sid(0, k), env.level_sim(0))
                pool.get_finished()
            os.chdir(env.dir)
            saved = g.glob

            def shuffled(*a, **kw):
                r = sorted(saved(*a, **kw))
                random.Random(rng.random()).shuffle(r)
                return r
            g.glob = shuffled
            try:
                for r in range(3):
                    pool = env.pool(debug=True)
                    k = n_before + r
                    given[sid(0, k)] = 0
                    pool.schedule_sample(sid(0, k), env.level_sim(0))
                    pool.get_finished()
                    os.chdir(env.dir)
            finally:
                g.glob = saved
            _verify(env, given, [])
    return run


def cases(tier, rng):
    n = 10 if tier == "quick" else 150
    for k in range(n):
        yield "history#%d" % k, _hist(rng.randrange(10**9), False)
        yield "restart#%d" % k, _hist(rng.randrange(10**9), True)
    for k in range(2):
        yield "fail-limit#%d" % k, _fail_limit(k)
    yield "count-limit#0", _count_limit()
    yield "weight#0", _weight([1.0, 0.5], [0, 1])
    yield "weight#1", _weight([0.5, 0.5, 0.25, 1.5, 0.5], [0, 0, 1, 2, 2])
    yield "weight#2", _weight([0.0, 0.0, 2.0, 0.0], [0, 0, 1, 1])
    for k, first in enumerate((0, 8, 9997)):
        yield "restart-order#%d" % k, _restart_order(first, 5, rng.randrange(10**9))
