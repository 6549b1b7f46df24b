from common import *
from pbsenv import FakePBS
import pbsenv
from mlmc.tool.pbs_job import PbsJob

OK, BAD = "ok", "bad"


def ids_of(env, pid):
    return [(x[1], int(x[0])) for x in env.jobs()[pid][1]]


def run_partial(env, pid, k):
    """the job dies after k of its samples"""
    name, out = env.get("sub/%s.name" % pid), env.get("sub/%s.out" % pid)
    argv, cwd = sys.argv, os.getcwd()
    sys.argv = ["pbs_job", out, name]

    class Killed(BaseException):
        pass
    cnt = [0]
    saved = SamplingPool.__dict__["calculate_sample"]
    orig = SamplingPool.calculate_sample

    def calc(*a, **kw):
        if cnt[0] >= k:
            raise Killed()
        cnt[0] += 1
        return orig(*a, **kw)
    SamplingPool.calculate_sample = staticmethod(calc)
    try:
        PbsJob.create_process().calculate_samples()
    except Killed:
        pass
    finally:
        SamplingPool.calculate_sample = saved
        sys.argv = argv
        os.chdir(cwd)


import sys


def _hist(seed, faults=True):
    def run():
        rng = random.Random(seed)
        with FakePBS() as env:
            pool = env.pool(debug=rng.random() < 0.5)
            fail = {sid(l, k) for l in range(3) for k in range(60) if rng.random() < 0.3}
            sims = [env.level_sim(l, task_size=rng.choice([0.1, 0.4, 1.1]), fail=[int(SamplingPool.compute_seed(i)) for i in sorted(fail) if int(i[1:3]) == l])
                    for l in range(3)]
            cnt = [0, 0, 0]
            given, expected, back = set(), {}, {}
            qfail = 0
            state = {}
            for step in range(rng.randint(15, 40)):
                u = rng.random()
                if u < 0.45:
                    l = rng.randrange(3)
                    i = sid(l, cnt[l])
                    cnt[l] += 1
                    given.add(i)
                    pool.schedule_sample(i, sims[l])
                elif u < 0.7:
                    run_one = [p for p in env.jobs() if state.get(p, "R") == "R"]
                    if run_one:
                        p = rng.choice(run_one)
                        lst = sorted(ids_of(env, p), key=lambda t: t[1])
                        state[p] = "F"
                        if faults and rng.random() < 0.4:
                            k = rng.randint(0, len(lst))
                            run_partial(env, p, k)
                            done = {i for i, _ in lst[:k]}
                        else:
                            env.run_job(p, finish=False)
                            done = {i for i, _ in lst}
                        env.put("state/%s" % p, "F")
                        for i, l in lst:
                            expected[i] = "lost" if i not in done else (BAD if i in fail else OK)
                elif u < 0.75 and faults:
                    qfail = rng.randint(1, 3)
                    env.put("qstat_fail", qfail)
                else:
                    had = {p for p in env.jobs()}
                    o, b, n, _ = pool.get_finished()
                    failed_query = qfail > 0 and bool(len(env.jobs()) > 0)
                    if qfail > 0:
                        qfail = int(env.get("qstat_fail"))
                    for kind, d in ((OK, o), (BAD, b)):
                        for l, rs in d.items():
                            for i, v in rs:
                                check(i not in back, "sample", i, "returned twice")
                                check(i in expected, "sample", i, "returned but its job has not finished")
                                check(l == int(i[1:3]), "sample", i, "returned under level", l)
                                e = expected[i]
                                if kind == OK:
                                    check(e == OK, "sample", i, "returned as successful, expected", e)
                                    s = float(int(SamplingPool.compute_seed(i)))
                                    check(same(v[0], [s, 100.0 + l, 1.0]) and same(v[1], [s, 100.0 + l, 2.0]), "result of", i, v)
                                else:
                                    check(e in (BAD, "lost"), "sample", i, "returned as failed, expected", e, v)
                                    if e == BAD:
                                        check("failing sample" in v, "error text of", i, v)
                                back[i] = kind
                    if not failed_query:
                        miss = set(expected) - set(back)
                        check(not miss, "samples of finished jobs not returned by the poll:", sorted(miss))
                    running = given - set(back)
                    check(n == len(running), "reported running", n, "expected", len(running))
            env.put("qstat_fail", 0)
            for p in env.jobs():
                env.put("state/%s" % p, "F")
            pool.get_finished()
            os.chdir(env.dir)
    return run


def _two_finished(subset, total):
    """any subset of jobs may finish between two polls"""
    def run():
        with FakePBS() as env:
            pool = env.pool()
            for j in range(total):
                pool.schedule_sample(sid(0, j), env.level_sim(0))
                pool.get_finished()
            pids = sorted(env.jobs(), key=int)
            back = []
            for k, p in enumerate(pids):
                if subset & (1 << k):
                    env.run_job(p)
            for poll in range(3):
                o, b, n, _ = pool.get_finished()
                back += [i for v in o.values() for i, _ in v]
                check(not b, "failed", b)
                exp = [sid(0, k) for k in range(total) if subset & (1 << k)]
                check(sorted(back) == exp, "finished jobs", exp, "returned", back)
                check(n == total - len(exp), "poll", poll, "reported running", n, "expected", total - len(exp))
            for k, p in enumerate(pids):
                if not subset & (1 << k):
                    env.run_job(p)
            o, b, n, _ = pool.get_finished()
            back += [i for v in o.values() for i, _ in v]
            check(sorted(back) == [sid(0, k) for k in range(total)] and n == 0, "returned", sorted(back), "running", n)
    return run


def _job(seed):
    """a job runs each of its samples once with the level's simulation and records it"""
    def run():
        rng = random.Random(seed)
        with FakePBS() as env:
            pool = env.pool(debug=rng.random() < 0.5)
            ids = [sid(l, k) for l in range(4) for k in range(rng.randint(0, 4))] or [sid(2, 0)]
            rng.shuffle(ids)
            fail = {i for i in ids if rng.random() < 0.3}
            for i in ids:
                l = int(i[1:3])
                pool.schedule_sample(i, env.level_sim(l, fail=[int(SamplingPool.compute_seed(j)) for j in fail if int(j[1:3]) == l]))
            pool.get_finished()
            p, = env.jobs()
            env.run_job(p)
            runs = sorted(open(env.log).read().split("\n")[:-1]) if os.path.exists(env.log) else []
            exp = sorted("%d %s" % (int(SamplingPool.compute_seed(i)), 100.0 + int(i[1:3])) for i in ids if i not in fail)
            check(runs == exp, "runs", runs, "expected", exp)
            jobs_dir = os.path.join(env.work, "output", "jobs")
            o, b, t = PbsJob.read_results(env.get("sub/%s.name" % p), jobs_dir)
            check(sorted(i for v in o.values() for i, _ in v) == sorted(set(ids) - fail), "successful", o)
            check(sorted(i for v in b.values() for i, _ in v) == sorted(fail), "failed", b)
    return run


def _restart(seed):
    """samples of jobs that ended while the main process was down are returned by the first poll after restart"""
    def run():
        rng = random.Random(seed)
        with FakePBS() as env:
            pool = env.pool(debug=True)
            ids = [sid(l, k) for l in range(2) for k in range(rng.randint(1, 5))]
            fail = {i for i in ids if rng.random() < 0.4}
            for l in range(2):
                env.level_sim(l, task_size=rng.choice([0.0, 0.4]), fail=[int(SamplingPool.compute_seed(j)) for j in fail if int(j[1:3]) == l])
            for i in ids:
                pool.schedule_sample(i, env.level_sim(int(i[1:3])))
            pool.get_finished()
            lost = set()
            for p in env.jobs():
                lst = sorted(ids_of(env, p), key=lambda t: t[1])
                if rng.random() < 0.4:
                    k = rng.randint(0, len(lst))
                    run_partial(env, p, k)
                    lost |= {i for i, _ in lst[k:]}
                else:
                    env.run_job(p)
                env.put("state/%s" % p, "F")
            os.chdir(env.dir)
            pool = env.pool(debug=True)
            wanted = [i for i in ids if rng.random() < 0.8]
            pool.have_permanent_samples(wanted)
            ok, bad = env.collect(pool)
            check(set(ok) == set(wanted) - fail - lost, "returned", sorted(ok), "expected", sorted(set(wanted) - fail - lost))
            check(set(bad) == set(wanted) & (fail | lost), "failed", sorted(bad), "expected", sorted(set(wanted) & (fail | lost)))
            for i in ok:
                s = float(int(SamplingPool.compute_seed(i)))
                check(ok[i][0] == int(i[1:3]) and same(ok[i][1][0], [s, 100.0 + ok[i][0], 1.0]), "result of", i, ok[i])
            for i in bad:
                check(bad[i][0] == int(i[1:3]), "level of", i, bad[i][0])
            ok, bad = env.collect(pool)
            check(not ok and not bad, "returned again", ok, bad)
    return run


def _qstat_limit():
    """a failing status query loses nothing"""
    def run():
        with FakePBS() as env:
            pool = env.pool()
            for k in range(3):
                pool.schedule_sample(sid(0, k), env.level_sim(0))
                pool.get_finished()
            for p in env.jobs():
                env.run_job(p)
            env.put("qstat_fail", 9)
            for _ in range(9):
                o, b, n, _t = pool.get_finished()
                check(not o and not b and n == 3, "poll with failing query", o, b, n)
            ok, bad = env.collect(pool)
            check(set(ok) == {sid(0, k) for k in range(3)}, "returned", ok, bad)
    return run


def cases(tier, rng):
    for s in range(8):
        yield "subset#%d" % s, _two_finished(s, 3)
    for s in ([0b1111, 0b0110] if tier == "quick" else range(16)):
        yield "subset4#%d" % s, _two_finished(s, 4)
    yield "query-fails#0", _qstat_limit()
    n = 8 if tier == "quick" else 120
    for k in range(n):
        yield "job#%d" % k, _job(rng.randrange(10**9))
        yield "history#%d" % k, _hist(rng.randrange(10**9))
        yield "restart#%d" % k, _restart(rng.randrange(10**9))
