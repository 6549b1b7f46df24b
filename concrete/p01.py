from common import *


def _history(seed, kind, n_levels, steps, big=False):
    def run():
        rng = random.Random(seed)
        params = [[1.0 / 2 ** l] for l in range(n_levels)]
        if kind == "memory":
            st = Memory()
            reopen = lambda: st
        else:
            path = os.path.abspath("s.hdf5")
            st = SampleStorageHDF(path)
            reopen = lambda: SampleStorageHDF(path)
        pool, sim = RecPool(), Sim()
        s = Sampler(st, pool, sim, params)
        issued = [[] for _ in range(n_levels)]
        target = [0] * n_levels
        trace = []
        for _ in range(steps):
            op = rng.choice(["sched", "sched", "target", "target", "init", "restart"])
            trace.append(op)
            if op == "target":
                t = [rng.choice([0, 1, 2, 3, 5, 8, 13]) * (80 if big else 1) for _ in range(n_levels)]
                form = rng.choice([list, np.array, lambda x: np.array(x, dtype=float)])
                s.set_level_target_n_samples(form(t))
                target = [max(a, b) for a, b in zip(target, t)]
                trace.append(t)
            elif op == "init":
                t = [rng.randint(0, 12) for _ in range(n_levels)]
                if n_levels < 3:
                    continue
                s.set_initial_n_samples(list(t))
                target = t
                trace.append(t)
            elif op == "restart":
                st = reopen()
                pool2 = RecPool()
                pool2.given = pool.given
                pool = pool2
                sim = Sim()
                s = Sampler(st, pool, sim, params)
                target = [0] * n_levels
                check(set(pool.permanent or []) <= {i for l in issued for i in l}, "restart announces unknown samples", pool.permanent)
            else:
                before = len(pool.given)
                s.schedule_samples()
                new = [(a, b.config_dict["fine"]) for a, b in pool.given[before:]]
                exp = []
                for l in range(n_levels):
                    for i in range(len(issued[l]), max(target[l], len(issued[l]))):
                        exp.append((sid(l, i), params[l]))
                check(sorted(new) == sorted(exp), "history", trace, "dispatched", new[:20], "expected", exp[:20])
                for l in range(n_levels):
                    mine = [i for i, p in new if p == params[l]]
                    check(mine == [i for i, p in exp if p == params[l]], "order on level", l, mine, trace)
                    issued[l] += mine
                lv = [b._level_id for a, b in pool.given[before:]]
                check(lv == [int(a[1:3]) for a, b in pool.given[before:]], "level of simulation differs from identifier", lv)
                rec = st.load_scheduled_samples()
                for l in range(n_levels):
                    got = list(rec.get(l, []))
                    check(got == issued[l], "storage records", got[:10], len(got), "pool was given", issued[l][:10], len(issued[l]), trace)
        flat = [i for l in issued for i in l]
        check(len(set(flat)) == len(flat), "identifier issued twice")
        sc = [int(x) for x in s.l_scheduled_samples()]
        check(sc == [len(l) for l in issued], "reported scheduled counts", sc, [len(l) for l in issued])
    return run


def cases(tier, rng):
    n = 60 if tier == "quick" else 1500
    for i in range(n):
        kind = "hdf" if i % 3 == 2 else "memory"
        nl = rng.choice([1, 2, 3, 3, 4, 5, 11, 12])
        yield "history-%s#%d" % (kind, i), _history(rng.randrange(10**9), kind, nl, rng.randint(4, 12), big=(i % 10 == 1))
