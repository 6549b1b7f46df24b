from common import *
from p05 import batch


def _hist(seed):
    def run():
        rng = random.Random(seed)
        path = os.path.abspath("s.hdf5")
        st = SampleStorageHDF(path)
        nl = rng.choice([1, 2, 3, 11])
        params = [[1.0 / (l + 1)] for l in range(nl)]
        st.save_global_data(level_parameters=params, result_format=FMT1)
        sch = [[] for _ in range(nl)]
        col = [[] for _ in range(nl)]
        fail = [[] for _ in range(nl)]
        trace = []
        for step in range(rng.randint(3, 10)):
            op = rng.choice(["sched", "sched", "save", "save", "save", "clear", "reopen", "renew"])
            l = rng.randrange(nl)
            trace.append((op, l))
            if op == "sched":
                ids = [sid(l, len(sch[l]) + k) for k in range(rng.choice([0, 1, 4]))]
                st.save_scheduled_samples(l, list(ids))
                sch[l] += ids
            elif op == "save":
                ok, fl = {}, {}
                for l in range(nl):
                    un = [i for i in sch[l] if i not in col[l] and i not in fail[l]]
                    rng.shuffle(un)
                    a, b = rng.randint(0, len(un)), rng.randint(0, len(un))
                    a, b = min(a, b), max(a, b)
                    ok[l] = [(i, (np.array([1.0]), np.array([2.0]))) for i in un[:a]]
                    fl[l] = [(i, rng.choice(["", "x" * 1500, "error", "Traceback: 'quoted'\n line"])) for i in un[a:b]]
                    col[l] += un[:a]
                    fail[l] += un[a:b]
                    if not ok[l] and rng.random() < 0.5:
                        del ok[l]
                    if not fl[l] and rng.random() < 0.5:
                        del fl[l]
                st.save_samples(ok, fl)
            elif op == "clear":
                st.clear_failed()
                fail = [[] for _ in range(nl)]
            elif op == "reopen":
                st = SampleStorageHDF(path)
                if rng.random() < 0.5:
                    st.save_global_data(level_parameters=params, result_format=FMT1)
            else:
                pool = RecPool()
                st = SampleStorageHDF(path)
                s = Sampler(st, pool, Sim(), params)
                un = sorted(i for l in range(nl) for i in sch[l] if i not in col[l] and i not in fail[l])
                check(sorted(pool.permanent) == un, "announced as unfinished", pool.permanent, "expected", un)
                s.renew_failed_samples()
                exp = [(i, params[l]) for l in range(nl) for i in fail[l]]
                got = [(i, b.config_dict["fine"]) for i, b in pool.given]
                check(sorted(got) == sorted(exp), "renewed", got, "failed", exp)
                check(all(b._level_id == int(i[1:3]) for i, b in pool.given), "renewed with another level's simulation")
                fail = [[] for _ in range(nl)]
            d = st.load_scheduled_samples()
            check({int(k): list(v) for k, v in d.items()} == {l: sch[l] for l in range(nl)}, "scheduled", d, sch, trace)
            f = {int(k): list(v) for k, v in st.failed_samples().items()}
            check(f == {l: fail[l] for l in range(nl)}, "failed", f, "expected", fail, trace)
            nf = [int(x) for x in st.n_finished()]
            check(nf == [len(c) + len(b) for c, b in zip(col, fail)], "finished", nf, "collected", [len(c) for c in col], "failed", [len(b) for b in fail], trace)
            nc = [int(x) for x in st.get_n_collected()]
            check(nc == [len(c) for c in col], "number of collected", nc, "expected", [len(c) for c in col], trace)
            un = list(st.unfinished_ids())
            exp = [i for l in range(nl) for i in sch[l] if i not in col[l] and i not in fail[l]]
            check(sorted(un) == sorted(exp), "unfinished", sorted(un), "expected", sorted(exp), trace)
    return run


def _unicode():
    path = os.path.abspath("s.hdf5")
    st = SampleStorageHDF(path)
    st.save_global_data(level_parameters=[[1.0]], result_format=FMT1)
    st.save_scheduled_samples(0, [sid(0, 0), sid(0, 1)])
    st.save_samples({}, {0: [(sid(0, 0), "chyba \u010d\u00ed\u0161lo")]})
    check(st.failed_samples() == {"0": [sid(0, 0)]}, st.failed_samples())


def _identifiers(seed):
    """any identifiers: levels and numbers beyond the usual width, identifiers up to 100 characters that differ only at the end"""
    def run():
        rng = random.Random(seed)
        path = os.path.abspath("s.hdf5")
        st = SampleStorageHDF(path)
        nl = rng.choice([1, 3, 102])
        st.save_global_data(level_parameters=[[1.0 / (l + 1)] for l in range(nl)], result_format=FMT1)
        use = sorted({0, nl - 1})
        exp = {}
        for l in use:
            base = rng.choice([0, 9999990, 99999995])
            ids = [sid(l, base + k) for k in range(12)]
            w = rng.choice([15, 40, 96])
            ids += ["x" * w + "%03d" % k for k in range(5)] + ["a b", "S", "S" * 100]
            cut = sorted(rng.sample(range(len(ids) + 1), 2))
            rng.shuffle(ids)
            exp[l] = (ids, ids[:cut[0]], ids[cut[0]:cut[1]], ids[cut[1]:])
            st.save_scheduled_samples(l, list(ids[:7]))
            st.save_scheduled_samples(l, list(ids[7:]))
        st.save_samples({l: [(i, (np.array([1.0]), np.array([2.0]))) for i in e[1]] for l, e in exp.items()}, {l: [(i, "error") for i in e[2]] for l, e in exp.items()})
        if rng.random() < 0.5:
            st = SampleStorageHDF(path)
        d, f = st.load_scheduled_samples(), st.failed_samples()
        for l, e in exp.items():
            check(list(d[l]) == e[0], "scheduled", list(d[l])[:20], "expected", e[0][:20])
            check(list(f[str(l)]) == e[2], "failed", f[str(l)], "expected", e[2])
            check(int(st.n_finished()[l]) == len(e[1]) + len(e[2]), "finished", st.n_finished()[l], "expected", len(e[1]) + len(e[2]))
        un = sorted(st.unfinished_ids())
        check(un == sorted(i for e in exp.values() for i in e[3]), "unfinished", un, "expected", [e[3] for e in exp.values()])
    return run


def cases(tier, rng):
    n = 60 if tier == "quick" else 1500
    yield "unicode#0", _unicode
    for k in range(8 if tier == "quick" else 80):
        yield "identifiers#%d" % k, _identifiers(rng.randrange(10**9))
    for k in range(n):
        yield "history#%d" % k, _hist(rng.randrange(10**9))
