from qlib import *
from mlmc.moments import Legendre


def _mask(seed):
    def run():
        rng = random.Random(seed)
        m, n, k = rng.randint(1, 5), rng.choice([1, 2, 3, 9]), rng.randint(1, 2)
        a = np.array([rng.uniform(-1, 1) for _ in range(m * n * k)]).reshape(m, n, k)
        for _ in range(rng.randint(0, 4)):
            a[rng.randrange(m), rng.randrange(n), rng.randrange(k)] = np.nan
        if rng.random() < 0.3:
            a[rng.randrange(m), rng.randrange(n), rng.randrange(k)] = rng.choice([np.inf, -np.inf])
        keep = [j for j in range(n) if not np.isnan(a[:, j, :]).any()]
        b = a.copy()
        out, cnt = qe.mask_nan_samples(a)
        check(same(a, b), "the chunk was changed")
        check(same(out, a[:, keep, :]), "kept", out, "expected", a[:, keep, :])
        check(int(cnt) == n - len(keep), "number of masked samples", cnt, "expected", n - len(keep))
    return run


def _est(seed):
    def run():
        rng = random.Random(seed)
        fmt = mk_fmt_same(rng, rng.randint(1, 2))
        counts = [rng.choice([1, 2, 3, 8, 20]) for _ in range(rng.randint(1, 4))]
        st, arrs = storage(rng, rng.choice(["chunk", "chunk", "memory", "hdf"]), fmt, counts, "real")
        # NaN in chosen places: fine only, coarse only, one component
        good = [[] for _ in counts]
        st2 = Memory() if not isinstance(st, SampleStorageHDF) else SampleStorageHDF(os.path.abspath("n.hdf5"))
        if isinstance(st, ChunkStorage):
            st2 = ChunkStorage(st.cuts)
        st2.save_global_data(level_parameters=[[1.0 / (l + 1)] for l in range(len(counts))], result_format=fmt)
        for l, a in enumerate(arrs):
            for j in range(a.shape[1]):
                if rng.random() < 0.25:
                    a[rng.randrange(a.shape[0]), j, rng.randrange(a.shape[2])] = np.nan
            st2.save_samples({l: [(sid(l, j), (a[:, j, 0], a[:, j, 1] if l else np.zeros(a.shape[0]))) for j in range(a.shape[1])]}, {})
        lm, lv, ns, nr = ref_mean(arrs)
        root = make_root_quantity(st2, fmt)
        if sum(ns) == 0:
            expect_raises(lambda: qe.estimate_mean(root), "all samples masked")
            return
        em = qe.estimate_mean(root)
        check([int(x) for x in em.n_samples] == ns, "used", em.n_samples, "expected", ns)
        check([int(x) for x in em.n_rm_samples] == nr, "removed", em.n_rm_samples, "expected", nr)
        check([int(a + b) for a, b in zip(em.n_samples, em.n_rm_samples)] == [int(x) for x in st2.get_n_collected()], "used + removed")
        for l in range(len(counts)):
            if ns[l]:
                check(close(np.ravel(em.l_means[l]), lm[l], 1e-7, 1e-8), "level", l, "mean", em.l_means[l], lm[l])
                check(close(np.ravel(em.l_vars[l]), lv[l], 1e-6, 1e-8), "level", l, "variance", em.l_vars[l], lv[l])
        # moments outside of the domain are masked the same way
        q = root[fmt[0].name][fmt[0].times[0]][fmt[0].locations[0]]
        size = int(np.prod(fmt[0].shape))
        R = 3
        mf = Legendre(R, (-2.0, 2.0))
        mom = []
        for a in arrs:
            v = mf.eval_all(a[:size])
            mom.append(np.moveaxis(v, -1, 1).reshape(size * R, a.shape[1], a.shape[2]))
        lm, lv, ns, nr = ref_mean(mom)
        mq_ = qe.moments(q, mf)
        if sum(ns) == 0:
            expect_raises(lambda: qe.estimate_mean(mq_), "all samples masked")
            return
        em = qe.estimate_mean(mq_)
        check([int(x) for x in em.n_samples] == ns and [int(x) for x in em.n_rm_samples] == nr, "moments: used", em.n_samples, "expected", ns)
    return run


def _all(seed):
    def run():
        rng = random.Random(seed)
        fmt = FMT1
        st = rng.choice([Memory, lambda: SampleStorageHDF(os.path.abspath("a.hdf5"))])()
        nl = rng.randint(1, 3)
        st.save_global_data(level_parameters=[[1.0]] * nl, result_format=fmt)
        st.save_samples({l: [(sid(l, j), (np.array([np.nan]), np.array([rng.random()]))) for j in range(3)] for l in range(nl)}, {})
        expect_raises(lambda: qe.estimate_mean(make_root_quantity(st, fmt)), "all samples are NaN")
    return run


def cases(tier, rng):
    n = 1 if tier == "quick" else 20
    for k in range(60 * n):
        yield "mask#%d" % k, _mask(rng.randrange(10**9))
    for k in range(40 * n):
        yield "estimate#%d" % k, _est(rng.randrange(10**9))
    for k in range(4 * n):
        yield "nothing-left#%d" % k, _all(rng.randrange(10**9))
