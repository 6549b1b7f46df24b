from qlib import *
from mlmc.moments import Legendre, Monomial
from mlmc.estimator import Estimate


def agree(em, lm, lv, ns, tag, scale):
    at = 1e-9 * scale
    check(em.l_means.size == lm.size and close(np.reshape(em.l_means, lm.shape), lm, 1e-7, at), tag, "level means", em.l_means, "expected", lm)
    check(close(np.reshape(em.l_vars, lv.shape), lv, 1e-6, at * scale), tag, "level variances", em.l_vars, "expected", lv)
    check(close(np.reshape(em.mean, lm.shape[1:]), lm.sum(axis=0), 1e-7, at * 4), tag, "mean", em.mean, "expected", lm.sum(axis=0))
    v = (lv / np.array(ns)[:, None]).sum(axis=0)
    check(close(np.reshape(em.var, v.shape), v, 1e-6, at * scale), tag, "variance", em.var, "expected", v)


def _one(seed, kind, nan=False):
    def run():
        rng = random.Random(seed)
        fmt = mk_fmt_same(rng, rng.randint(1, 2))
        nl = rng.randint(1, 4)
        counts = [rng.choice([1, 2, 3, 5, 12, 40]) for _ in range(nl)]
        if kind == "big":
            counts = [rng.choice([2500, 4000]), 1300][:rng.randint(1, 2)]
        st, arrs = storage(rng, "hdf" if kind == "big" else kind, fmt, counts, "nan" if nan else "real")
        lm, lv, ns, nr = ref_mean(arrs)
        root = make_root_quantity(st, fmt)
        if min(ns) == 0:
            return
        scale = 10.0
        em = qe.estimate_mean(root)
        agree(em, lm, lv, ns, "root", scale)
        check(em.mean.shape[-1] == root.size() or em.mean.size == root.size(), "size")
        # reading in another order: level means, variance before mean
        em = qe.estimate_mean(root)
        v1 = np.array(em.var)
        m1 = np.array(em.mean)
        check(close(m1.ravel(), lm.sum(axis=0)) and close(v1.ravel(), (lv / np.array(ns)[:, None]).sum(axis=0), 1e-6), "var read first")
        # one component
        q = root[fmt[0].name][fmt[0].times[0]][fmt[0].locations[-1]]
        size = int(np.prod(fmt[0].shape))
        off = (len(fmt[0].locations) - 1) * size
        part = [a[off:off + size] for a in arrs]
        lm2, lv2, ns2, nr2 = ref_mean(part)
        if min(ns2):
            em2 = qe.estimate_mean(q)
            agree(em2, lm2, lv2, ns2, "component", scale)
            check(em2.mean.shape == tuple(fmt[0].shape), "mean of an array quantity has shape", em2.mean.shape)
        # function of the quantity
        q3 = (q + 2.0) * q
        lm3, lv3, ns3, _ = ref_mean([(p + 2.0) * p for p in part])
        if min(ns3):
            agree(qe.estimate_mean(q3), lm3, lv3, ns3, "function", 100.0)
        # estimating once more with more data must see the new data
        if kind == "memory":
            f = [(np.arange(float(arrs[0].shape[0])), np.zeros(arrs[0].shape[0]))]
            st.save_samples({0: [(sid(0, 9999), f[0])]}, {})
            a0 = np.concatenate([arrs[0], f[0][0][:, None, None]], axis=1)
            lm4, lv4, ns4, _ = ref_mean([a0] + arrs[1:])
            agree(qe.estimate_mean(root), lm4, lv4, ns4, "after adding a sample", 1000.0)
    return run


def _split(seed):
    """the same data cut in different ways give the same estimate"""
    def run():
        rng = random.Random(seed)
        fmt = mk_fmt_same(rng, 1)
        counts = [rng.randint(2, 30) for _ in range(rng.randint(1, 3))]
        st, arrs = storage(rng, "chunk", fmt, counts, rng.choice(["real", "nan"]))
        lm, lv, ns, nr = ref_mean(arrs)
        if min(ns) == 0:
            return
        root = make_root_quantity(st, fmt)
        for k in range(4):
            st.cuts = {l: cut(rng, n) if k else [n] for l, n in enumerate(counts)}
            agree(qe.estimate_mean(root), lm, lv, ns, "chunks %s" % st.cuts, 10.0)
    return run


def _moments(seed):
    def run():
        rng = random.Random(seed)
        fmt = FMT1
        counts = [rng.randint(2, 30) for _ in range(rng.randint(1, 3))]
        st, arrs = storage(rng, rng.choice(["chunk", "memory", "hdf"]), fmt, counts)
        root = make_root_quantity(st, fmt)
        q = root["q"][1.0]["a"]
        R = rng.randint(1, 5)
        mf = rng.choice([Legendre, Monomial])(R, (-12.0, 12.0))
        est = Estimate(q[0, 0], sample_storage=st, moments_fn=mf)
        arrs2 = [np.moveaxis(mf.eval_all(a[0]), -1, 0) for a in arrs]
        lm, lv, ns, nr = ref_mean(arrs2)
        mean, var = est.estimate_moments()
        check(close(np.ravel(mean), lm.sum(axis=0), 1e-7, 1e-8), "moments", mean, lm.sum(axis=0))
        check(close(np.ravel(var), (lv / np.array(ns)[:, None]).sum(axis=0), 1e-6, 1e-8), "moment variances", var)
        vars_, n = est.estimate_diff_vars(mf)
        check(close(np.reshape(vars_, lv.shape), lv, 1e-6, 1e-8) and list(n) == list(ns), "level variances of the moments", vars_, lv)
    return run


def _single():
    fmt = FMT1
    st = Memory()
    st.save_global_data(level_parameters=[[1.0], [0.5]], result_format=fmt)
    st.save_samples({0: [(sid(0, 0), (np.array([3.0]), np.array([0.0])))], 1: [(sid(1, 0), (np.array([5.0]), np.array([1.5])))]}, {})
    em = qe.estimate_mean(make_root_quantity(st, fmt))
    check(np.all(np.isinf(em.l_vars)) and np.all(np.isinf(em.var)), "variance from single samples", em.l_vars)
    check(close(np.ravel(em.mean), [6.5]), "mean", em.mean)


def cases(tier, rng):
    n = 1 if tier == "quick" else 20
    yield "single", _single
    for k in range(25 * n):
        yield "estimator-chunks#%d" % k, _one(rng.randrange(10**9), "chunk", k % 3 == 2)
        yield "estimator-memory#%d" % k, _one(rng.randrange(10**9), "memory", k % 3 == 2)
    for k in range(8 * n):
        yield "estimator-hdf#%d" % k, _one(rng.randrange(10**9), "hdf", k % 3 == 2)
    for k in range(2 * n):
        yield "estimator-large#%d" % k, _one(rng.randrange(10**9), "big")
    for k in range(25 * n):
        yield "splitting#%d" % k, _split(rng.randrange(10**9))
    for k in range(10 * n):
        yield "moments#%d" % k, _moments(rng.randrange(10**9))
