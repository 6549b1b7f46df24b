from qlib import *


def flat_ref(fmt):
    """index of every component of the stored vector: name -> time -> location -> array of positions"""
    out, pos = {}, 0
    for s in fmt:
        d = {}
        for t in s.times:
            dd = {}
            for loc in s.locations:
                n = int(np.prod(s.shape))
                dd[loc] = np.arange(pos, pos + n).reshape(s.shape)
                pos += n
            d[t] = dd
        out[s.name] = d
    return out, pos


def all_pos(x):
    if isinstance(x, dict):
        return np.concatenate([all_pos(v) for v in x.values()])
    return np.ravel(x)


def keys(rng, shape):
    def one(n):
        return rng.choice([rng.randrange(n), slice(None), slice(0, rng.randint(1, n)), slice(rng.randrange(n), n), slice(None, None, 2), -1])
    k = [tuple(one(n) for n in shape) for _ in range(4)]
    k.append(rng.randrange(shape[0]))
    k.append(slice(0, rng.randint(1, shape[0])))
    return k


def agree(q, st, arrs, pos, tag):
    pos = np.ravel(pos)
    check(q.size() == len(pos), tag, "size", q.size(), "expected", len(pos))
    for l, a in enumerate(arrs):
        got = eval_q(q, st, l)
        check(same(got, a[pos]), tag, "level", l, "gives", got, "expected", a[pos])


def agree_mean(em, mean, var, pos, tag, shape=None):
    check(close(np.ravel(em.mean), mean[np.ravel(pos)]), tag, "mean", em.mean, "expected", mean[np.ravel(pos)])
    check(close(np.ravel(em.var), var[np.ravel(pos)], 1e-6, 1e-9), tag, "variance of the mean", em.var, "expected", var[np.ravel(pos)])
    if shape is not None:
        check(tuple(em.mean.shape) == tuple(shape), tag, "shape of the mean", em.mean.shape, shape)


def make(rng, kind=None, same_=False):
    fmt = mk_fmt_same(rng) if same_ else mk_fmt(rng)
    kind = kind or rng.choice(["chunk", "memory"] + (["hdf"] if same_ else []))
    counts = [rng.choice([2, 3, 6]) for _ in range(rng.randint(1, 3))]
    st, arrs = storage(rng, kind, fmt, counts)
    return fmt, st, arrs


def _access(seed):
    def run():
        rng = random.Random(seed)
        fmt, st, arrs = make(rng, same_=rng.random() < 0.5)
        ref, total = flat_ref(fmt)
        root = make_root_quantity(st, fmt)
        agree(root, st, arrs, np.arange(total), "root")
        em = qe.estimate_mean(root)
        lm, lv, ns, _ = ref_mean(arrs)
        mean, var = lm.sum(axis=0), (lv / np.array(ns)[:, None]).sum(axis=0)
        agree_mean(em, mean, var, np.arange(total), "mean of root")
        for s in fmt:
            q = root[s.name]
            agree(q, st, arrs, all_pos(ref[s.name]), s.name)
            e1 = em[s.name]
            agree_mean(e1, mean, var, all_pos(ref[s.name]), "mean[%s]" % s.name)
            t = rng.choice(s.times)
            agree(q[t], st, arrs, all_pos(ref[s.name][t]), "%s[%s]" % (s.name, t))
            agree_mean(e1[t], mean, var, all_pos(ref[s.name][t]), "mean[%s][%s]" % (s.name, t))
            loc = rng.choice(s.locations)
            p = ref[s.name][t][loc]
            a = q[t][loc]
            agree(a, st, arrs, p, "%s[%s][%s]" % (s.name, t, loc))
            ea = e1[t][loc]
            agree_mean(ea, mean, var, p, "mean[%s][%s][%s]" % (s.name, t, loc), s.shape)
            for k in keys(rng, s.shape):
                if np.size(p[k]) == 0:
                    continue
                agree(a[k], st, arrs, p[k], "array %s [%s]" % (s.shape, k))
                if True:
                    agree_mean(ea[k], mean, var, p[k], "mean array %s [%s]" % (s.shape, k))
                    agree_mean(qe.estimate_mean(a[k]), mean, var, p[k], "mean of array %s [%s]" % (s.shape, k))
                # access to the access
                sub = p[k]
                if np.ndim(sub) == 2 and sub.shape != (1, 1):
                    agree(a[k][0, 0], st, arrs, sub[0, 0], "array %s [%s][0,0]" % (s.shape, k))
                if np.ndim(sub) == 1 and len(sub) > 1:
                    agree(a[k][len(sub) - 1], st, arrs, sub[-1], "array %s [%s][-1]" % (s.shape, k))
        for f in (lambda: root["no such quantity"], lambda: root[fmt[0].name][1234.5], lambda: root[fmt[0].name][fmt[0].times[0]]["nowhere"]):
            expect_raises(f, "access to an item that does not exist")
    return run


def _compose(seed):
    def run():
        rng = random.Random(seed)
        fmt, st, arrs = make(rng)
        ref, total = flat_ref(fmt)
        root = make_root_quantity(st, fmt)
        s = rng.choice(fmt)
        parts, pos = [], []
        n = rng.randint(2, 4)
        level = rng.choice(["scalar", "array", "location", "time"])
        for _ in range(n):
            t, loc = rng.choice(s.times), rng.choice(s.locations)
            p = ref[s.name][t][loc]
            q = root[s.name][t][loc]
            if level == "scalar":
                k = tuple(rng.randrange(d) for d in s.shape)
                q, p = q[k], p[k]
            elif level == "location":
                q, p = root[s.name][t], all_pos(ref[s.name][t])
            elif level == "time":
                q, p = root[s.name], all_pos(ref[s.name])
            parts.append(q)
            pos.append(np.ravel(p))
        allp = np.concatenate(pos)
        d = Quantity.QDict([("k%d" % i, q) for i, q in enumerate(parts)])
        agree(d, st, arrs, allp, "dictionary")
        ts = None
        if True:
            times = sorted(rng.sample(range(100), n))
            ts = Quantity.QTimeSeries([(float(t), q) for t, q in zip(times, parts)]) if _same(parts) else None
            fl = Quantity.QField([("loc%d" % i, q) for i, q in enumerate(parts)]) if _same(parts) else None
        for i in range(n):
            agree(d["k%d" % i], st, arrs, pos[i], "dictionary item")
            if ts is not None:
                agree(ts[float(times[i])], st, arrs, pos[i], "time series item")
            if fl is not None:
                agree(fl["loc%d" % i], st, arrs, pos[i], "field item")
        if level == "scalar":
            a = Quantity.QArray(parts)
            agree(a, st, arrs, allp, "array")
            for i in range(n):
                agree(a[i], st, arrs, pos[i], "array item")
            a2 = Quantity.QArray([parts, parts[::-1]])
            for i in range(n):
                agree(a2[0, i], st, arrs, pos[i], "2-d array item")
                agree(a2[1, i], st, arrs, pos[n - 1 - i], "2-d array item")
            agree(a2[:, 0], st, arrs, [pos[0], pos[n - 1]], "2-d array column")
            # estimated mean of a composed array
            lm, lv, ns, _ = ref_mean(arrs)
            em = qe.estimate_mean(a2)
            check(close(em.mean, lm.sum(axis=0)[np.array([pos, pos[::-1]])[..., 0]]), "mean of a composed array", em.mean)
            check(close(np.ravel(em[1, 0].mean), lm.sum(axis=0)[pos[n - 1]]), "item of the mean of a composed array")
        # arithmetic keeps the structure
        d2 = d * 2.0
        for i in range(n):
            for l, a_ in enumerate(arrs):
                check(close(eval_q(d2["k%d" % i], st, l), 2 * a_[pos[i]]), "item of 2*dictionary")
    return run


def _same(parts):
    return all(p.qtype is parts[0].qtype or p.qtype == parts[0].qtype for p in parts)


def _nested(seed):
    """array of arrays, array of fields"""
    def run():
        rng = random.Random(seed)
        fmt, st, arrs = make(rng)
        ref, total = flat_ref(fmt)
        root = make_root_quantity(st, fmt)
        s = rng.choice(fmt)
        t = rng.choice(s.times)
        loc = [rng.choice(s.locations) for _ in range(3)]
        q = root[s.name][t]
        parts = [q[x] for x in loc]
        pos = [np.ravel(ref[s.name][t][x]) for x in loc]
        a = Quantity.QArray(parts)
        agree(a, st, arrs, np.concatenate(pos), "array of arrays")
        for i in range(3):
            agree(a[i], st, arrs, pos[i], "item of an array of arrays")
        agree(a[0:2], st, arrs, np.concatenate(pos[:2]), "slice of an array of arrays")
        lm, lv, ns, _ = ref_mean(arrs)
        em = qe.estimate_mean(a)
        for i in range(3):
            check(close(np.ravel(em[i].mean), lm.sum(axis=0)[pos[i]]), "item of the mean of an array of arrays", em[i].mean)
    return run


def _interp(seed):
    def run():
        rng = random.Random(seed)
        fmt, st, arrs = make(rng)
        nt = rng.randint(2, 4)
        nl = rng.randint(1, 3)
        times = sorted(rng.uniform(0, 10) for _ in range(nt))
        fmt = [QuantitySpec(name="x", unit="", shape=(1, 1), times=[1.0], locations=["l"]),
               QuantitySpec(name="q", unit="", shape=rng.choice([(1, 1), (2, 1), (2, 3)]), times=times, locations=["l%d" % j for j in range(nl)])]
        st, arrs = storage(rng, rng.choice(["chunk", "memory"]), fmt, [rng.randint(1, 5) for _ in range(rng.randint(1, 2))])
        ref, total = flat_ref(fmt)
        root = make_root_quantity(st, fmt)
        q = root["q"]
        for v in [times[0], times[-1], rng.choice(times)] + [rng.uniform(times[0], times[-1]) for _ in range(3)]:
            i = max(0, min(nt - 2, max([k for k in range(nt) if times[k] <= v], default=0)))
            w = (v - times[i]) / (times[i + 1] - times[i])
            r = q.time_interpolation(v)
            check(r.size() == len(all_pos(ref["q"][times[0]])), "size of the interpolated quantity")
            for l, a in enumerate(arrs):
                e = (1 - w) * a[all_pos(ref["q"][times[i]])] + w * a[all_pos(ref["q"][times[i + 1]])]
                got = eval_q(r, st, l)
                check(close(got, e, 1e-9, 1e-9), "interpolation at", v, "of", times, "gives", got, "expected", e)
                p = ref["q"][times[i]]["l0"]
                e0 = (1 - w) * a[np.ravel(ref["q"][times[i]]["l0"])] + w * a[np.ravel(ref["q"][times[i + 1]]["l0"])]
                check(close(eval_q(r["l0"], st, l), e0, 1e-9, 1e-9), "location of the interpolated quantity")
    return run


def cases(tier, rng):
    n = 1 if tier == "quick" else 20
    for k in range(30 * n):
        yield "access#%d" % k, _access(rng.randrange(10**9))
    for k in range(30 * n):
        yield "composition#%d" % k, _compose(rng.randrange(10**9))
    for k in range(6 * n):
        yield "array-of-arrays#%d" % k, _nested(rng.randrange(10**9))
    for k in range(15 * n):
        yield "interpolation#%d" % k, _interp(rng.randrange(10**9))
