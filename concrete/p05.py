from common import *


def batch(rng, level, start, n, m, special=True):
    out = []
    for k in range(n):
        pick = lambda: rng.choice([0.0, -1.0, float("nan"), 1e300, rng.uniform(-5, 5), float(rng.randint(-9, 9))]) if special else rng.uniform(-5, 5)
        f = np.array([pick() for _ in range(m)])
        c = np.array([pick() for _ in range(m)])
        out.append((sid(level, start + k), (f, c)))
    return out


def expected(pairs, level, m):
    """components x samples x (fine, coarse)"""
    a = np.empty((m, len(pairs), 1 if level == 0 else 2))
    for j, (_, (f, c)) in enumerate(pairs):
        a[:, j, 0] = f
        if level > 0:
            a[:, j, 1] = c
    return a


def _hist(seed):
    def run():
        rng = random.Random(seed)
        st = Memory()
        nl = rng.randint(1, 4)
        st.save_global_data(level_parameters=[[1.0 / (l + 1)] for l in range(nl)], result_format=FMT1)
        m = [rng.choice([1, 1, 2, 3, 7]) for _ in range(nl)]
        if rng.random() < 0.7:
            m = [m[0]] * nl
        good = [[] for _ in range(nl)]
        bad = [[] for _ in range(nl)]
        cnt = 0
        keep = []
        for step in range(rng.randint(1, 7)):
            ok, fl = {}, {}
            for l in rng.sample(range(nl), nl):
                if rng.random() < 0.7:
                    b = batch(rng, l, cnt, rng.choice([1, 1, 2, 3, 6]), m[l])
                    rng.shuffle(b)
                    cnt += len(b)
                    ok[l] = b
                    good[l] += [(i, (f.copy(), c.copy())) for i, (f, c) in b]
                if rng.random() < 0.4:
                    b = [(sid(l, cnt + k), "error %d" % k) for k in range(rng.randint(1, 3))]
                    cnt += len(b)
                    fl[l] = b
                    bad[l] += b
            st.save_samples(ok, fl)
            keep.append(ok)
            for l in range(nl):
                if not good[l]:
                    continue
                e = expected(good[l], l, m[l])
                got = st.sample_pairs_level(ChunkSpec(level_id=l))
                check(same(got, e), "level", l, "read", got, "stored", e)
                for n in (1, len(good[l]), len(good[l]) + 3, max(1, len(good[l]) // 2)):
                    cs = list(st.chunks(level_id=l, n_samples=n))
                    parts = [st.sample_pairs_level(c) for c in cs]
                    check(all(c.level_id == l for c in cs), "chunk level", cs)
                    check(same(np.concatenate(parts, axis=1), e[:, :n, :]), "first", n, "samples of level", l, "read", parts, "stored", e[:, :n, :])
                parts = [st.sample_pairs_level(c) for c in st.chunks(level_id=l)]
                check(same(np.concatenate(parts, axis=1), e), "chunks of level", l, "read", parts, "stored", e)
            if all(good):
                sp = st.sample_pairs()
                check(len(sp) == nl, "sample_pairs has", len(sp), "levels")
                for l in range(nl):
                    check(same(sp[l], expected(good[l], l, m[l])), "sample_pairs level", l)
                check(st.get_n_levels() == nl and sorted(st.get_level_ids()) == list(range(nl)), "levels", st.get_level_ids())
                seen = {}
                for c in st.chunks():
                    seen.setdefault(int(c.level_id), []).append(st.sample_pairs_level(c))
                check(sorted(seen) == list(range(nl)), "chunks of all levels", sorted(seen))
                for l in range(nl):
                    check(same(np.concatenate(seen[l], axis=1), expected(good[l], l, m[l])), "all chunks, level", l)
            nc = [int(x) for x in st.get_n_collected()]
            check(nc == [len(g) for g in good], "collected", nc, "saved", [len(g) for g in good])
            fin = [len(g) + len(b) for g, b in zip(good, bad)]
            got = [float(x) for x in st.n_finished()]
            check(got == [float(x) for x in fin], "finished", got, "saved", fin)
        # later changes of the arrays handed in do not change what is stored
    return run


def cases(tier, rng):
    n = 150 if tier == "quick" else 4000
    for k in range(n):
        yield "history#%d" % k, _hist(rng.randrange(10**9))
