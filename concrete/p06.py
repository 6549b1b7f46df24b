import h5py
from common import *
from p05 import batch, expected


def _hist(seed, big=False):
    def run():
        rng = random.Random(seed)
        path = os.path.abspath("s.hdf5")
        st = SampleStorageHDF(path)
        nl = rng.randint(1, 3) if not big else 2
        params = [[1.0 / (l + 1)] for l in range(nl)]
        fmt = mk_fmt_same(rng)
        st.save_global_data(level_parameters=params, result_format=fmt)
        m = rng.choice([1, 2, 3, 7])
        good = [[] for _ in range(nl)]
        cnt = 0
        for step in range(rng.randint(2, 6)):
            ok, fl = {}, {}
            for l in rng.sample(range(nl), nl):
                n = rng.choice([0, 1, 1, 2, 5]) if not big else rng.choice([700, 1500])
                b = batch(rng, l, cnt, n, m)
                rng.shuffle(b)
                cnt += n
                if n or rng.random() < 0.5:
                    ok[l] = b
                good[l] += b
                if rng.random() < 0.3:
                    fl[l] = [(sid(l, cnt), "err")]
                    cnt += 1
            st.save_samples(ok, fl)
            if rng.random() < 0.4:
                st = SampleStorageHDF(path)
                if rng.random() < 0.5:
                    st.save_global_data(level_parameters=params, result_format=fmt)
            for l in range(nl):
                if not good[l]:
                    continue
                e = expected(good[l], l, m)
                cs = list(st.chunks(level_id=l))
                pos = 0
                parts = []
                for k, c in enumerate(cs):
                    check(c.level_id == l, "chunk of level", c.level_id)
                    a, b_, _ = c.chunk_slice.indices(len(good[l]))
                    check(a == pos and b_ > a, "chunks not consecutive:", cs)
                    check(c.chunk_id == k, "chunk identifiers", cs)
                    pos = b_
                    parts.append(st.sample_pairs_level(c))
                    check(parts[-1].shape[1] == b_ - a, "chunk size", parts[-1].shape, c)
                check(pos == len(good[l]), "chunks cover", pos, "of", len(good[l]))
                check(same(np.concatenate(parts, axis=1), e), "level", l, "data read differ from data stored, n =", len(good[l]))
                for n in (1, len(good[l]), max(1, len(good[l]) // 2)):
                    parts = [st.sample_pairs_level(c) for c in st.chunks(level_id=l, n_samples=n)]
                    check(same(np.concatenate(parts, axis=1), e[:, :n, :]), "first", n, "samples of level", l)
                with h5py.File(path, "r") as f:
                    ids = [x[0].decode() for x in f["Levels/%d/collected_ids" % l][()]]
                    vals = f["Levels/%d/collected_values" % l][()]
                check(ids == [i for i, _ in good[l]], "identifiers of level", l, ids[:5], [i for i, _ in good[l]][:5])
                check(len(vals) == len(ids), "numbers of results and identifiers differ")
                for j in (0, len(ids) // 2, len(ids) - 1):
                    check(same(vals[j], np.array(good[l][j][1])), "result", j, "does not belong to identifier", ids[j])
            if all(good):
                sp = st.sample_pairs()
                for l in range(nl):
                    check(same(sp[l], expected(good[l], l, m)), "sample_pairs level", l)
                nc = [int(x) for x in st.get_n_collected()]
                check(nc == [len(g) for g in good], "collected", nc, [len(g) for g in good])
                check(st.get_n_levels() == nl and list(st.get_level_ids()) == list(range(nl)), "levels")
                seen = {}
                for c in st.chunks():
                    seen.setdefault(int(c.level_id), []).append(st.sample_pairs_level(c))
                for l in range(nl):
                    check(same(np.concatenate(seen[l], axis=1), expected(good[l], l, m)), "all chunks, level", l)
        lp = np.array(st.get_level_parameters(), dtype=float)
        check(same(lp, params), "level parameters", lp, params)
        rf = SampleStorageHDF(path).load_result_format()
        check([(q.name, q.unit, list(q.shape), list(q.times), list(q.locations)) for q in rf] ==
              [(q.name, q.unit, list(q.shape), list(q.times), list(q.locations)) for q in fmt], "result format", rf, fmt)
    return run


def cases(tier, rng):
    n = 60 if tier == "quick" else 1200
    for k in range(4 if tier == "quick" else 30):
        yield "large#%d" % k, _hist(rng.randrange(10**9), True)
    for k in range(n):
        yield "history#%d" % k, _hist(rng.randrange(10**9))
