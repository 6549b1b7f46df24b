"""Storages and quantities for the run-time contracts of the quantity algebra and the estimators"""
from common import *
import mlmc.quantity.quantity as mq
import mlmc.quantity.quantity_types as qt
import mlmc.quantity.quantity_estimate as qe
from mlmc.quantity.quantity import Quantity, make_root_quantity
from p05 import expected


class ChunkStorage(Memory):
    """in-memory storage that hands the data out in chunks of given sizes"""
    def __init__(self, cuts):
        super().__init__()
        self.cuts = cuts     # level -> list of chunk sizes

    def _level_chunks(self, level_id, n_samples=None):
        if n_samples is not None:
            yield ChunkSpec(chunk_id=0, chunk_slice=slice(0, n_samples, 1), level_id=level_id)
            return
        pos = 0
        for k, c in enumerate(self.cuts[level_id]):
            yield ChunkSpec(chunk_id=k, chunk_slice=slice(pos, pos + c, 1), level_id=level_id)
            pos += c


def cut(rng, n):
    out = []
    while n > 0:
        k = rng.choice([1, 1, 2, 3, 7, n])
        k = min(k, n)
        out.append(k)
        n -= k
    return out


def data(rng, m, n, mode="real"):
    """list of n (fine, coarse)"""
    def v():
        if mode == "nan" and rng.random() < 0.15:
            return float("nan")
        if mode == "int":
            return float(rng.randint(-3, 3))
        if mode == "pos":
            return rng.uniform(0.1, 5)
        return rng.choice([rng.uniform(-5, 5), rng.gauss(0, 2), float(rng.randint(-4, 4))])
    return [(np.array([v() for _ in range(m)]), np.array([v() for _ in range(m)])) for _ in range(n)]


def storage(rng, kind, fmt, counts, mode="real"):
    """-> (storage, [level arrays m x n x (1|2)])"""
    m = fmt_size(fmt)
    if kind == "chunk":
        st = ChunkStorage({l: cut(rng, n) for l, n in enumerate(counts)})
    elif kind == "hdf":
        st = SampleStorageHDF(os.path.abspath("q%d.hdf5" % rng.randrange(10**9)))
    else:
        st = Memory()
    st.save_global_data(level_parameters=[[1.0 / (l + 1)] for l in range(len(counts))], result_format=fmt)
    arrs = []
    for l, n in enumerate(counts):
        d = data(rng, m, n, mode)
        if l == 0:
            d = [(f, np.zeros(m)) for f, c in d]
        pairs = [(sid(l, k), fc) for k, fc in enumerate(d)]
        pos = 0
        while pos < n:
            k = min(n - pos, rng.choice([1, 3, 10, n]))
            st.save_samples({l: pairs[pos:pos + k]}, {})
            pos += k
        arrs.append(expected(pairs, l, m))
    return st, arrs


def eval_q(q, st, l):
    """all samples of the quantity on one level"""
    return np.concatenate([q.samples(c) for c in st.chunks(level_id=l)], axis=-2)


def ref_mean(arrs):
    """reference estimator on a list of m x n x (1|2) arrays, NaN samples dropped whole"""
    lm, lv, ns, nr = [], [], [], []
    for l, a in enumerate(arrs):
        keep = [j for j in range(a.shape[1]) if not np.any(np.isnan(a[:, j, :]))]
        ns.append(len(keep))
        nr.append(a.shape[1] - len(keep))
        d = a[:, keep, 0] - (a[:, keep, 1] if l > 0 else 0)
        if len(keep) == 0:
            lm.append(np.full(a.shape[0], np.nan))
            lv.append(np.full(a.shape[0], np.inf))
            continue
        mu = d.mean(axis=1)
        lm.append(mu)
        lv.append(((d - mu[:, None]) ** 2).sum(axis=1) / (len(keep) - 1) if len(keep) > 1 else np.full(a.shape[0], np.inf))
    return np.array(lm), np.array(lv), ns, nr
