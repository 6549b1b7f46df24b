"""P20: run times are accumulated once per sample by the pool, handed to the storage as differences, accumulated there and reported as an average.
Ghost argument: (total of the storage) + (times of the pool not yet reported) = total measured; every function preserves it."""
from pydv.api import *
from proofs.stubs import *
from proofs.states import *

FUNCTIONS = ["mlmc/sampling_pool.py:OneProcessPool._save_running_time", "mlmc/sampling_pool.py:OneProcessPool._new_times",
             "mlmc/sample_storage.py:Memory.save_n_ops", "mlmc/sample_storage.py:Memory.get_n_ops",
             "mlmc/sample_storage_hdf.py:SampleStorageHDF.save_n_ops", "mlmc/sample_storage_hdf.py:SampleStorageHDF.get_n_ops"]
TRUSTED = ["python dictionaries as finite maps", "numpy model"]
ASSUMPTIONS = ["floating point numbers are treated as mathematical reals"]


def pool_state(sp):
    c = C()
    p = object.__new__(sp.OneProcessPool)
    has_t, T, N = c.fresh_fun("timed", [I], B), c.fresh_fun("T", [I], R), c.fresh_fun("N", [I], I)
    has_r, RT, RN = c.fresh_fun("reported", [I], B), c.fresh_fun("RT", [I], R), c.fresh_fun("RN", [I], I)
    p.times = fdict(has_t, lambda x: PList([SN(T(x)), SN(N(x))]))
    p._reported_times = fdict(has_r, lambda x: (SN(RT(x)), SN(RN(x))))
    tot = lambda x: (z3.If(has_t(x), T(x), 0), z3.If(has_t(x), N(x), 0))
    rep = lambda x: (z3.If(has_r(x), RT(x), 0), z3.If(has_r(x), RN(x), 0))
    return p, has_t, tot, has_r, rep


def now(d, x):
    """(time, number) recorded in the dictionary d for level x"""
    v = d.get(SN(x), None)
    if v is None:
        return SN(z3.RealVal(0)), SN(z3.IntVal(0))
    return v[0], v[1]


def measured():
    """a measured sample is added to the totals of its own level, once"""
    w = make_world({"time": clock()})
    sp = w.load("mlmc.sampling_pool")
    p, has_t, tot, has_r, rep = pool_state(sp)
    lev, t = sk("level", 0), freal("running_time")
    p._save_running_time(lev, t)
    cover("saved")
    x = C().fresh_const("x", I)
    hit = z3.And(x == lev.e, t.e != 0)

    def after():
        a, b = now(p.times, x)
        prove("time is added to the level's total", real(a.e) == z3.If(hit, tot(x)[0] + t.e, tot(x)[0]))
        prove("number of measured samples is increased by one", _z(b) == z3.If(hit, tot(x)[1] + 1, tot(x)[1]))
        c, d = now(p._reported_times, x)
        prove("reported totals unchanged", z3.And(real(c.e) == rep(x)[0], _z(d) == rep(x)[1]))
    cases(after)
    prove("measured level is known", has(p.times, lev.e))


def reported():
    """a poll reports what was not reported before, every level once"""
    w = make_world({"time": clock()})
    sp = w.load("mlmc.sampling_pool")
    p, has_t, tot, has_r, rep = pool_state(sp)
    new = p._new_times()
    cover("polled")
    s = as_seq(new)
    x = C().fresh_const("x", I)
    i, j = sk("i", 0, s.nt), sk("j", 0, s.nt)

    def entry():
        lev, tn = s.get(i.e)
        t, n = tn[0], tn[1]
        y = _z(lev)
        prove("only timed levels are reported", has_t(y))
        prove("reported time is the time since the last report", real(_z(t)) == tot(y)[0] - rep(y)[0])
        prove("reported number is the number since the last report", _z(n) == tot(y)[1] - rep(y)[1])
        lev2, _ = s.get(j.e)
        prove("every level is reported once", z3.Implies(i.e != j.e, _z(lev2) != y))
    cases(entry)
    q = z3.Int("$q")
    if C().branch(s.nt > 0):
        prove("every timed level is reported", z3.Implies(has_t(x), z3.Exists([q], z3.And(q >= 0, q < s.nt, _z(s.get(q)[0]) == x))))
    else:
        prove("every timed level is reported", z3.Not(has_t(x)))

    def after():
        a, b = now(p._reported_times, x)
        prove("reported totals are the measured totals", z3.Implies(has_t(x), z3.And(real(_z(a)) == tot(x)[0], _z(b) == tot(x)[1])))
        a, b = now(p.times, x)
        prove("measured totals unchanged", z3.And(real(_z(a)) == tot(x)[0], _z(b) == tot(x)[1]))
    cases(after)


def n_ops_list():
    """what a pool hands over: one entry per level"""
    c = C()
    hasn, t, n = c.fresh_fun("new", [I], B), c.fresh_fun("dT", [I], R), c.fresh_fun("dN", [I], I)
    keys = values.FMap(I, hasn, lambda x: (SN(t(x)), SN(n(x)))).keys_seq()
    q = z3.Int("$q")
    c.assume(z3.ForAll([q], z3.Implies(hasn(q), z3.And(q >= 0, n(q) >= 0, z3.Implies(n(q) == 0, t(q) == 0))), patterns=[hasn(q)]))

    def get(i):
        k = keys.get(i)
        return (k, PList([SN(t(k.e)), SN(n(k.e))]))
    return PList(_seq=Seq(keys.nt, get)), hasn, t, n


def memory():
    """Memory.save_n_ops adds, Memory.get_n_ops reports the average"""
    w = make_world({"time": clock()})
    ss = w.load("mlmc.sample_storage")
    c = C()
    m = ss.Memory()
    hs, T, N = c.fresh_fun("has", [I], B), c.fresh_fun("T", [I], R), c.fresh_fun("N", [I], I)
    m._n_ops = fdict(hs, lambda x: PList([SN(T(x)), SN(N(x))]))
    tot = lambda x: (z3.If(hs(x), T(x), 0), z3.If(hs(x), N(x), 0))
    ops, hasn, t, n = n_ops_list()
    m.save_n_ops(ops)
    cover("saved")
    x = C().fresh_const("x", I)

    def after():
        a, b = now(m._n_ops, x)
        prove("time is added", real(_z(a)) == tot(x)[0] + z3.If(hasn(x), t(x), 0))
        prove("number is added", _z(b) == tot(x)[1] + z3.If(hasn(x), n(x), 0))
    c.assume(z3.Implies(hasn(x), z3.And(x >= 0, n(x) >= 0, z3.Implies(n(x) == 0, t(x) == 0))))
    cases(after)


def memory_average():
    """Memory.get_n_ops reports the average"""
    w = make_world({"time": clock()})
    ss = w.load("mlmc.sample_storage")
    c = C()
    m = ss.Memory()
    hs, T, N = c.fresh_fun("has", [I], B), c.fresh_fun("T", [I], R), c.fresh_fun("N", [I], I)
    q = z3.Int("$q")
    c.assume(z3.ForAll([q], z3.Implies(hs(q), z3.And(q >= 0, N(q) >= 0)), patterns=[hs(q)]))
    m._n_ops = fdict(hs, lambda x: PList([SN(T(x)), SN(N(x))]))
    L = fint("L", 0)
    m._level_parameters = flist(L, lambda j: freal("par"))
    r = m.get_n_ops()
    cover("averages")
    x = sk("x", 0)
    c.assume(z3.Implies(hs(x.e), N(x.e) >= 0))
    prove("covers every level", z3.Implies(z3.Or(hs(x.e), x.e < L.e), x.e < _z(p_len(r))))

    def after():
        if c.branch(x.e < _z(p_len(r))):
            v = r[x]
            if c.branch(z3.And(hs(x.e), N(x.e) > 0)):
                prove("cost is total time over number of samples", real(_z(v)) * z3.ToReal(N(x.e)) == T(x.e))
            else:
                prove("level without measured samples reports zero", real(_z(v)) == 0)
    cases(after)


class Group(Base):
    """contract of LevelGroup.n_ops_estimate: a stored pair or None (the accessors are checked against h5py's contract below)"""
    __pv_adopt__ = True

    def __init__(self, level_id, present, pair):
        self.level_id = level_id
        self.present = present
        self.pair = pair

    @property
    def n_ops_estimate(self):
        if not self.present:
            return None
        return self.pair.copy()

    @n_ops_estimate.setter
    def n_ops_estimate(self, v):
        self.present = True
        self.pair = np.array(v)


def hdf_state(w):
    hs = w.load("mlmc.sample_storage_hdf")
    c = C()
    st = object.__new__(hs.SampleStorageHDF)
    L = fint("L", 1)
    P, T, N = c.fresh_fun("has", [I], B), c.fresh_fun("T", [I], R), c.fresh_fun("N", [I], I)

    def group(j):
        j = _z(j)
        return Group(values.str_of(SN(j)), SB(P(j)), SArr([2], lambda idx: merge(_z(idx[0]) == 0, SN(T(j)), SN(z3.ToReal(N(j)))), "float"))
    st._level_groups = flist(L, group)
    return st, L, P, T, N


def hdf():
    """SampleStorageHDF.save_n_ops adds to the stored totals of the right level"""
    w = make_world({"time": clock()})
    st, L, P, T, N = hdf_state(w)
    ops, hasn, t, n = n_ops_list()
    q = z3.Int("$q")
    C().assume(z3.ForAll([q], z3.Implies(hasn(q), q < L.e), patterns=[hasn(q)]))
    st.save_n_ops(ops)
    cover("saved")
    x = sk("x", 0, L)
    C().assume(z3.Implies(hasn(x.e), z3.And(x.e >= 0, n(x.e) >= 0, z3.Implies(n(x.e) == 0, t(x.e) == 0))))

    def after():
        g = st._level_groups[x]
        v = g.n_ops_estimate
        tot = (z3.If(P(x.e), T(x.e), 0) + z3.If(hasn(x.e), t(x.e), 0), z3.If(P(x.e), N(x.e), 0) + z3.If(hasn(x.e), n(x.e), 0))
        if v is None:
            prove("unmeasured level stays unmeasured", z3.And(z3.Not(hasn(x.e)), z3.Not(P(x.e))))
        else:
            prove("time is added to the stored total", real(_z(v[0])) == tot[0])
            prove("number is added to the stored number", real(_z(v[1])) == z3.ToReal(tot[1]))
    cases(after)


def hdf_average():
    """SampleStorageHDF.get_n_ops reports the average of every level"""
    w = make_world({"time": clock()})
    st, L, P, T, N = hdf_state(w)
    r = st.get_n_ops()
    cover("averages")
    x = sk("x", 0, L)
    prove("one cost per level", _z(p_len(r)) == L.e)

    def after():
        v = r[x]
        if C().branch(z3.And(P(x.e), N(x.e) > 0)):
            prove("cost is total time over number of samples", real(_z(v)) * z3.ToReal(N(x.e)) == T(x.e))
        else:
            prove("level without measured samples reports zero", real(_z(v)) == 0)
    cases(after)


HARNESSES = [measured, reported, memory, memory_average, hdf, hdf_average]
