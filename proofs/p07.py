"""P07: scheduled, collected, failed and unfinished samples of every level. Operations are proved one by one for arbitrary previous content of the
file (reads report exactly the content; writes append exactly; clearing empties the failures; nothing else changes)."""
from pydv.api import *
from proofs.stubs import *
from proofs.states import *
from proofs.hdflib import *

FUNCTIONS = ["mlmc/tool/hdf5.py:LevelGroup.append_scheduled", "mlmc/tool/hdf5.py:LevelGroup.append_failed", "mlmc/tool/hdf5.py:LevelGroup._append_dataset", "mlmc/tool/hdf5.py:LevelGroup.append_successful",
             "mlmc/tool/hdf5.py:HDF5.create_file_structure", "mlmc/tool/hdf5.py:HDF5.load_from_file", "mlmc/tool/hdf5.py:HDF5.add_level_group", "mlmc/tool/hdf5.py:LevelGroup.__init__",
             "mlmc/tool/hdf5.py:LevelGroup.scheduled", "mlmc/tool/hdf5.py:LevelGroup.get_finished_ids", "mlmc/tool/hdf5.py:LevelGroup.get_unfinished_ids",
             "mlmc/tool/hdf5.py:LevelGroup.get_failed_ids", "mlmc/tool/hdf5.py:LevelGroup.clear_failed_dataset",
             "mlmc/sample_storage_hdf.py:SampleStorageHDF.load_scheduled_samples", "mlmc/sample_storage_hdf.py:SampleStorageHDF.n_finished",
             "mlmc/sample_storage_hdf.py:SampleStorageHDF.unfinished_ids", "mlmc/sample_storage_hdf.py:SampleStorageHDF.failed_samples",
             "mlmc/sample_storage_hdf.py:SampleStorageHDF.clear_failed", "mlmc/sample_storage_hdf.py:SampleStorageHDF._save_failed",
             "mlmc/sample_storage_hdf.py:SampleStorageHDF.save_scheduled_samples", "mlmc/sampler.py:Sampler.renew_failed_samples"]
TRUSTED = ["h5py contract (proofs/h5model.py)", "python sets as mathematical sets"]
ASSUMPTIONS = ["identifiers are at most 100 bytes long and do not end with a zero byte"]


def schedule():
    w, h5, lib, hd, lg, (a, b) = populated(True)
    n = fint("n", 0)
    new = ids_fun("new_id")
    lg.append_scheduled(flist(n, lambda i: new(i)))
    cover("scheduled")
    n0 = a.n["scheduled"]
    g = a.same(lib, "s.h5", ("collected_ids", "failed", "collected_values"))
    rows_are("scheduled identifiers are the old ones followed by the new ones", g.kids["scheduled"].rows, n0 + n.e,
             lambda i: Row([SBytes(merge(i < n0, a.ids["scheduled"](i), new(i - n0)))], ("sample_id",)))
    b.same(lib, "s.h5")


def fail():
    w, h5, lib, hd, lg, (a, b) = populated(True)
    n = fint("n", 1)
    new, m0 = ids_fun("new_id"), ids_fun("new_message")
    msg = lambda i: SStr(m0(i).e, ("wild",))
    lg.append_failed(flist(n, lambda i: (new(i), msg(i))))
    cover("failed")
    n0 = a.n["failed"]
    g = a.same(lib, "s.h5", ("scheduled", "collected_ids", "collected_values"))
    r = g.kids["failed"].rows
    prove("number of failed samples", _z(p_len(r)) == n0 + n.e)
    i = sk("i", 0, SN(n0 + n.e))

    def each():
        v = r.seq().get(i.e)
        prove("failed identifiers are the old ones followed by the new ones", veq(v[0], SBytes(merge(i.e < n0, a.ids["failed"](i), new(SN(i.e - n0))))))
    cases(each)
    b.same(lib, "s.h5")


def listed(name, lst, n, at):
    s = as_seq(lst)
    prove(name + ": number", s.nt == n)
    C().assume(s.nt == n)

    def each():
        if C().branch(n > 0):
            i = sk("i", 0, SN(n))
            prove(name, veq(s.get(i.e), at(i.e)))
    cases(each)


def reads():
    w, h5, lib, hd, lg, (a, b) = populated(True)
    sch = lg.scheduled()
    listed("scheduled", PList([x[0].decode() for x in []]) if sch is None else PList(_seq=as_seq(sch).map(lambda r: r[0].decode())), a.n["scheduled"], a.ids["scheduled"])
    listed("failed", lg.get_failed_ids(), a.n["failed"], a.ids["failed"])
    cover("read")
    fin = lg.get_finished_ids()
    nc, nf = a.n["collected_ids"], a.n["failed"]
    prove("number of finished samples", _z(p_len(fin)) == nc + nf)

    def each():
        if C().branch(nc + nf > 0):
            i = sk("i", 0, SN(nc + nf))
            prove("finished samples are the collected and the failed ones", veq(as_seq(fin).get(i.e), merge(i.e < nc, a.ids["collected_ids"](i), a.ids["failed"](SN(i.e - nc)))))
    cases(each)
    a.same(lib, "s.h5")
    b.same(lib, "s.h5")


def unfinished():
    w, h5, lib, hd, lg, (a, b) = populated(True)
    u = lg.get_unfinished_ids()
    cover("read")
    s = as_seq(u)
    q = z3.Int("$q")
    mem = lambda k, x: z3.Exists([q], z3.And(q >= 0, q < a.n[k], str_term(a.ids[k](q)) == x))
    x = C().fresh_const("id", values.Str)
    ss = s.contains(SStr(x))
    ss = bool_term(ss)
    want = z3.And(mem("scheduled", x), z3.Not(mem("collected_ids", x)), z3.Not(mem("failed", x)))
    prove("every reported sample is scheduled and neither collected nor failed", z3.Implies(ss, want))
    prove("every such sample is reported", z3.Implies(want, ss))

    def each():
        if C().branch(s.nt > 1):
            i, j = sk("i", 0, SN(s.nt)), sk("j", 0, SN(s.nt))
            prove("reported once", z3.Implies(veq(s.get(i.e), s.get(j.e)), i.e == j.e))
    cases(each)
    a.same(lib, "s.h5")
    b.same(lib, "s.h5")


def clear():
    w, h5, lib, hd, lg, (a, b) = populated(True)
    lg.clear_failed_dataset()
    cover("cleared")
    g = a.same(lib, "s.h5", ("scheduled", "collected_ids", "collected_values"))
    rows_are("no failures left", g.kids["failed"].rows, z3.IntVal(0), None)
    prove("failed samples of the level", _z(p_len(lg.get_failed_ids())) == 0)
    b.same(lib, "s.h5")
    lg.append_failed(PList([(fstr("id"), fstr("msg"))]))
    prove("failures can be saved again", _z(p_len(lg.get_failed_ids())) == 1)


# ---------------------------------------------------------------- the storage over its level groups
class Group(Base):
    """contract of LevelGroup as proved above"""
    __pv_adopt__ = True

    def __init__(self, level_id, j, fn):
        self.level_id, self.j = level_id, j
        self.nf = SN(fn["failed"](_z(j)))
        self.cleared = SN(z3.IntVal(0))
        self.calls = SN(z3.IntVal(0))
        self.ids = PList(_seq=Seq(z3.IntVal(0), lambda i: SStr(values.lit("")), "fn"))
        self.texts = PList(_seq=Seq(z3.IntVal(0), lambda i: SStr(values.lit("")), "fn"))

    def _ids(self, k, n=None):
        f, g = FN[k], IDS[k]
        return flist(SN(f(_z(self.j))) if n is None else n, lambda i: SStr(g(_z(self.j), _z(i))))

    def append_scheduled(self, samples):
        self.calls = self.calls + 1
        self.ids = PList(_seq=as_seq(samples))

    def append_failed(self, samples):
        self.calls = self.calls + 1
        s = as_seq(samples)
        self.ids = PList(_seq=s.map(lambda x: x[0]))
        self.texts = PList(_seq=s.map(lambda x: x[1]))

    def scheduled(self):
        return PList(_seq=self._ids("scheduled").seq().map(lambda x: Row([SBytes(x)], ("sample_id",))))

    def get_finished_ids(self):
        return self._ids("finished")

    def get_unfinished_ids(self):
        return self._ids("unfinished")

    def get_failed_ids(self):
        return self._ids("failed", self.nf)

    def clear_failed_dataset(self):
        self.cleared = self.cleared + 1
        self.nf = SN(z3.IntVal(0))


FN, IDS = {}, {}


def storage(w):
    hs = w.load("mlmc.sample_storage_hdf")
    c = C()
    L = fint("L", 1)
    q = z3.Int("$q")
    for k in ("scheduled", "finished", "unfinished", "failed"):
        FN[k] = c.fresh_fun("n_" + k, [I], I)
        IDS[k] = c.fresh_fun("id_" + k, [I, I], Str)
        c.assume(z3.ForAll([q], FN[k](q) >= 0))
    st = object.__new__(hs.SampleStorageHDF)
    st._level_groups = flist(L, lambda j: Group(values.str_of(SN(_z(j))), SN(_z(j)), FN))
    return st, L


def level_ids(k, l):
    return flist(SN(FN[k](_z(l))), lambda i: SStr(IDS[k](_z(l), _z(i))))


def reports():
    w, h5, lib = world()
    st, L = storage(w)
    l = sk("l", 0, L)
    C().assume(z3.And(*[FN[k](l.e) >= 0 for k in FN]))
    d = st.load_scheduled_samples()
    prove("scheduled: one entry per level", z3.BoolVal(True) if d is None else _z(p_len(d)) == L.e)
    prove("scheduled: the level has an entry", has(d, l.e))
    cases(lambda: listed("scheduled of a level", d[l], FN["scheduled"](l.e), lambda i: SStr(IDS["scheduled"](l.e, _z(i)))))
    n = st.n_finished()
    prove("finished: one entry per level", _z(n.shape[0]) == L.e)
    prove("finished: number of the level's finished samples", veq(n[l], SN(FN["finished"](l.e))))
    u = st.unfinished_ids()
    prove_eq("unfinished: all levels' unfinished samples, one level after the other", as_seq(u), Seq.flat(L.e, lambda j: level_ids("unfinished", j).seq()))
    f = st.failed_samples()
    prove("failed: one entry per level", _z(p_len(f)) == L.e)
    cases(lambda: listed("failed of a level", f[values.str_of(l)], FN["failed"](l.e), lambda i: SStr(IDS["failed"](l.e, _z(i)))))
    cover("reported")


def clear_all():
    w, h5, lib = world()
    st, L = storage(w)
    st.clear_failed()
    cover("cleared")
    l = sk("l", 0, L)
    prove("failures of every level are cleared", _z(st._level_groups[l].nf) == 0)
    prove("nothing else is done", z3.And(_z(st._level_groups[l].cleared) == 1, _z(st._level_groups[l].calls) == 0))


def save_scheduled():
    w, h5, lib = world()
    st, L = storage(w)
    l, x, n = sk("l", 0, L), sk("x", 0, L), fint("n", 0)
    new = ids_fun("new")
    st.save_scheduled_samples(l, flist(n, lambda i: new(i)))
    cover("saved")

    def after():
        g = st._level_groups[x]
        if x == l:
            prove("saved once on its level", _z(g.calls) == 1)
            listed("identifiers handed to the level", g.ids, n.e, new)
        else:
            prove("other levels are left alone", _z(g.calls) == 0)
    cases(after)


def save_failed():
    w, h5, lib = world()
    st, L = storage(w)
    c = C()
    hasl, cnt = c.fresh_fun("failed_level", [I], B), c.fresh_fun("failed_n", [I], I)
    idf, tx = c.fresh_fun("id", [I, I], Str), c.fresh_fun("text", [I, I], Str)
    q = z3.Int("$q")
    c.assume(z3.ForAll([q], z3.Implies(hasl(q), z3.And(q >= 0, q < L.e, cnt(q) >= 0)), patterns=[hasl(q)]))
    st._save_failed(fdict(hasl, lambda l: flist(SN(cnt(l)), lambda i: (SStr(idf(l, _z(i))), SStr(tx(l, _z(i)))))))
    cover("saved")
    x = sk("x", 0, L)
    c.assume(z3.Implies(hasl(x.e), cnt(x.e) >= 0))

    def after():
        g = st._level_groups[x]
        if c.branch(z3.And(hasl(x.e), cnt(x.e) > 0)):
            prove("saved once on its level", _z(g.calls) == 1)
            prove("number", z3.And(_z(p_len(g.ids)) == cnt(x.e), _z(p_len(g.texts)) == cnt(x.e)))
            i = sk("i", 0, SN(cnt(x.e)))
            prove("identifier", veq(g.ids.seq().get(i.e), SStr(idf(x.e, i.e))))
            prove("message", veq(g.texts.seq().get(i.e), SStr(tx(x.e, i.e))))
        else:
            prove("other levels are left alone", _z(g.calls) == 0)
    cases(after)


# ---------------------------------------------------------------- renewal
class Failures(Base):
    """contract of the storage as proved above"""
    def __init__(self, L):
        self.L = L
        self.cleared = SN(z3.IntVal(0))
        self.before = None

    def failed_samples(self):
        d = PDict()
        d.base = SymMap(_z(self.L), lambda j: values.str_of(SN(_z(j))), lambda j: level_ids("failed", j))
        d.log = []
        return d

    def clear_failed(self):
        self.cleared = self.cleared + 1
        self.before = PList(_seq=self.pool.log.seq())


def renew():
    w = make_world({"time": clock()})
    sm = w.load("mlmc.sampler")
    L = fint("L", 1)
    q = z3.Int("$q")
    for k in ("failed",):
        FN[k] = C().fresh_fun("n_" + k, [I], I)
        IDS[k] = C().fresh_fun("id_" + k, [I, I], Str)
        C().assume(z3.ForAll([q], FN[k](q) >= 0))
    s = object.__new__(sm.Sampler)
    sims = C().fresh_fun("sim", [I], Obj)
    s._level_sim_objects = flist(L, lambda j: SymObj(sims(_z(j))))
    pool = Pool()
    st = Failures(L)
    st.pool = pool
    s._sampling_pool, s.sample_storage = pool, st
    s.renew_failed_samples()
    cover("renewed")
    prove("failures are cleared once", _z(st.cleared) == 1)
    want = Seq.flat(L.e, lambda j: level_ids("failed", j).seq().map(lambda x: (x, SymObj(sims(_z(j))))))
    prove_eq("exactly the failed samples go to the pool, each with its level's simulation", pool.log.seq(), want)
    prove_eq("before the failures are cleared", st.before.seq(), want)


from proofs.p06 import append, create, reopen
HARNESSES = [schedule, fail, reads, unfinished, clear, reports, clear_all, save_scheduled, save_failed, renew,
             append(False), append(True), create(1), create(2), reopen(1), reopen(2), reopen(3)]
