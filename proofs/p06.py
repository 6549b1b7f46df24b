"""P06: what the HDF5 storage returns is what was stored. Every operation of LevelGroup is proved to append to / read from the level's data sets
exactly, for arbitrary previous content, and to leave other data sets and levels alone; so any sequence of operations does."""
from pydv.api import *
from proofs.stubs import *
from proofs.states import *
from proofs.hdflib import *

FUNCTIONS = ["mlmc/tool/hdf5.py:LevelGroup.append_successful", "mlmc/tool/hdf5.py:LevelGroup._append_dataset", "mlmc/tool/hdf5.py:LevelGroup._make_dataset",
             "mlmc/tool/hdf5.py:LevelGroup.collected", "mlmc/tool/hdf5.py:LevelGroup.collected_n_items", "mlmc/tool/hdf5.py:LevelGroup.chunks",
             "mlmc/tool/hdf5.py:LevelGroup.__init__", "mlmc/tool/hdf5.py:LevelGroup._make_groups_datasets", "mlmc/tool/hdf5.py:HDF5.__init__",
             "mlmc/tool/hdf5.py:HDF5.create_file_structure", "mlmc/tool/hdf5.py:HDF5.load_from_file", "mlmc/tool/hdf5.py:HDF5.clear_groups",
             "mlmc/tool/hdf5.py:HDF5.init_header", "mlmc/tool/hdf5.py:HDF5.add_level_group",
             "mlmc/sample_storage_hdf.py:SampleStorageHDF.__init__", "mlmc/sample_storage_hdf.py:SampleStorageHDF.save_global_data",
             "mlmc/sample_storage_hdf.py:SampleStorageHDF._save_succesful", "mlmc/sample_storage_hdf.py:SampleStorageHDF.sample_pairs_level",
             "mlmc/sample_storage_hdf.py:SampleStorageHDF.sample_pairs", "mlmc/sample_storage_hdf.py:SampleStorageHDF._level_chunks",
             "mlmc/sample_storage_hdf.py:SampleStorageHDF.get_n_collected", "mlmc/sample_storage_hdf.py:SampleStorageHDF.get_level_ids",
             "mlmc/sample_storage.py:SampleStorage.chunks"]
TRUSTED = ["h5py contract (proofs/h5model.py)", "numpy model"]
ASSUMPTIONS = ["identifiers are at most 100 bytes long", "floating point numbers are stored unchanged",
               "all results of a level have the same length"]


def append(present):
    def run():
        w, h5, lib, hd, lg, (a, b) = populated(present)
        n = fint("n", 1)
        lst, new, pair = results(n, a.M)
        lg.append_successful(np.array(lst))
        cover("appended")
        n0 = a.n["collected_ids"]
        g = a.same(lib, "s.h5", ("scheduled", "failed"))
        rows_are("values are the old ones followed by the new ones", g.kids["collected_values"].rows, n0 + n.e,
                 lambda i: merge(i < n0, a.pair(i), pair(i - n0)) if present else pair(i - n0))
        rows_are("identifiers are the old ones followed by the new ones", g.kids["collected_ids"].rows, n0 + n.e,
                 lambda i: Row([SBytes(merge(i < n0, a.ids["collected_ids"](i), new(i - n0)))], NAMES["collected_ids"]))
        b.same(lib, "s.h5")
    run.__name__ = "append_first" if not present else "append_more"
    return run


def read():
    w, h5, lib, hd, lg, (a, b) = populated(True)
    n = a.n["collected_ids"]
    s, e = fint("start", 0), fint("stop", 0)
    r = lg.collected(slice(s, e, 1))
    cover("read")
    cut = lambda v: z3.If(v < n, v, n)
    prove("number of samples read", _z(r.shape[0]) == z3.If(cut(e.e) > cut(s.e), cut(e.e) - cut(s.e), 0))
    prove("fine and coarse", _z(r.shape[1]) == 2)
    prove("all components", _z(r.shape[2]) == a.M.e)
    i, k, m = sk("i", 0, SN(_z(r.shape[0]))), sk("k", 0, 2), sk("m", 0, a.M)
    prove("values read are the stored ones", veq(r.get((i.e, k.e, m.e)), SN(a.val(s.e + i.e, k.e, m.e))))
    prove("number of collected samples", _z(lg.collected_n_items()) == n)
    a.same(lib, "s.h5")
    b.same(lib, "s.h5")


def read_nothing():
    w, h5, lib, hd, lg, (a, b) = populated(False)
    prove("nothing collected yet", _z(lg.collected_n_items()) == 0)
    cover("read")
    a.same(lib, "s.h5")


def chunks():
    w, h5, lib, hd, lg, (a, b) = populated(True)
    n = a.n["collected_ids"]
    CHUNKS.clear()
    ch = as_seq(lg.chunks())
    cover("chunks")
    prove("there are chunks exactly when there are samples", (ch.nt > 0) == (n > 0))
    if not C().branch(ch.nt > 0):
        return
    j = sk("j", 0, SN(ch.nt))
    x = ch.get(j.e)
    prove("chunk number", _z(x.chunk_id) == j.e)
    prove("level of the chunk", _z(x.level_id) == int(a.lid))
    s = x.chunk_slice
    prove("chunk is not empty", z3.And(_z(s.start) >= 0, _z(s.start) < _z(s.stop), _z(s.stop) <= n))
    prove("step of a chunk", z3.BoolVal(s.step in (None, 1)))
    lemma_first = z3.Implies(j.e == 0, _z(s.start) == 0)
    prove("first chunk starts at the first sample", lemma_first)
    prove("last chunk ends at the last sample", z3.Implies(j.e == ch.nt - 1, _z(s.stop) == n))
    if C().branch(j.e + 1 < ch.nt):
        y = ch.get(j.e + 1)
        prove("next chunk starts where this one ends", _z(y.chunk_slice.start) == _z(s.stop))


def limited():
    w, h5, lib, hd, lg, (a, b) = populated(True)
    m = fint("m", 1)
    ch = as_seq(lg.chunks(m))
    cover("limited")
    prove("one chunk", ch.nt == 1)
    x = ch.get(z3.IntVal(0))
    r = lg.collected(x.chunk_slice)
    n = a.n["collected_ids"]
    prove("first samples", _z(r.shape[0]) == z3.If(m.e < n, m.e, n))
    i, k, q = sk("i", 0, SN(_z(r.shape[0]))), sk("k", 0, 2), sk("q", 0, a.M)
    prove("values are the first ones", veq(r.get((i.e, k.e, q.e)), SN(a.val(i.e, k.e, q.e))))
    prove("level of the chunk", _z(x.level_id) == int(a.lid))


# ---------------------------------------------------------------- the storage over its level groups
class Group(Base):
    """contract of LevelGroup as proved above: appending, reading a slice, counting, chunks"""
    __pv_adopt__ = True

    def __init__(self, level_id, j, n, M, val):
        self.level_id, self.j, self.n, self.M, self.val = level_id, j, n, M, val
        self.calls = SN(z3.IntVal(0))
        self.ids = PList(_seq=Seq(z3.IntVal(0), lambda i: SStr(values.lit("")), "fn"))
        z = lambda: SArr([SN(z3.IntVal(0)), M.e], lambda x: SN(z3.RealVal(0)), "float")
        self.fine, self.coarse = z(), z()

    def append_successful(self, samples):
        self.calls = self.calls + 1
        rd = samples.reader()
        n = samples.shape_t[0]
        if not C().entails(_z(samples.shape_t[1]) == 2):
            raise Unsupported("samples of another form")
        self.ids = PList(_seq=Seq(_z(n), lambda i: rd((_z(i), z3.IntVal(0)))))
        part = lambda a: SArr([n, self.M.e], lambda x: rd((_z(x[0]), z3.IntVal(1)))[a].get((x[1],)), "float")
        self.fine, self.coarse = part(0), part(1)

    def collected(self, s):
        a, b = values.norm_slice(s, self.n.e)
        return SArr([simp(b - a), 2, self.M.e], lambda idx: SN(self.val(_z(self.j), a + _z(idx[0]), _z(idx[1]), _z(idx[2]))), "float")

    def collected_n_items(self):
        return self.n

    def chunks(self, n_samples=None):
        CS = self.spec
        if n_samples is not None:
            return SIter(Seq.const([CS(chunk_id=0, chunk_slice=slice(0, n_samples, 1), level_id=self.j)]))
        return SIter(Seq(NCH(_z(self.j)), lambda i: CS(chunk_id=SN(_z(i)), chunk_slice=slice(SN(CST(_z(self.j), _z(i))), SN(CST(_z(self.j), _z(i) + 1)), 1), level_id=self.j)))


NCH = z3.Function("n_chunks_of", I, I)
CST = z3.Function("chunk_start", I, I, I)


def storage(w):
    hs = w.load("mlmc.sample_storage_hdf")
    c = C()
    st = object.__new__(hs.SampleStorageHDF)
    L, M = fint("L", 1), fint("M", 1)
    n, val = c.fresh_fun("n_collected", [I], I), c.fresh_fun("stored", [I, I, I, I], R)
    q = z3.Int("$q")
    c.assume(z3.ForAll([q], z3.And(n(q) >= 1, NCH(q) >= 0)))
    Group.spec = staticmethod(w.load("mlmc.quantity.quantity_spec").ChunkSpec)
    st._level_groups = flist(L, lambda j: Group(values.str_of(SN(_z(j))), SN(_z(j)), SN(n(_z(j))), M, val))
    return st, L, M, n, val


def save():
    """every level's samples go to that level's group, once, in order"""
    w, h5, lib = world()
    st, L, M, n, val = storage(w)
    c = C()
    hasl, cnt = c.fresh_fun("saved_level", [I], B), c.fresh_fun("saved_n", [I], I)
    idf, f, g = c.fresh_fun("id", [I, I], Str), c.fresh_fun("fine", [I, I, I], R), c.fresh_fun("coarse", [I, I, I], R)
    q = z3.Int("$q")
    c.assume(z3.ForAll([q], z3.Implies(hasl(q), z3.And(q >= 0, q < L.e, cnt(q) >= 0)), patterns=[hasl(q)]))

    def samples(l):
        return flist(SN(cnt(l)), lambda i: (SStr(idf(l, _z(i))), (SArr([M.e], lambda x: SN(f(l, _z(i), _z(x[0])))), SArr([M.e], lambda x: SN(g(l, _z(i), _z(x[0])))))))
    st._save_succesful(fdict(hasl, samples))
    cover("saved")
    x = sk("x", 0, L)
    c.assume(z3.Implies(hasl(x.e), cnt(x.e) >= 0))

    def after():
        gr = st._level_groups[x]
        if c.branch(z3.And(hasl(x.e), cnt(x.e) > 0)):
            prove("saved once", _z(gr.calls) == 1)
            prove("all samples are saved", z3.And(_z(p_len(gr.ids)) == cnt(x.e), _z(gr.fine.shape[0]) == cnt(x.e), _z(gr.coarse.shape[0]) == cnt(x.e)))
            i, m = sk("i", 0, SN(cnt(x.e))), sk("m", 0, M)
            prove("identifier of the i-th sample", veq(gr.ids.seq().get(i.e), SStr(idf(x.e, i.e))))
            prove("fine result of the i-th sample", veq(gr.fine.get((i.e, m.e)), SN(f(x.e, i.e, m.e))))
            prove("coarse result of the i-th sample", veq(gr.coarse.get((i.e, m.e)), SN(g(x.e, i.e, m.e))))
        else:
            prove("nothing is saved on other levels", _z(gr.calls) == 0)
    cases(after)


def pairs_level():
    """components x samples x (fine, coarse); the fine part only on level zero"""
    w, h5, lib = world()
    st, L, M, n, val = storage(w)
    CS = w.load("mlmc.quantity.quantity_spec").ChunkSpec
    l, a, b = sk("l", 0, L), fint("a", 0), fint("b", 0)
    assume(z3.And(a.e <= b.e, b.e <= n(l.e)))
    r = st.sample_pairs_level(CS(chunk_id=fint("cid", 0), chunk_slice=slice(a, b, 1), level_id=l))
    cover("read")
    i, m = sk("i", 0, SN(b.e - a.e)), sk("m", 0, M)

    def after():
        prove("components", _z(r.shape[0]) == M.e)
        prove("samples", _z(r.shape[1]) == b.e - a.e)
        prove("fine and coarse, fine only on level zero", _z(r.shape[2]) == z3.If(l.e == 0, 1, 2))
        prove("fine values", veq(r[m, i, 0], SN(val(l.e, a.e + i.e, 0, m.e))))
        if l != 0:
            cover("higher level")
            prove("coarse values", veq(r[m, i, 1], SN(val(l.e, a.e + i.e, 1, m.e))))
    cases(after)


def pairs():
    """sample_pairs: every level, all its samples in the order saved"""
    w, h5, lib = world()
    st, L, M, n, val = storage(w)
    r = st.sample_pairs()
    cover("read")
    prove("one entry per level", _z(p_len(r)) == L.e)
    l = sk("l", 0, L)
    c = C()
    c.assume(n(l.e) >= 1)
    i, m = sk("i", 0, SN(n(l.e))), sk("m", 0, M)

    def after():
        x = r[l]
        prove("components", _z(x.shape[0]) == M.e)
        prove("all samples of the level", _z(x.shape[1]) == n(l.e))
        prove("fine and coarse, fine only on level zero", _z(x.shape[2]) == z3.If(l.e == 0, 1, 2))
        prove("fine values", veq(x[m, i, 0], SN(val(l.e, i.e, 0, m.e))))
        if l != 0:
            prove("coarse values", veq(x[m, i, 1], SN(val(l.e, i.e, 1, m.e))))
    cases(after)


def counts():
    w, h5, lib = world()
    st, L, M, n, val = storage(w)
    r = st.get_n_collected()
    cover("counted")
    l = sk("l", 0, L)
    prove("one entry per level", _z(p_len(r)) == L.e)
    prove("number of collected samples of each level", _z(r[l]) == n(l.e))
    ids = st.get_level_ids()
    prove("level numbers: one per level", _z(p_len(ids)) == L.e)
    prove("level numbers", _z(ids[l]) == l.e)
    prove("number of levels", _z(st.get_n_levels()) == L.e)


def all_chunks():
    """chunks() of one level are its group's chunks; of all levels, one level after the other"""
    w, h5, lib = world()
    st, L, M, n, val = storage(w)
    l = sk("l", 0, L)
    one = as_seq(st.chunks(level_id=l))
    prove("chunks of one level: number", one.nt == NCH(l.e))
    C().assume(NCH(l.e) >= 0)
    if C().branch(one.nt > 0):
        j = sk("j", 0, SN(one.nt))
        x = one.get(j.e)
        prove("chunks of one level: level", _z(x.level_id) == l.e)
        prove("chunks of one level: slice", z3.And(_z(x.chunk_slice.start) == CST(l.e, j.e), _z(x.chunk_slice.stop) == CST(l.e, j.e + 1)))
    k = fint("k", 1)
    lim = as_seq(st.chunks(level_id=l, n_samples=k))
    cover("limited")
    prove("limited: one chunk", lim.nt == 1)
    y = lim.get(z3.IntVal(0))
    prove("limited: the first samples of the level", z3.And(_z(y.level_id) == l.e, _z(y.chunk_slice.start) == 0, _z(y.chunk_slice.stop) == k.e))
    every = as_seq(st.chunks())
    prove_eq("chunks of all levels, one level after the other", every,
             Seq.flat(L.e, lambda j: as_seq(Group(None, SN(_z(j)), SN(n(_z(j))), M, val).chunks())))


# ---------------------------------------------------------------- the file: creation and reopening
def fresh_storage(w, L):
    """a new storage with L levels as the sampler creates it"""
    hs = w.load("mlmc.sample_storage_hdf")
    st = hs.SampleStorageHDF("s.h5")
    quiet(st)
    pars = PList([freal("par%d" % i) for i in range(L)])
    st.save_global_data(PList([PList([p]) for p in pars]), formats(w))
    return st, pars


def quiet(st):
    """the result format is kept elsewhere in the file and is not the subject here"""
    st._hdf_result_format = lambda *a: Opaque("format")
    st.save_result_format = lambda *a: None


def formats(w):
    QS = w.load("mlmc.quantity.quantity_spec").QuantitySpec
    return PList([QS("q", "m", (1, 1), PList([1.0]), PList(["a"]))])


def create(L):
    def run():
        """a new file has L empty levels"""
        w, h5, lib = world()
        st, pars = fresh_storage(w, L)
        cover("created")
        prove("number of levels", _z(st.get_n_levels()) == L)
        g = lib.files["s.h5"].root.kids["Levels"]
        prove("level groups", z3.BoolVal(sorted(g.keys()) == [str(i) for i in range(L)]))
        for i in range(L):
            Level(str(i), fint("M", 1), False, empty=True).same(lib, "s.h5")
            prove("storage uses the group of its level", z3.BoolVal(st._level_groups[i].level_group_path == "/Levels/%d" % i and st._level_groups[i].level_id == str(i)))
        again = w.load("mlmc.sample_storage_hdf").SampleStorageHDF("s.h5")
        prove("reopened: number of levels", _z(again.get_n_levels()) == L)
    run.__name__ = "create_%d" % L
    return run


def reopen(L):
    def run():
        """opening an existing file finds its levels and changes nothing, also when the sampler saves its global data again"""
        w, h5, lib = world()
        M = fint("M", 1)
        levs = [Level(str(i), M, i != 1) for i in range(L)]
        if L > 1:
            assume(levs[1].n["collected_ids"] == 0)
        hd = w.load("mlmc.tool.hdf5")
        with h5.File("s.h5", "a") as f:
            f.attrs["version"] = "1.0.1"
            f.attrs["level_parameters"] = np.array([[freal("par%d" % i)] for i in range(L)])
            f.create_group("Levels")
            for lv in levs:
                lv.fill(w, f["Levels"].create_group(lv.lid), h5)
        st = w.load("mlmc.sample_storage_hdf").SampleStorageHDF("s.h5")
        quiet(st)
        cover("opened")

        def check(tag):
            prove(tag + "number of levels", _z(st.get_n_levels()) == L)
            for i, lv in enumerate(levs):
                lv.same(lib, "s.h5", tag=tag)
                prove(tag + "storage uses the group of its level", z3.BoolVal(st._level_groups[i].level_group_path == "/Levels/%d" % i and st._level_groups[i].level_id == str(i)))
        check("opened: ")
        st.save_global_data(PList([PList([freal("p%d" % i)]) for i in range(L)]), formats(w))
        check("global data saved again: ")
    run.__name__ = "reopen_%d" % L
    return run


HARNESSES = [append(False), append(True), read, read_nothing, chunks, limited, save, pairs_level, pairs, counts, all_chunks,
             create(1), create(2), create(3), reopen(1), reopen(2), reopen(3)]
