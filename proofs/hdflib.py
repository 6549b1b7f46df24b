"""arbitrary contents of a storage file and stand-ins for LevelGroup"""
from pydv.api import *
from proofs.h5model import *

NAMES = {"scheduled": ("sample_id",), "collected_ids": ("sample_id",), "failed": ("sample_id", "message")}


def world():
    h5, lib = make_h5py()
    import os as _os
    osm = types.SimpleNamespace(path=types.SimpleNamespace(exists=lib.exists, isfile=lib.exists, join=_os.path.join, abspath=lambda p: p), getcwd=lambda: "/scratch")
    return make_world({"h5py": h5, "os": osm}), h5, lib


def ids_fun(name):
    f = C().fresh_fun(name, [I], Str)
    return lambda i: SStr(f(_z(i)))


class Level:
    """ghost copy of what a level of the file holds"""
    def __init__(self, lid, M=None, values_present=None, empty=False):
        c = C()
        self.lid = lid
        self.n = {k: (z3.IntVal(0) if empty else fint("n_%s_%s" % (k, lid), 0).e) for k in NAMES}
        self.ids = {k: ids_fun("%s_%s" % (k, lid)) for k in NAMES}
        self.msg = ids_fun("message_%s" % lid)
        self.has_values = values_present
        self.M = M
        self.val = c.fresh_fun("value_%s" % lid, [I, I, I], R)

    def row(self, k, i):
        fs = [SBytes(self.ids[k](i))]
        if k == "failed":
            fs.append(SBytes(self.msg(i)))
        return Row(fs, NAMES[k])

    def pair(self, i):
        i = _z(i)
        return SArr([2, self.M.e], lambda idx: SN(self.val(i, _z(idx[0]), _z(idx[1]))), "float")

    def fill(self, w, grp, h5):
        """data sets of the level as the previous operations left them (one value per collected identifier)"""
        LG = w.load("mlmc.tool.hdf5").LevelGroup
        dts = {"scheduled": LG.SCHEDULED_DTYPE, "collected_ids": LG.COLLECTED_ATTRS["sample_id"]["dtype"], "failed": LG.FAILED_DTYPE}
        for k in NAMES:
            d = grp.create_dataset(k, shape=(0,), dtype=dts[k], maxshape=(None,), chunks=True)
            d.rows = PList(_seq=Seq(self.n[k], lambda i, k=k: self.row(k, i)))
        if self.has_values:
            d = grp.create_dataset("collected_values", shape=(0,), dtype=np.dtype((w.load("numpy").float, (2, self.M))), maxshape=(None,), chunks=True)
            d.rows = PList(_seq=Seq(self.n["collected_ids"], lambda i: self.pair(i)))
        grp.attrs["level_id"] = self.lid

    def same(self, lib, name, what=None, tag=""):
        """the level's data sets (all, or those named) hold what they held before"""
        g = lib.files[name].root.kids["Levels"].kids[self.lid]
        for k in NAMES:
            if what is None or k in what:
                rows_are("%s%s of level %s unchanged" % (tag, k, self.lid), g.kids[k].rows, self.n[k], lambda i, k=k: self.row(k, i))
        if what is None or "collected_values" in what:
            if self.has_values:
                rows_are("%scollected_values of level %s unchanged" % (tag, self.lid), g.kids["collected_values"].rows, self.n["collected_ids"], self.pair)
            else:
                prove("%sno values of level %s" % (tag, self.lid), z3.BoolVal("collected_values" not in g.kids))
        return g


def rows_are(name, rows, n, at):
    """a data set holds exactly n rows, the i-th being at(i)"""
    m = _z(p_len(rows))
    prove(name + ": number", m == _z(n))
    C().assume(m == _z(n))

    def each():
        if C().branch(m > 0):
            i = sk("i", 0, m)
            prove(name, same_value(rows[i], at(i.e)))
    cases(each)


def same_value(a, b):
    if isinstance(a, Row) and isinstance(b, Row):
        return z3.And(*[veq(x, y) for x, y in zip(a.vals, b.vals)]) if len(a.vals) == len(b.vals) else z3.BoolVal(False)
    return veq(a, b)


def populated(values_present=True, other_values=True, lids=("0", "3")):
    """file with two levels of arbitrary content; LevelGroup of the first"""
    w, h5, lib = world()
    hd = w.load("mlmc.tool.hdf5")
    M = fint("M", 1)
    levs = [Level(lids[0], M, values_present), Level(lids[1], fint("M2", 1), other_values)]
    if not values_present:
        assume(levs[0].n["collected_ids"] == 0)
    if not other_values:
        assume(levs[1].n["collected_ids"] == 0)
    with h5.File("s.h5", "a") as f:
        f.attrs["level_parameters"] = flist(fint("L", 1), lambda j: freal("par"))
        f.create_group("Levels")
        for lv in levs:
            lv.fill(w, f["Levels"].create_group(lv.lid), h5)
    lg = hd.LevelGroup("s.h5", "/Levels/" + lids[0], lids[0], loaded_from_file=True)
    return w, h5, lib, hd, lg, levs


def results(n, M):
    """list of n successful samples as the pools hand them over: (id, (fine, coarse))"""
    new = ids_fun("new_id")
    f, g = C().fresh_fun("fine", [I, I], R), C().fresh_fun("coarse", [I, I], R)

    def arrays(i):
        i = _z(i)
        return (SArr([M.e], lambda idx: SN(f(i, _z(idx[0]))), "float"), SArr([M.e], lambda idx: SN(g(i, _z(idx[0]))), "float"))
    lst = flist(n, lambda i: (new(i), arrays(i)))

    def pair(i):
        i = _z(i)
        return SArr([2, M.e], lambda idx: merge(_z(idx[0]) == 0, SN(f(i, _z(idx[1]))), SN(g(i, _z(idx[1])))), "float")
    return lst, new, pair
