"""P05: Memory storage - every saving step appends exactly the saved pairs, every reader returns exactly the stored pairs.
The invariant (Inv) describes an arbitrary reachable state: per level x a sequence of n(x) identifiers and result pairs."""
from pydv.api import *
from proofs.stubs import *

FUNCTIONS = ["mlmc/sample_storage.py:Memory.__init__", "mlmc/sample_storage.py:Memory.save_samples", "mlmc/sample_storage.py:Memory._save_successful",
             "mlmc/sample_storage.py:Memory._save_failed", "mlmc/sample_storage.py:Memory.sample_pairs_level", "mlmc/sample_storage.py:Memory._level_chunks",
             "mlmc/sample_storage.py:SampleStorage.chunks", "mlmc/sample_storage.py:Memory.n_finished", "mlmc/sample_storage.py:Memory.get_n_collected",
             "mlmc/sample_storage.py:Memory.get_level_ids", "mlmc/sample_storage.py:Memory.get_n_levels"]
TRUSTED = ["numpy model (array of tuples as object array, sub-array dtype, concatenate, transpose, slicing)", "python dictionaries as finite maps"]
ASSUMPTIONS = ["every saved level comes with at least one sample", "all result vectors have the same length", "level identifiers are non-negative integers"]


class World:
    """arbitrary state satisfying the invariant"""
    def __init__(self, name="", samples=True):
        c = C()
        self.M = fint("M" + name, 1)
        self.has = c.fresh_fun("has" + name, [I], B)           # level has collected samples
        self.n = c.fresh_fun("n" + name, [I], I)
        self.sid = c.fresh_fun("sid" + name, [I, I], Str)
        self.val = c.fresh_fun("res" + name, [I, I, I, I], R)
        self.nan = c.fresh_fun("res_nan" + name, [I, I, I, I], B)
        self.hasf = c.fresh_fun("hasf" + name, [I], B)         # level has failed samples
        self.nf = c.fresh_fun("nf" + name, [I], I)
        self.fid = c.fresh_fun("fid" + name, [I, I], Str)
        self.ferr = c.fresh_fun("ferr" + name, [I, I], Str)
        x = z3.Int("$x")
        c.assume(z3.ForAll([x], z3.Implies(self.has(x), z3.And(x >= 0, self.n(x) >= 1)), patterns=[self.has(x)]))
        c.assume(z3.ForAll([x], z3.Implies(self.hasf(x), z3.And(x >= 0, self.nf(x) >= 1)), patterns=[self.hasf(x)]))
        if samples:
            # other number of values per sample is excluded
            pass

    def at(self, x):
        c = C()
        if not z3.is_var(x):
            c.assume_once(z3.Implies(self.has(x), z3.And(x >= 0, self.n(x) >= 1)), "ax")
            c.assume_once(z3.Implies(self.hasf(x), z3.And(x >= 0, self.nf(x) >= 1)), "ax")

    def number(self, x, i, p, m):
        return SNum(self.val(x, _z(i), _z(p), _z(m)), self.nan(x, _z(i), _z(p), _z(m)))

    def dictionary(self, has, val, sort=I):
        d = PDict()
        d.base = values.FMap(sort, has, lambda x: (self.at(x), val(x))[1])
        d.log = []
        return d

    def state(self, mem):
        """mem in the state described"""
        mem._results = self.dictionary(self.has, lambda x: SArr([self.n(x), 2, self.M.e], lambda idx: self.number(x, *idx), "float"))
        mem._successful_sample_ids = self.dictionary(self.has, lambda x: flist(self.n(x), lambda i: SStr(self.sid(x, i))))
        mem._failed = self.dictionary(self.hasf, lambda x: flist(self.nf(x), lambda i: (SStr(self.fid(x, i)), SStr(self.ferr(x, i)))))
        mem._n_finished = self.dictionary(lambda x: z3.Or(self.has(x), self.hasf(x)),
                                          lambda x: SN(z3.If(self.has(x), self.n(x), 0) + z3.If(self.hasf(x), self.nf(x), 0)))

    def vector(self, x, i, p):
        return SArr([self.M.e], lambda idx: self.number(x, i, p, idx[0]), "float")

    def successful(self):
        """samples as the pool returns them"""
        return self.dictionary(self.has, lambda x: flist(self.n(x), lambda i: (SStr(self.sid(x, i)), (self.vector(x, i, 0), self.vector(x, i, 1)))))

    def failed(self):
        return self.dictionary(self.hasf, lambda x: flist(self.nf(x), lambda i: (SStr(self.fid(x, i)), SStr(self.ferr(x, i)))))


def load():
    w = make_world({"time": clock()})
    ss = w.load("mlmc.sample_storage")
    return ss


def cnt(w, x, f=False):
    return z3.If(w.hasf(x), w.nf(x), 0) if f else z3.If(w.has(x), w.n(x), 0)


def initial():
    """the constructor establishes the invariant with nothing stored"""
    ss = load()
    m = ss.Memory()
    cover("constructed")
    prove("no results", z3.BoolVal(len(m._results) == 0))
    prove("no identifiers", z3.BoolVal(len(m._successful_sample_ids) == 0))
    prove("no failures", z3.BoolVal(len(m._failed) == 0))
    prove("nothing finished", z3.BoolVal(len(m._n_finished) == 0))


def save():
    """save_samples appends exactly the saved samples"""
    ss = load()
    old, new = World(), World("'")
    assume(old.M.e == new.M.e)
    m = ss.Memory()
    old.state(m)
    m.save_samples(new.successful(), new.failed())
    cover("saved")
    x = C().fresh_const("x", I)      # arbitrary level
    i = sk("i", 0)
    p = sk("p", 0, 2)
    k = sk("k", 0, old.M)
    old.at(x), new.at(x)
    r = m._results
    X = SN(x)
    lemma("levels with results", eqb(has(r, x), z3.Or(old.has(x), new.has(x))))
    lemma("levels with identifiers", eqb(has(m._successful_sample_ids, x), z3.Or(old.has(x), new.has(x))))
    lemma("levels with failures", eqb(has(m._failed, x), z3.Or(old.hasf(x), new.hasf(x))))
    lemma("levels with finished samples", eqb(has(m._n_finished, x), z3.Or(old.has(x), new.has(x), old.hasf(x), new.hasf(x))))
    cases(lambda: saved(m, old, new, x, i, p, k))


def saved(m, old, new, x, i, p, k):
    X = SN(x)
    if C().branch(z3.Or(old.has(x), new.has(x), old.hasf(x), new.hasf(x))):
        prove("finished samples", veq(m._n_finished[X], SN(cnt(old, x) + cnt(new, x) + cnt(old, x, True) + cnt(new, x, True))))
    if C().branch(z3.Or(old.has(x), new.has(x))):
        a = m._results[X]
        prove("number of results", _z(a.shape_t[0]) == cnt(old, x) + cnt(new, x))
        prove("shape of results", z3.And(z3.BoolVal(a.ndim == 3), _z(a.shape_t[1]) == 2, _z(a.shape_t[2]) == old.M.e))
        assume(i.e < _z(a.shape_t[0]))
        first = i.e < cnt(old, x)
        want = merge(first, old.number(x, i.e, p.e, k.e), new.number(x, i.e - cnt(old, x), p.e, k.e))
        prove("results in the order saved", veq(a.get((i.e, p.e, k.e)), want))
        s = m._successful_sample_ids[X].seq()
        prove("number of identifiers", s.nt == cnt(old, x) + cnt(new, x))
        prove("identifiers in the order saved", veq(s.get(i.e), merge(first, SStr(old.sid(x, i.e)), SStr(new.sid(x, i.e - cnt(old, x))))))
    if C().branch(z3.Or(old.hasf(x), new.hasf(x))):
        s = m._failed[X].seq()
        prove("number of failures", s.nt == cnt(old, x, True) + cnt(new, x, True))


def has(d, x):
    if d.base is None and not d.log:
        return z3.Or(*[x == k for k in dict.keys(d)]) if len(dict.keys(d)) else z3.BoolVal(False)
    return d._lookup(SN(x))[0] if False else bool_term(SN(x) in d) if False else d.base.has(x)


def eqb(a, b):
    return z3.And(z3.Implies(a, b), z3.Implies(b, a))


def chunked():
    """reading a level"""
    ss = load()
    w = World()
    m = ss.Memory()
    w.state(m)
    lev = sk("level", 0)
    w.at(lev.e)
    assume(w.has(lev.e))
    ns = fint("n_samples", 0)
    limited = bool(fbool("limited"))
    ch = list(m.chunks(level_id=lev, n_samples=ns if limited else None))
    cover("chunks")
    prove("one chunk", z3.BoolVal(len(ch) == 1))
    a = m.sample_pairs_level(ch[0])
    want = z3.If(ns.e < w.n(lev.e), ns.e, w.n(lev.e)) if limited else w.n(lev.e)
    shape(w, a, lev, want)


def shape(w, a, lev, want):
    z = lev.e == 0
    prove("components x samples x (fine, coarse)", z3.And(z3.BoolVal(a.ndim == 3), _z(a.shape_t[0]) == w.M.e, _z(a.shape_t[1]) == want, _z(a.shape_t[2]) == z3.If(z, 1, 2)))
    k, i, p = sk("k", 0, a.shape_t[0]), sk("i", 0, a.shape_t[1]), sk("p", 0, a.shape_t[2])
    prove("values unchanged, in order", veq(a.get((k.e, i.e, p.e)), w.number(lev.e, i.e, p.e, k.e)))


def whole():
    """reading a level without a chunk"""
    ss = load()
    w = World()
    m = ss.Memory()
    w.state(m)
    lev = sk("level", 0)
    w.at(lev.e)
    assume(w.has(lev.e))
    a = m.sample_pairs_level(ss.ChunkSpec(level_id=lev))
    cover("read")
    shape(w, a, lev, w.n(lev.e))


def numbers():
    """reported numbers of samples"""
    ss = load()
    w = World()
    m = ss.Memory()
    w.state(m)
    L = fint("L", 0)
    m._level_parameters = flist(L, lambda j: freal("par"))
    x = sk("x", 0)
    w.at(x.e)
    col = m.get_n_collected()
    fin = m.n_finished()
    cover("counted")
    prove("collected: covers all levels", z3.Implies(z3.Or(w.has(x.e), x.e < L.e), x.e < _z(p_len(col))))
    prove("finished: covers all levels", z3.Implies(z3.Or(w.has(x.e), w.hasf(x.e), x.e < L.e), x.e < _z(p_len(fin))))
    cases(lambda: counted(w, col, fin, x))


def counted(w, col, fin, x):
    if C().branch(x.e < _z(p_len(col))):
        prove("collected samples", veq(col[x], SN(cnt(w, x.e))))
    if C().branch(x.e < _z(p_len(fin))):
        prove("finished samples", veq(fin[x], SN(cnt(w, x.e) + cnt(w, x.e, True))))


HARNESSES = [initial, save, chunked, whole, numbers]
