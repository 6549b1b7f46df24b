"""contracts of the collaborators of the estimates: a quantity (samples of a chunk) and its storage (the chunks of all levels)"""
from pydv.api import *
from proofs.states import *
from proofs.stubs import clock


class ChunkSpec(Base):
    def __init__(self, chunk_id, level_id, chunk_slice=None, level_identifier=None):
        self.chunk_id, self.level_id, self.chunk_slice = chunk_id, level_id, chunk_slice


class QStorage(Base):
    """an arbitrary number of chunks in any order; chunk c holds n(c) samples of level lev(c)"""
    def __init__(self):
        c = C()
        self.L = fint("L", 1)
        self.nch = fint("n_chunks", 0)
        self.lev, self.n = c.fresh_fun("lev", [I], I), c.fresh_fun("n", [I], I)
        q = z3.Int("$q")
        c.assume(z3.ForAll([q], z3.And(self.lev(q) >= 0, self.lev(q) < self.L.e, self.n(q) >= 0), patterns=[self.lev(q)]))
        self.at = []

    def fact(self, j):
        C().assume_once(z3.And(self.lev(j) >= 0, self.lev(j) < self.L.e, self.n(j) >= 0), "ax")
        if self.also is not None:
            C().assume_once(self.also(j), "ax")

    also = None

    def level_ids(self):
        return flist(self.L, lambda i: SN(_z(i)))

    def chunks(self, *a, **k):
        def spec(j):
            j = _z(j)
            self.fact(j)
            return ChunkSpec(SN(j), SN(self.lev(j)))
        return SIter(Seq(self.nch.e, spec))

    def n_collected(self):
        raise Unsupported("n_collected")


class Qty(Base):
    """an arbitrary quantity with M components: arbitrary values, any of them may be NaN; level zero may come without coarse part"""
    def __init__(self, st):
        c = C()
        self.st = st
        self.M = fint("M", 1)
        self.val, self.nan = c.fresh_fun("value", [I, I, I, I], R), c.fresh_fun("missing", [I, I, I, I], B)
        self.parts = c.fresh_fun("parts", [I], I)
        self.qtype = Opaque("qtype")

    def size(self):
        return self.M

    def all_missing(self, c):
        """every sample of chunk c has some missing component"""
        m, i = z3.Int("$a1"), z3.Int("$a2")
        bad = z3.Exists([m], z3.And(m >= 0, m < self.M.e, z3.Or(self.nan(c, m, i, 0), self.nan(c, m, i, 1))))
        return terms.mk_sum(self.st.n(c), lambda k: z3.substitute(z3.If(bad, z3.IntVal(0), z3.IntVal(1)), (i, k))) == 0

    def get_quantity_storage(self):
        return self.st

    def samples(self, spec):
        c = _z(spec.chunk_id)
        return SArr([self.M.e, self.st.n(c), 2], lambda idx: SNum(self.val(c, *[_z(x) for x in idx]), self.nan(c, *[_z(x) for x in idx])), "float")


class QMean(Base):
    def __init__(self, qtype, l_means, l_vars, n_samples, n_rm_samples):
        self.qtype, self.l_means, self.l_vars, self.n_samples, self.n_rm_samples = qtype, l_means, l_vars, n_samples, n_rm_samples


class Spec:
    """the stored samples of an arbitrary quantity: what the estimator has to give"""
    def __init__(self, st, q):
        self.st, self.q = st, q

    def bad(self, c, i):
        """some component is missing in the fine or coarse part"""
        m = z3.Int("$a1")
        return z3.Exists([m], z3.And(m >= 0, m < self.q.M.e, z3.Or(self.q.nan(c, m, i, 0), self.q.nan(c, m, i, 1))))

    def diff(self, c, m, i):
        return self.q.val(c, m, i, 0) - z3.If(self.st.lev(c) == 0, z3.RealVal(0), self.q.val(c, m, i, 1))

    def total(self, l, f):
        """sum over the used samples of level l"""
        st = self.st
        return terms.mk_sum(st.nch.e, lambda c: z3.If(st.lev(c) == _z(l), terms.mk_sum(st.n(c), lambda i: z3.If(self.bad(c, i), z3.RealVal(0), f(c, i))), z3.RealVal(0)))

    def used(self, l):
        st = self.st
        return terms.mk_sum(st.nch.e, lambda c: z3.If(st.lev(c) == _z(l), terms.mk_sum(st.n(c), lambda i: z3.If(self.bad(c, i), z3.IntVal(0), z3.IntVal(1))), z3.IntVal(0)))

    def removed(self, l):
        st = self.st
        return terms.mk_sum(st.nch.e, lambda c: z3.If(st.lev(c) == _z(l), terms.mk_sum(st.n(c), lambda i: z3.If(self.bad(c, i), z3.IntVal(1), z3.IntVal(0))), z3.IntVal(0)))

    def collected(self, l):
        st = self.st
        return terms.mk_sum(st.nch.e, lambda c: z3.If(st.lev(c) == _z(l), st.n(c), z3.IntVal(0)))

    def sum(self, l, m):
        return self.total(l, lambda c, i: self.diff(c, _z(m), i))

    def squares(self, l, m):
        return self.total(l, lambda c, i: self.diff(c, _z(m), i) * self.diff(c, _z(m), i))
