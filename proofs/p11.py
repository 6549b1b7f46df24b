"""P11: access to parts of a quantity returns exactly those parts."""
import types
from pydv.api import *
from proofs.qlib import *

FUNCTIONS = ["mlmc/quantity/quantity_types.py:" + f for f in ("QType.keep_dims", "QType._make_getitem_op", "ArrayType.size", "ArrayType.get_key", "ArrayType._make_getitem_op", "ArrayType.reshape",
             "TimeSeriesType.size", "TimeSeriesType.get_key", "FieldType.size", "FieldType.get_key", "DictType.size", "DictType.get_key", "TimeSeriesType.time_interpolation")] \
    + ["mlmc/quantity/quantity.py:" + f for f in ("make_root_quantity", "Quantity.__getitem__", "QuantityMean.__getitem__", "Quantity._concatenate", "Quantity.QArray", "Quantity.QDict", "Quantity.QTimeSeries", "Quantity.QField")]
TRUSTED = ["numpy model (reshape, indexing, concatenate)"]
ASSUMPTIONS = ["times and locations of a result format are distinct"]


class Inner(Base):
    """a type of arbitrary size"""
    def __init__(self, size):
        self._size = size

    def size(self):
        return self._size

    def base_qtype(self):
        return self

    def reshape(self, data):
        return data


def distinct(n, name, lo=0):
    """a list of n distinct numbers"""
    f, g = C().fresh_fun(name, [I], R), C().fresh_fun(name + "_at", [R], I)
    q = z3.Int("$q")
    C().assume(z3.ForAll([q], z3.Implies(z3.And(q >= 0, q < _z(n)), g(f(q)) == q), patterns=[f(q)]))

    def get(i):
        i = _z(i)
        C().assume_once(z3.Implies(z3.And(i >= 0, i < _z(n)), g(f(i)) == i), "ax")
        return SN(f(i))
    return flist(n, get), get


def names(n, name):
    """a list of n distinct strings"""
    f, g = C().fresh_fun(name, [I], Str), C().fresh_fun(name + "_at", [Str], I)
    q = z3.Int("$q")
    C().assume(z3.ForAll([q], z3.Implies(z3.And(q >= 0, q < _z(n)), g(f(q)) == q), patterns=[f(q)]))

    def get(i):
        i = _z(i)
        C().assume_once(z3.Implies(z3.And(i >= 0, i < _z(n)), g(f(i)) == i), "ax")
        return SStr(f(i))
    return get


def found(fn):
    r, e = raises(fn)
    if e is not None:
        prove("an existing item is found", z3.BoolVal(False))
        return None
    cover("found")
    return r


def times():
    w, qm = load()
    T, s = fint("T", 1), fint("size", 1)
    ts, get = distinct(T, "time")
    inner = Inner(s)
    q = qm.qt.TimeSeriesType(ts, inner)
    prove("size", q.size() == T * s)
    j = sk("j", 0, T)
    r = found(lambda: q.get_key(get(j)))
    if r is None:
        return
    prove("type of an item", z3.BoolVal(r[0] is inner))
    prove("time by time", r[1] == j * s)


def locations():
    w, qm = load()
    n, s = fint("n_locations", 1), fint("size", 1)
    get = names(n, "location")
    inner = Inner(s)
    q = qm.qt.FieldType(flist(n, lambda i: (get(i), inner)))
    prove("size", q.size() == n * s)
    j = sk("j", 0, n)
    r = found(lambda: q.get_key(get(j)))
    if r is None:
        return
    prove("type of an item", z3.BoolVal(r[0] is inner))
    prove("location by location", r[1] == j * s)


def quantities():
    w, qm = load()
    n = fint("n_quantities", 1)
    get = names(n, "name")
    size = ffun("size", I, I)
    q = z3.Int("$q")
    C().assume(z3.ForAll([q], size.raw(q) >= 1))
    d = qm.qt.DictType(flist(n, lambda i: (get(i), Inner(size(i)))))
    prove("size", d.size() == zsum(n, lambda i: size(i)))
    j = sk("j", 0, n)
    r = found(lambda: d.get_key(get(j)))
    if r is None:
        return
    prove("type of an item", r[0].size() == size(j))
    prove("quantity by quantity", r[1] == zsum(j, lambda i: size(i)))




def part():
    """the samples of an item are the components of its range"""
    for kind in ("series", "field", "dictionary"):
        def one():
            w, qm = load()
            qt = qm.qt
            s = fint("size", 1)
            if kind == "dictionary":
                n = fint("n", 1)
                get = names(n, "name")
                size = ffun("size", I, I)
                q = z3.Int("$q")
                C().assume(z3.ForAll([q], size.raw(q) >= 1))
                t = qt.DictType(flist(n, lambda i: (get(i), Inner(size(i)))))
                j = sk("j", 0, n)
                start, stop = zsum(j, lambda i: size(i)), zsum(j + 1, lambda i: size(i))
            else:
                n = fint("n", 1)
                get = (distinct(n, "time")[1] if kind == "series" else names(n, "location"))
                inner = Inner(s)
                t = qt.TimeSeriesType(flist(n, get), inner) if kind == "series" else qt.FieldType(flist(n, lambda i: (get(i), inner)))
                j = sk("j", 0, n)
                start, stop = j * s, (j + 1) * s
            M = fint("M", 1)
            assume(stop <= M)
            st = Store(M)
            root = qm.QuantityStorage(st, t)
            item = found(lambda: root[get(j)])
            if item is None:
                return
            assume(st.N >= 1)
            r = item.samples(Spec(fint("chunk", 0), fint("level", 0)))
            prove(kind + ": number of components", SN(_z(r.shape[0])) == stop - start)
            prove(kind + ": number of samples", SN(_z(r.shape[1])) == st.N)
            prove(kind + ": parts of a sample", SN(_z(r.shape[2])) == 2)
            m, i, p = sk("m", 0, stop - start), sk("i", 0, st.N), sk("p", 0, 2)
            prove_eq(kind + ": components", r.get((m.e, i.e, p.e)), SN(st.val((start + m).e, i.e, p.e)))
        cases(one)


def layout_case():
    """quantity by quantity, time by time, location by location and row by row"""
    w, qm = load()
    n = fint("n_quantities", 1)
    name = names(n, "name")
    T, P, A, Bd = (ffun(x, I, I) for x in ("n_times", "n_locations", "rows", "columns"))
    q = z3.Int("$q")
    C().assume(z3.ForAll([q], z3.And(T.raw(q) >= 1, P.raw(q) >= 1, A.raw(q) >= 1, Bd.raw(q) >= 1)))
    timef, timeat = C().fresh_fun("time", [I, I], R), C().fresh_fun("time_at", [I, R], I)
    locf, locat = C().fresh_fun("location", [I, I], Str), C().fresh_fun("location_at", [I, Str], I)
    k = z3.Int("$k")
    C().assume(z3.ForAll([q, k], z3.Implies(z3.And(k >= 0, k < P.raw(q)), locat(q, locf(q, k)) == k), patterns=[locf(q, k)]))

    C().assume(z3.ForAll([q, k], z3.Implies(z3.And(k >= 0, k < T.raw(q)), timeat(q, timef(q, k)) == k), patterns=[timef(q, k)]))

    def time(i, k):
        i, k = _z(i), _z(k)
        C().assume_once(z3.Implies(z3.And(k >= 0, k < T.raw(i)), timeat(i, timef(i, k)) == k), "ax")
        return SN(timef(i, k))

    def loc(i, k):
        i, k = _z(i), _z(k)
        C().assume_once(z3.Implies(z3.And(k >= 0, k < P.raw(i)), locat(i, locf(i, k)) == k), "ax")
        return SStr(locf(i, k))

    class QSpec(Base):
        def __init__(self, i):
            self.name, self.shape = name(i), (A(i), Bd(i))
            self.times, self.locations = flist(T(i), lambda k: time(i, k)), flist(P(i), lambda k: loc(i, k))
    root = qm.make_root_quantity(Store(1), flist(n, lambda i: QSpec(i)))
    cover("root")
    d = root.qtype
    j = sk("j", 0, n)
    r = found(lambda: d.get_key(name(j)))
    if r is None:
        return
    return d, r, j, n, T, P, A, Bd, time, loc


def layout():
    c = layout_case()
    if c is None:
        return
    d, r, j, n, T, P, A, Bd, time, loc = c
    prove("type of a quantity", r[0].size() == T(j) * P(j) * A(j) * Bd(j))
    prove("start of a quantity", r[1] == zsum(j, lambda i: T(i) * P(i) * A(i) * Bd(i)))
    prove("total", d.size() == zsum(n, lambda i: T(i) * P(i) * A(i) * Bd(i)))


def layout_inside():
    c = layout_case()
    if c is None:
        return
    d, r, j, n, T, P, A, Bd, time, loc = c
    k, l = sk("k", 0, T(j)), sk("l", 0, P(j))
    series = found(lambda: r[0].get_key(time(j, k)))
    if series is None:
        return
    prove("start of a time", series[1] == k * P(j) * A(j) * Bd(j))
    prove("type of a time", series[0].size() == P(j) * A(j) * Bd(j))
    place = found(lambda: series[0].get_key(loc(j, l)))
    if place is None:
        return
    prove("start of a location", place[1] == l * A(j) * Bd(j))
    prove("shape of the array at a location", z3.And(bool_term(place[0]._shape[0] == A(j)), bool_term(place[0]._shape[1] == Bd(j))))
    prove("one number per element", place[0]._qtype.size() == 1)


class ArrayCase:
    def __init__(self, rank, size=None):
        self.w, self.qm = load()
        qt = self.qm.qt
        self.dims = [fint("d%d" % k, 1) for k in range(rank)]
        self.s = 1 if size is None else fint("size", 1)
        self.inner = qt.ScalarType() if size is None else Inner(self.s)
        self.t = qt.ArrayType(tuple(self.dims), self.inner)
        M = self.s
        for d in self.dims:
            M = M * d
        self.M = M
        self.st = Store(M)
        assume(self.st.N >= 1)
        self.root = self.qm.QuantityStorage(self.st, self.t)

    def samples(self, key):
        item = self.root[key]
        return item, item.samples(Spec(fint("chunk", 0), fint("level", 0)))

    def check(self, name, key, shape, source, scalar=None):
        """source: index in the result -> index in the array, shape: of the result"""
        item, r = self.samples(key)
        cover(name)
        n = SN(z3.IntVal(1))
        for x in shape:
            n = n * x
        n = n * self.s
        prove(name + ": number of components", SN(_z(r.shape[0])) == n)
        prove(name + ": number of samples", SN(_z(r.shape[1])) == self.st.N)
        prove(name + ": size of the type", item.qtype.size() == n)
        if len(shape) == 0:
            prove(name + ": type of the item", z3.BoolVal(item.qtype is self.inner))
        ix = [sk("x%d" % k, 0, x) for k, x in enumerate(shape)]
        c = sk("c", 0, self.s)
        i, p = sk("i", 0, self.st.N), sk("p", 0, 2)
        src = source(*ix)
        pos = out = SN(z3.IntVal(0))
        for k, x in zip(src, self.dims):
            pos = pos * x + k
        for k, x in zip(ix, shape):
            out = out * x + k
        pos, out = pos * self.s + c, out * self.s + c
        prove_eq(name + ": components", r.get((out.e, i.e, p.e)), SN(self.st.val(pos.e, i.e, p.e)))


def array_index():
    for size in (None, 1):
        def one():
            a = ArrayCase(1, size)
            k = sk("k", 0, a.dims[0])
            a.check("item", k, (), lambda: (k,))
        cases(one)

        def two():
            a = ArrayCase(2, size)
            k, l = sk("k", 0, a.dims[0]), sk("l", 0, a.dims[1])
            a.check("element", (k, l), (), lambda: (k, l))
        cases(two)

        def row():
            a = ArrayCase(2, size)
            k = sk("k", 0, a.dims[0])
            assume(a.dims[1] >= 2)
            a.check("row", k, (a.dims[1],), lambda y: (k, y))
        cases(row)

        def last():
            a = ArrayCase(1, size)
            a.check("last item", -1, (), lambda: (a.dims[0] - 1,))
        cases(last)


def array_slice():
    for size in (None, 1):
        def part():
            a = ArrayCase(1, size)
            lo, hi = fint("lo", 0), fint("hi", 0)
            assume(hi >= lo + 2)
            assume(hi <= a.dims[0])
            a.check("slice", slice(lo, hi), (hi - lo,), lambda x: (lo + x,))
        cases(part)

        def column():
            a = ArrayCase(2, size)
            l = sk("l", 0, a.dims[1])
            assume(a.dims[0] >= 2)
            a.check("column", (slice(None), l), (a.dims[0],), lambda x: (x, l))
        cases(column)

        def block():
            a = ArrayCase(2, size)
            lo, hi, l2, h2 = fint("lo", 0), fint("hi", 0), fint("l2", 0), fint("h2", 0)
            for u, v, d in ((lo, hi, a.dims[0]), (l2, h2, a.dims[1])):
                assume(v >= u + 2)
                assume(v <= d)
            a.check("block", (slice(lo, hi), slice(l2, h2)), (hi - lo, h2 - l2), lambda x, y: (lo + x, l2 + y))
        cases(block)


def composed(n):
    """an item of a composition is the quantity it was composed from"""
    def harness():
        for kind in ("array", "square array", "dictionary", "series", "field"):
            if kind == "square array" and n != 4:
                continue

            def one():
                w, qm = load()
                qt, Q = qm.qt, qm.Quantity
                sizes = [fint("size%d" % k, 2) for k in range(n)] if kind == "dictionary" else [fint("size", 2)] * n
                st = Store(1)
                root = qm.QuantityStorage(st, qt.ScalarType())
                vals = [farr("part%d" % k, sizes[k], st.N, 2) for k in range(n)]
                inner = [qt.ArrayType((s,), qt.ScalarType()) for s in sizes] if kind == "dictionary" else [qt.ArrayType((sizes[0],), qt.ScalarType())] * n
                parts = [Q(inner[k], input_quantities=PList([root]), operation=lambda x, k=k: vals[k].copy()) for k in range(n)]
                if kind == "array":
                    q, keys = Q.QArray(PList(parts)), list(range(n))
                elif kind == "square array":
                    q, keys = Q.QArray(PList([PList(parts[:2]), PList(parts[2:])])), [(0, 0), (0, 1), (1, 0), (1, 1)]
                elif kind == "dictionary":
                    keys = ["n%d" % k for k in range(n)]
                    q = Q.QDict(PList([(x, y) for x, y in zip(keys, parts)]))
                elif kind == "field":
                    keys = ["n%d" % k for k in range(n)]
                    q = Q.QField(PList([(x, y) for x, y in zip(keys, parts)]))
                else:
                    keys = [0.5 * (k + 1) for k in range(n)]
                    q = Q.QTimeSeries(PList([(x, y) for x, y in zip(keys, parts)]))
                total = sizes[0]
                for s in sizes[1:]:
                    total = total + s
                prove(kind + ": size", q.qtype.size() == total)
                cover(kind)
                spec = Spec(fint("chunk", 0), fint("level", 0))
                for k in range(n):
                    item = q[keys[k]]
                    prove(kind + ": type of an item", z3.BoolVal(item.qtype is inner[k]))
                    prove_eq(kind + ": item", item.samples(spec), vals[k])
            cases(one)
    harness.__name__ = "composed%d" % n
    return harness


class MeanCase:
    """an estimated mean of an array quantity"""
    def __init__(self, rank, size=None):
        self.w, self.qm = load()
        qt = self.qm.qt
        self.dims = [fint("d%d" % k, 2) for k in range(rank)]
        self.t = qt.ArrayType(tuple(self.dims), qt.ScalarType())
        M = 1
        for d in self.dims:
            M = M * d
        self.M, self.L = M, fint("L", 1)
        self.means, self.vars = farr("l_means", self.L, M), farr("l_vars", self.L, M)
        self.ns, self.nr = farr("n_samples", self.L, kind="int", where=lambda t: t >= 1), farr("n_removed", self.L, kind="int")
        self.q = self.qm.QuantityMean(self.t, self.means, self.vars, self.ns, self.nr)

    def check(self, name, key, shape, source):
        item = self.q[key]
        cover(name)
        n = SN(z3.IntVal(1))
        for x in shape:
            n = n * x
        prove(name + ": size of the type", item.qtype.size() == n)
        ix = [sk("x%d" % k, 0, x) for k, x in enumerate(shape)]
        l = sk("l", 0, self.L)
        pos = SN(z3.IntVal(0))
        for k, x in zip(source(*ix), self.dims):
            pos = pos * x + k
        lm, lv, m, v = item.l_means, item.l_vars, item.mean, item.var
        at = tuple(i.e for i in ix)

        def get(a, *i):
            """scalar results may carry an axis of length one"""
            i = list(i)
            while len(i) < a.ndim:
                i.append(z3.IntVal(0))
            return a.get(tuple(i))
        for what, a, b in (("level means", lm, self.means), ("level variances", lv, self.vars)):
            prove_eq(name + ": " + what, get(a, l.e, *at), b.get((l.e, pos.e)))
        prove_eq(name + ": mean", get(m, *at), zsum(self.L, lambda i: self.means.get((_z(i), pos.e))))
        prove_eq(name + ": variance", get(v, *at), zsum(self.L, lambda i: self.vars.get((_z(i), pos.e)) / self.ns.get((_z(i),))))
        prove_eq(name + ": numbers of samples", item.n_samples, self.ns)
        prove_eq(name + ": numbers of removed samples", item.n_rm_samples, self.nr)


def mean_items():
    def item():
        a = MeanCase(1)
        k = sk("k", 0, a.dims[0])
        a.check("item", k, (), lambda: (k,))
    cases(item)

    def element():
        a = MeanCase(2)
        k, l = sk("k", 0, a.dims[0]), sk("l", 0, a.dims[1])
        a.check("element", (k, l), (), lambda: (k, l))
    cases(element)

    def row():
        a = MeanCase(2)
        k = sk("k", 0, a.dims[0])
        a.check("row", k, (a.dims[1],), lambda y: (k, y))
    cases(row)

    def part():
        a = MeanCase(1)
        lo, hi = fint("lo", 0), fint("hi", 0)
        assume(hi >= lo + 2)
        assume(hi <= a.dims[0])
        a.check("slice", slice(lo, hi), (hi - lo,), lambda x: (lo + x,))
    cases(part)

    def column():
        a = MeanCase(2)
        l = sk("l", 0, a.dims[1])
        a.check("column", (slice(None), l), (a.dims[0],), lambda x: (x, l))
    cases(column)


def mean_parts():
    """the estimates of an item are those of the components of its range"""
    for kind in ("series", "field", "dictionary"):
        def one():
            w, qm = load()
            qt = qm.qt
            if kind == "dictionary":
                n = fint("n", 1)
                get = names(n, "name")
                size = ffun("size", I, I)
                q = z3.Int("$q")
                C().assume(z3.ForAll([q], size.raw(q) >= 1))
                t = qt.DictType(flist(n, lambda i: (get(i), Inner(size(i)))))
                j = sk("j", 0, n)
                start, stop = zsum(j, lambda i: size(i)), zsum(j + 1, lambda i: size(i))
            else:
                n, s = fint("n", 1), fint("size", 1)
                get = (distinct(n, "time")[1] if kind == "series" else names(n, "location"))
                inner = Inner(s)
                t = qt.TimeSeriesType(flist(n, get), inner) if kind == "series" else qt.FieldType(flist(n, lambda i: (get(i), inner)))
                j = sk("j", 0, n)
                start, stop = j * s, (j + 1) * s
            M, L = fint("M", 1), fint("L", 1)
            assume(stop <= M)
            means, vars = farr("l_means", L, M), farr("l_vars", L, M)
            ns, nr = farr("n_samples", L, kind="int", where=lambda t: t >= 1), farr("n_removed", L, kind="int")
            item = found(lambda: qm.QuantityMean(t, means, vars, ns, nr)[get(j)])
            if item is None:
                return
            lm, lv, mean, var = item.l_means, item.l_vars, item.mean, item.var
            prove(kind + ": number of components", SN(_z(mean.shape[0])) == stop - start)
            m, l = sk("m", 0, stop - start), sk("l", 0, L)
            at = (start + m).e
            prove_eq(kind + ": level means", lm.get((l.e, m.e)), means.get((l.e, at)))
            prove_eq(kind + ": level variances", lv.get((l.e, m.e)), vars.get((l.e, at)))
            prove_eq(kind + ": mean", mean.get((m.e,)), zsum(L, lambda i: means.get((_z(i), at))))
            prove_eq(kind + ": variance", var.get((m.e,)), zsum(L, lambda i: vars.get((_z(i), at)) / ns.get((_z(i),))))
            prove_eq(kind + ": numbers of samples", item.n_samples, ns)
        cases(one)


class Interp1d:
    """contract of scipy.interpolate.interp1d for increasing points: linear between two neighbouring points"""
    def __init__(self, x, y, axis=-1):
        if axis != 0:
            raise Unsupported("interpolation along another axis")
        self.x, self.y = as_seq(x), as_seq(y)
        q = sk("q", 0, self.x.nt)
        c = C()
        if not c.entails_q(self.y.nt == self.x.nt):
            raise Unsupported("different numbers of points and values")
        a, b = self.y.get(q.e), self.y.get(z3.IntVal(0))
        if a.ndim != b.ndim or not c.entails_q(z3.And(*[_z(u) == _z(v) for u, v in zip(a.shape_t, b.shape_t)])):
            raise Unsupported("values of different shapes")
        self.shape = b.shape_t

    def __call__(self, v):
        j = fint("left", 0)
        t0, t1 = self.x.get(j.e), self.x.get(simp(j.e + 1))
        assume(j.e + 1 < self.x.nt)
        assume(z3.And(_z(t0) <= _z(v), _z(v) <= _z(t1)))
        y0, y1 = self.y.get(j.e), self.y.get(simp(j.e + 1))
        self.left = j
        return SArr(self.shape, lambda ix: y0.get(ix) + (v - t0) / (t1 - t0) * (y1.get(ix) - y0.get(ix)), "float")


def interpolation():
    made = []

    def interp1d(x, y, axis=-1, **kw):
        if kw:
            raise Unsupported("options of interp1d")
        made.append(Interp1d(x, y, axis))
        return made[-1]
    sp = types.SimpleNamespace(interp1d=interp1d)
    w, qm = load({"scipy": types.SimpleNamespace(interpolate=sp, stats=None), "scipy.interpolate": sp})
    T, s = fint("T", 2), fint("size", 1)
    f = C().fresh_fun("time", [I], R)
    a, b = z3.Ints("$a $b")
    C().assume(z3.ForAll([a, b], z3.Implies(z3.And(a >= 0, a < b, b < T.e), f(a) < f(b)), patterns=[z3.MultiPattern(f(a), f(b))]))
    inner = Inner(s)
    t = qm.qt.TimeSeriesType(flist(T, lambda i: SN(f(_z(i)))), inner)
    st = Store(T * s)
    assume(st.N >= 1)
    root = qm.QuantityStorage(st, t)
    v = freal("when")
    j = sk("j", 0, T - 1)
    assume(z3.And(f(j.e) <= v.e, v.e <= f(j.e + 1)))
    r = root.time_interpolation(v)
    prove("type of the value", z3.BoolVal(r.qtype is inner))
    y = r.samples(Spec(fint("chunk", 0), fint("level", 0)))
    cover("evaluated")
    left = made[0].left
    for x, z in ((left.e, j.e), (left.e, j.e + 1), (left.e + 1, j.e), (left.e + 1, j.e + 1)):
        assume(z3.Implies(z3.And(x < z, z < T.e), f(x) < f(z)))
        assume(z3.Implies(z3.And(z < x, x < T.e), f(z) < f(x)))
    for x, z in ((left.e + 1, j.e), (j.e + 1, left.e)):
        assume(z3.Implies(z3.And(x < z), f(x) < f(z)))
    prove("components", SN(_z(y.shape[0])) == s)
    m, i, p = sk("m", 0, s), sk("i", 0, st.N), sk("p", 0, 2)
    y0, y1 = SN(st.val((j * s + m).e, i.e, p.e)), SN(st.val(((j + 1) * s + m).e, i.e, p.e))
    t0, t1 = SN(f(j.e)), SN(f(j.e + 1))
    got = y.get((m.e, i.e, p.e))
    prove("neighbouring times", z3.Or(left.e == j.e, z3.And(left.e == j.e + 1, v.e == f(j.e + 1)), z3.And(left.e == j.e - 1, v.e == f(j.e))))
    want = y0 + (v - t0) / (t1 - t0) * (y1 - y0)

    def same():
        assume(left.e == j.e)
        prove_eq("linear between the neighbouring times", SN(z3.substitute(got.e, (left.e, j.e))), want)

    def right():
        assume(z3.And(left.e == j.e + 1, v.e == f(j.e + 1)))
        prove_eq("at the right time", SN(z3.substitute(got.e, (left.e, simp(j.e + 1)))), want)

    def leftmost():
        assume(z3.And(left.e == j.e - 1, v.e == f(j.e)))
        prove_eq("at the left time", SN(z3.substitute(got.e, (left.e, simp(j.e - 1)))), want)
    for fn in (same, right, leftmost):
        cases(fn)


HARNESSES = [times, locations, quantities, part, layout, layout_inside, array_index, array_slice, composed(1), composed(2), composed(3), composed(4), mean_items, mean_parts, interpolation]
