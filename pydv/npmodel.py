"""pydv.npmodel - the part of numpy the code under proof uses, on symbolic arrays (numbers are mathematical reals)."""
import builtins
import types
import math
import z3
from .core import C, Unsupported, _z, I, R, B
from . import terms
from .values import (SNum, SBool, SStr, SBytes, SN, SB, Sym, Seq, PList, PDict, PSet, SRange, SIter, simp, merge, subst, num_parts, bool_term,
                     is_sym, as_seq, compress as _compress, to_int, to_float, _or, real, Opaque, n_ceil, n_floor, n_round, n_sqrt, n_exp,
                     n_log, n_exp2, n_log2, num_pow, SIN, COS, POW, Str, SymObj)
from .arr import (SArr, elem1, elem2, elemn, dim, r_max, r_min, r_sum, same_dim, bshape, brd, ix, iadd, imul, _cast, vkind, rkind,
                  _prod, div)

nan = float("nan")
inf = float("inf")
pi = math.pi
newaxis = None
ndarray = SArr


class TypeMark:
    """stands for a python/numpy scalar type: callable and usable as dtype / in isinstance"""
    def __init__(self, name, py, conv):
        self.__name__ = name
        self.pv_type = py
        self.conv = conv

    def __call__(self, *a, **k):
        return self.conv(*a, **k)

    def __repr__(self):
        return "<class %r>" % self.__name__

    def __getattr__(self, n):
        if n.startswith("__"):
            raise AttributeError(n)
        return getattr(self.pv_type, n)

    def __or__(self, o):
        return (self, o)


def _conv_int(x=0, *a):
    if isinstance(x, (str, bytes)) or a:
        return builtins.int(x, *a)
    r = to_int(x)
    return r


def _conv_float(x=0.0):
    if isinstance(x, SStr):
        raise Unsupported("float of symbolic string")
    return to_float(x)


def _conv_bool(x=False):
    return builtins.bool(x)


INT = TypeMark("int", builtins.int, _conv_int)
FLOAT = TypeMark("float", builtins.float, _conv_float)
BOOL = TypeMark("bool", builtins.bool, _conv_bool)
float = float64 = float_ = double = floating = FLOAT
int = int64 = int32 = int16 = int_ = integer = uint32 = uint64 = intp = INT
bool = bool_ = BOOL
object = object_ = TypeMark("object", builtins.object, builtins.object)


class VisibleDeprecationWarning(Warning):
    pass


class DType:
    def __init__(self, kind, sub=()):
        self.kind = kind
        self.sub = tuple(sub)

    def __eq__(self, o):
        try:
            return self.kind == kind_of(o)
        except Unsupported:
            return False

    def __ne__(self, o):
        return not self == o

    def __hash__(self):
        return hash(self.kind)


def dtype(spec):
    if isinstance(spec, DType):
        return spec
    if isinstance(spec, tuple) and len(spec) == 2:
        base = dtype(spec[0])
        shp = spec[1] if isinstance(spec[1], (tuple, list)) else (spec[1],)
        return DType(base.kind, tuple(shp) + base.sub)
    if isinstance(spec, dict):
        return RecDType(spec)
    return DType(kind_of(spec))


class RecDType:
    def __init__(self, spec):
        self.names = tuple(spec["names"])
        self.formats = tuple(spec["formats"])
        self.kind = "rec"
        self.sub = ()


def kind_of(t):
    if t is None:
        return "float"
    if isinstance(t, DType):
        return t.kind
    if not isinstance(t, TypeMark) and hasattr(t, "pv_type"):
        t = t.pv_type
    if isinstance(t, RecDType):
        return "rec"
    if t is builtins.float or (isinstance(t, TypeMark) and t.pv_type is builtins.float) or t in ("float", "float64", "f8", "d", "f"):
        return "float"
    if t is builtins.int or (isinstance(t, TypeMark) and t.pv_type is builtins.int) or t in ("int", "int32", "int64", "uint32", "i"):
        return "int"
    if t is builtins.bool or (isinstance(t, TypeMark) and t.pv_type is builtins.bool) or t == "bool":
        return "bool"
    if t is builtins.object or isinstance(t, TypeMark) and t.pv_type is builtins.object or t == "object":
        return "obj"
    if isinstance(t, str) and t[:1] in "SU" or t is builtins.str or getattr(t, "__name__", "") in ("str", "str_"):
        return "str"
    raise Unsupported("dtype %r" % (t,))


def _shape(s):
    if isinstance(s, (tuple, builtins.list)):
        return [dim(d) for d in s]
    if isinstance(s, SArr) and s.ndim == 1:
        return [dim(d) for d in s]
    return [dim(s)]


def _chk(shape):
    c = C()
    for d in shape:
        if not isinstance(d, builtins.int):
            if not c.branch(d >= 0):
                raise ValueError("negative dimensions are not allowed")
        elif d < 0:
            raise ValueError("negative dimensions are not allowed")
    return shape


def _new(shape, dt, val):
    d = dtype(dt) if dt is not None else DType("float")
    if isinstance(d, RecDType):
        raise Unsupported("record arrays")
    shape = _chk(_shape(shape)) + [dim(x) for x in d.sub]
    return SArr(shape, lambda idx: _cast(val, d.kind), d.kind)


def zeros(shape, dtype=None, **k):
    return _new(shape, dtype, 0)


def ones(shape, dtype=None, **k):
    return _new(shape, dtype, 1)


def full(shape, fill_value, dtype=None, **k):
    shp = _chk(_shape(shape))
    if isinstance(fill_value, SArr):
        v = broadcast_to(fill_value, shp)
        return v.copy()
    kd = kind_of(dtype) if dtype is not None else vkind(fill_value)
    return SArr(shp, lambda idx: _cast(fill_value, kd), kd)


def empty(shape, dtype=None, **k):
    d = globals()["dtype"](dtype) if dtype is not None else DType("float")
    if isinstance(d, RecDType):
        raise Unsupported("record arrays")
    shp = _chk(_shape(shape)) + [dim(x) for x in d.sub]
    if d.kind == "obj":
        return SArr(shp, lambda idx: None, "obj")
    sort = {"float": R, "int": I, "bool": B}.get(d.kind)
    if sort is None:
        raise Unsupported("empty of kind " + d.kind)
    f = C().unique_fun("uninit", [I] * len(shp), sort)
    if d.kind == "bool":
        return SArr(shp, lambda idx: SB(f(*idx)), "bool")
    return SArr(shp, lambda idx: SNum(f(*idx)), d.kind)


def zeros_like(a, dtype=None, **k):
    a = array(a)
    return SArr(a.shape_t, lambda idx: _cast(0, kind_of(dtype) if dtype is not None else a.kind), kind_of(dtype) if dtype is not None else a.kind)


def ones_like(a, dtype=None, **k):
    a = array(a)
    kd = kind_of(dtype) if dtype is not None else a.kind
    return SArr(a.shape_t, lambda idx: _cast(1, kd), kd)


def empty_like(a, dtype=None, **k):
    a = array(a)
    return empty(a.shape, dtype=dtype if dtype is not None else DType(a.kind))


def full_like(a, v, **k):
    a = array(a)
    return SArr(a.shape_t, lambda idx: _cast(v, a.kind), a.kind)


def array(x, dtype=None, copy=True, ndmin=0, **k):
    if isinstance(x, SArr):
        r = x.copy()
        return r if dtype is None else r.astype(dtype)
    kd = kind_of(dtype) if dtype is not None else None
    if kd == "rec":
        raise Unsupported("record arrays")
    r = _build(x, kd)
    if kd is not None and isinstance(r, SArr) and r.kind != kd:
        r = r.astype(dtype)
    return r


asarray = asanyarray = lambda x, dtype=None, **k: x if isinstance(x, SArr) and dtype is None else array(x, dtype)


def _elem_shape(v):
    """('scalar', kind) | ('seq', n, elem)"""
    if isinstance(v, SArr):
        return ("arr", v)
    if isinstance(v, (builtins.tuple, builtins.list, SRange, builtins.range)):
        return ("seq", as_seq(v))
    return ("scalar", vkind(v))


def _build(x, kd=None):
    e = _elem_shape(x)
    if e[0] == "scalar":
        return SArr((), lambda idx: x, vkind(x))
    s = e[1]
    if s.concrete() and s.n == 0:
        return SArr((0,), lambda idx: 0.0, "float")
    # structure of a generic element
    if s.concrete():
        elems = [s.get(i) for i in range(s.n)]
        shapes = [_elem_shape(v) for v in elems]
        if builtins.all(t[0] == "scalar" for t in shapes):
            kind = rkind(*[t[1] for t in shapes])
            if "str" in [t[1] for t in shapes] and not builtins.all(t[1] == "str" for t in shapes):
                kind = "obj"
            return SArr((s.n,), lambda idx: _cast(s.get(idx[0]), kind), kind)
        if builtins.any(t[0] == "scalar" for t in shapes):
            return SArr((s.n,), lambda idx: s.get(idx[0]), "obj")
        subs = [v if isinstance(v, SArr) else _build(v) for v in elems]
        if not builtins.all(isinstance(q, SArr) for q in subs):
            raise Unsupported("array of objects")
        nd = subs[0].ndim
        common = []
        ragged = builtins.any(q.ndim != nd for q in subs)
        if not ragged:
            for a in range(nd):
                d = subs[0].shape_t[a]
                for q in subs[1:]:
                    sd = same_dim(d, q.shape_t[a])
                    if sd is None:
                        sd = C().branch(_z(d) == _z(q.shape_t[a]))
                    if not sd:
                        ragged = True
                common.append(d)
        obj = [q.kind == "obj" for q in subs]
        if ragged or (builtins.any(obj) and kd != "obj" and False):
            return SArr((s.n,), lambda idx: s.get(idx[0]), "obj")
        if builtins.any(obj):
            # nested objects: keep the common leading dimensions
            rds = [q.reader() for q in subs]
            return SArr([s.n] + common, lambda idx: _sel(idx[0], [r(tuple(idx[1:])) for r in rds] if not isinstance(idx[0], builtins.int) else None, rds, idx), "obj")
        kind = rkind(*[q.kind for q in subs])
        rds = [q.reader() for q in subs]

        def fn(idx):
            if isinstance(idx[0], builtins.int):
                return _cast(rds[idx[0]](tuple(idx[1:])), kind)
            r = rds[-1](tuple(idx[1:]))
            for k in range(len(rds) - 2, -1, -1):
                r = merge(simp(_z(idx[0]) == k), rds[k](tuple(idx[1:])), r)
            return _cast(r, kind)
        return SArr([s.n] + common, fn, kind)
    # symbolic length: the elements must have a common structure
    c = C()
    k0 = c.fresh_const("ei", I)
    v = s.get(k0)
    e = _elem_shape(v)
    if e[0] == "scalar":
        kind = e[1]
        return SArr((s.n,), lambda idx: s.get(idx[0]), kind)
    if e[0] == "seq":
        sub = e[1]
        if not sub.concrete():
            nn = sub.nt
            if terms.occurs(nn, k0):
                raise Unsupported("ragged array")
            inner = sub.get(c.fresh_const("ej", I))
            if _elem_shape(inner)[0] != "scalar":
                raise Unsupported("nested symbolic array")
            return SArr((s.n, nn), lambda idx: as_seq(s.get(idx[0])).get(idx[1]), vkind(inner))
        parts = [sub.get(i) for i in range(sub.n)]
        shp = [_elem_shape(p) for p in parts]
        if builtins.all(t[0] == "scalar" for t in shp):
            ks = [t[1] for t in shp]
            kind = rkind(*ks) if not ("str" in ks and set(ks) != {"str"}) else "obj"
            return SArr((s.n, sub.n), lambda idx: _cast(as_seq(s.get(idx[0])).get(idx[1]), kind), kind)
        if builtins.any(t[0] == "scalar" for t in shp):
            # ragged: an object array with the elements of the inner sequences
            return SArr((s.n, sub.n), lambda idx: as_seq(s.get(idx[0])).get(idx[1]) if isinstance(idx[1], builtins.int) else _bad(), "obj")
        subs = _build(builtins.tuple(parts))
        if subs.kind == "obj":
            raise Unsupported("array of nested objects")
        for d in subs.shape_t:
            if not isinstance(d, builtins.int) and terms.occurs(d, k0):
                raise Unsupported("ragged array")
        return SArr([s.n] + list(subs.shape_t), lambda idx: _build(as_seq(s.get(idx[0])).parts if False else builtins.tuple(as_seq(s.get(idx[0])).get(i) for i in range(sub.n))).get(tuple(idx[1:])), subs.kind)
    sub = e[1]
    for d in sub.shape_t:
        if not isinstance(d, builtins.int) and terms.occurs(d, k0):
            raise Unsupported("ragged array")
    return SArr([s.n] + list(sub.shape_t), lambda idx: s.get(idx[0]).get(tuple(idx[1:])), sub.kind)


range = builtins.range


def _bad():
    raise Unsupported("symbolic index into an object row")


def _sel(i, vals, rds, idx):
    if isinstance(i, builtins.int):
        return rds[i](tuple(idx[1:]))
    r = vals[-1]
    for k in builtins.range(len(vals) - 2, -1, -1):
        r = merge(simp(_z(i) == k), vals[k], r)
    return r


tuple = builtins.tuple


def atleast_1d(x):
    a = asarray(x)
    if not isinstance(a, SArr):
        raise Unsupported("atleast_1d")
    if a.ndim == 0:
        v = a.get(())
        return SArr((1,), lambda idx: v, a.kind)
    return a


def atleast_2d(x):
    a = atleast_1d(x)
    return a[None, :] if a.ndim == 1 else a


def arange(*a, dtype=None):
    if len(a) == 1:
        lo, hi, st = 0, a[0], 1
    elif len(a) == 2:
        lo, hi, st = a[0], a[1], 1
    else:
        lo, hi, st = a
    if st != 1 or builtins.any(isinstance(v, builtins.float) for v in (lo, hi)):
        if builtins.all(isinstance(v, (builtins.int, builtins.float)) for v in (lo, hi, st)):
            n = builtins.max(0, math.ceil((hi - lo) / st))
            return SArr((n,), lambda idx: lo + SN(_z(idx[0])) * st, "float" if builtins.any(isinstance(v, builtins.float) for v in (lo, hi, st)) else "int")
        raise Unsupported("arange step")
    n = dim(SRange(lo, hi).seq().n)
    return SArr((n,), lambda idx: lo + SN(_z(idx[0])), "int")


def linspace(start, stop, num=50, endpoint=True, **k):
    n = dim(num)
    if not endpoint:
        raise Unsupported("linspace endpoint")
    nm1 = SN(_z(n) - 1) if not isinstance(n, builtins.int) else n - 1

    def fn(idx):
        i = idx[0]
        s0 = to_float(start) if is_sym(start) else start
        if isinstance(n, builtins.int) and n == 1:
            return s0
        iv = SN(_z(i)) if not isinstance(i, builtins.int) else i
        inner = s0 + iv * ((stop - s0) / nm1)
        last = simp(_z(i) == _z(n) - 1)
        first = simp(_z(i) == 0)
        r = merge(last, stop, inner)
        return merge(first, s0, r)
    return SArr(_chk([n]), fn, "float")


def geomspace(start, stop, num=50, endpoint=True, **k):
    a = linspace(log(start), log(stop), num, endpoint)
    return exp(a)


def logspace(start, stop, num=50, endpoint=True, base=10.0, **k):
    return power(base, linspace(start, stop, num, endpoint))


def concatenate(arrs, axis=0, **k):
    s = as_seq(arrs) if not isinstance(arrs, SArr) else arrs.as_seq()
    if not s.concrete():
        raise Unsupported("concatenate of a symbolic number of arrays")
    arrs = [asarray(s.get(i)) for i in builtins.range(s.n)]
    nd = arrs[0].ndim
    if builtins.any(a.ndim != nd for a in arrs):
        raise ValueError("all the input array dimensions must match")
    if nd == 0:
        raise ValueError("zero-dimensional arrays cannot be concatenated")
    axis = axis % nd
    shp = list(arrs[0].shape_t)
    for a in arrs[1:]:
        for d in builtins.range(nd):
            if d != axis:
                sd = same_dim(shp[d], a.shape_t[d])
                if sd is None:
                    sd = C().branch(_z(shp[d]) == _z(a.shape_t[d]))
                if not sd:
                    raise ValueError("all the input array dimensions except for the concatenation axis must match exactly")
    tot = 0
    offs = []
    for a in arrs:
        offs.append(tot)
        tot = iadd(tot, a.shape_t[axis])
    shp[axis] = tot
    rds = [a.reader() for a in arrs]
    nonempty = [a for a in arrs if not (isinstance(a.shape_t[axis], builtins.int) and a.shape_t[axis] == 0)]
    kind = rkind(*[a.kind for a in (nonempty or arrs)])

    def fn(idx):
        i = idx[axis]
        at = lambda k: rds[k](tuple(idx[:axis]) + (iadd(i, imul(-1, offs[k])),) + tuple(idx[axis + 1:]))
        if isinstance(i, builtins.int) and builtins.all(isinstance(o, builtins.int) for o in offs):
            for k in builtins.range(len(rds) - 1, -1, -1):
                if i >= offs[k] and not (isinstance(arrs[k].shape_t[axis], builtins.int) and arrs[k].shape_t[axis] == 0):
                    return _cast(at(k), kind)
        live = [k for k in builtins.range(len(rds)) if not (isinstance(arrs[k].shape_t[axis], builtins.int) and arrs[k].shape_t[axis] == 0)]
        r = at(live[-1])
        for k in reversed(live[:-1]):
            r = merge(simp(_z(i) < _z(iadd(offs[k], arrs[k].shape_t[axis]))), at(k), r)
        return _cast(r, kind)
    return SArr(shp, fn, kind)


def hstack(arrs):
    arrs = [atleast_1d(a) for a in arrs]
    return concatenate(arrs, axis=0 if arrs[0].ndim == 1 else 1)


def vstack(arrs):
    return concatenate([atleast_2d(a) for a in arrs], axis=0)


def stack(arrs, axis=0):
    return array(list(arrs)) if axis == 0 else moveaxis(array(list(arrs)), 0, axis)


list = builtins.list


def column_stack(arrs):
    return concatenate([a if a.ndim == 2 else a[:, None] for a in [asarray(a) for a in arrs]], axis=1)


def moveaxis(a, src, dst):
    ax = [i for i in builtins.range(a.ndim) if i != src % a.ndim]
    ax.insert(dst % a.ndim, src % a.ndim)
    return a.transpose(ax)


def split(a, sections, axis=0):
    a = asarray(a)
    axis %= a.ndim
    n = a.shape_t[axis]
    if isinstance(sections, (builtins.int, SNum)):
        if isinstance(sections, SNum) or not isinstance(n, builtins.int):
            raise Unsupported("split into symbolic sections")
        if n % sections:
            raise ValueError("array split does not result in an equal division")
        cuts = [n // sections * i for i in builtins.range(1, sections)]
    else:
        s = as_seq(sections)
        if not s.concrete():
            def part(j):
                j = _z(j)
                lo = z3.If(j == 0, z3.IntVal(0), _z(s.get(simp(j - 1))))
                hi = z3.If(j == s.nt, _z(n), _z(s.get(j)))
                c = C()
                if not c.entails_q(z3.And(lo >= 0, lo <= hi, hi <= _z(n))):
                    raise Unsupported("split at places that may be out of order")
                return a[tuple([slice(None)] * axis + [slice(SN(simp(lo)), SN(simp(hi)))])]
            return PList(_seq=Seq(simp(s.nt + 1), part))
        cuts = [s.get(i) for i in builtins.range(s.n)]
    cuts = [0] + cuts + [SN(_z(n))]
    return PList([a[tuple([slice(None)] * axis + [slice(cuts[i], cuts[i + 1])])] for i in builtins.range(len(cuts) - 1)])


def transpose(a, axes=None):
    return asarray(a).transpose() if axes is None else asarray(a).transpose(axes)


def reshape(a, s):
    return asarray(a).reshape(s)


def squeeze(a, axis=None):
    return asarray(a).squeeze(axis)


def broadcast_to(a, shape):
    a = asarray(a)
    shp = _shape(shape)
    o = bshape(a.shape_t, shp)
    return SArr(o, brd(a, len(o), o), a.kind)


def expand_dims(a, axis):
    a = asarray(a)
    axis = axis % (a.ndim + 1)
    return a[tuple([slice(None)] * axis + [None])]


def ravel(a):
    return asarray(a).flatten()


def repeat(a, n, axis=None):
    raise Unsupported("repeat")


def tile(a, n):
    raise Unsupported("tile")


# ------------------------------------------------------------------ reductions
def _red(name):
    def f(a, axis=None, **k):
        if isinstance(a, (SNum, SBool, builtins.int, builtins.float)):
            return a
        if isinstance(a, (SIter, SRange)):
            a = PList(a)
        a = asarray(a)
        k = {kk: v for kk, v in k.items() if kk in ("keepdims",)}
        return getattr(a, name)(axis=axis, **k)
    f.__name__ = name
    return f


sum = _red("sum")
any = _red("any")
all = _red("all")
max = amax = _red("max")
min = amin = _red("min")
mean = _red("mean")


def prod(a, axis=None, **k):
    if isinstance(a, builtins.tuple) or isinstance(a, builtins.list) and as_seq(a).concrete():
        r = 1
        for v in a:
            r = r * v
        return r
    if isinstance(a, (SNum, builtins.int, builtins.float)):
        return a
    return asarray(a).prod(axis=axis)


product = prod


def cumsum(a, axis=None, **k):
    a = asarray(a)
    if a.ndim != 1:
        raise Unsupported("cumsum")
    rd = a.reader()
    if isinstance(a.shape_t[0], builtins.int):
        vals = []
        t = 0
        for i in builtins.range(a.shape_t[0]):
            t = t + rd((i,))
            vals.append(t)
        return array(vals)
    return SArr(a.shape_t, lambda idx: r_sum(iadd(idx[0], 1), lambda j: rd((j,))), a.kind)


def count_nonzero(a, axis=None):
    a = asarray(a)
    b = a if a.kind == "bool" else elem1(lambda v: SB(bool_term(v)), a, "bool")
    return elem1(lambda v: (builtins.int(v) if isinstance(v, builtins.bool) else SN(z3.If(v.e, z3.IntVal(1), z3.IntVal(0)))), b, "int").sum(axis=axis)


def isnan(a):
    def f(v):
        if isinstance(v, builtins.float):
            return v != v
        if isinstance(v, SNum):
            return SB(v.nan) if v.nan is not None else False
        if isinstance(v, (builtins.int, SBool)):
            return False
        raise TypeError("ufunc 'isnan' not supported for the input types")
    a = asarray(a) if isinstance(a, builtins.list) else a
    return elem1(f, a, "bool")


def isfinite(a):
    return elem1(lambda v: (not v) if isinstance(v, builtins.bool) else ~v, isnan(a), "bool")


def _u1(f, kind="float"):
    def g(a, *r, **k):
        if hasattr(type(a), "__array_ufunc__") and not isinstance(a, SArr):
            return a.__array_ufunc__(g, "__call__", a, *r, **k)
        if isinstance(a, (builtins.list, builtins.tuple)):
            a = array(a)
        return elem1(f, a, kind)
    g.__call__ = g
    return g


class UFunc:
    """elementwise function; operands with __array_ufunc__ (Quantity) get the call"""
    def __init__(self, name, f, nin, kind):
        self.__name__ = name
        self.f, self.nin, self.kind = f, nin, kind

    def __call__(self, *a, **k):
        for x in a:
            if not isinstance(x, SArr) and getattr(type(x), "__array_ufunc__", None) is not None and not is_sym(x):
                return type(x).__array_ufunc__(x, self, "__call__", *a, **k)
        k.pop("dtype", None)
        if k:
            raise Unsupported("ufunc keyword " + str(k))
        a = [array(x) if isinstance(x, (builtins.list, builtins.tuple)) else x for x in a]
        if builtins.len(a) != self.nin:
            raise TypeError("ufunc argument count")
        kd = self.kind or rkind(*[vkind(x) for x in a])
        return elemn(self.f, a, kd)

    def reduce(self, a, axis=0, **k):
        if self.__name__ in ("add",):
            return sum(a, axis=axis)
        if self.__name__ == "logical_and":
            return all(a, axis=axis)
        if self.__name__ == "logical_or":
            return any(a, axis=axis)
        if self.__name__ == "maximum":
            return max(a, axis=axis)
        raise Unsupported("ufunc.reduce")


def _abs(v):
    return builtins.abs(v)


def n_sin(v):
    e, na = num_parts(v)
    return SN(SIN(simp(real(e))), na)


def n_cos(v):
    e, na = num_parts(v)
    return SN(COS(simp(real(e))), na)


def _nat(f, pf):
    def g(v):
        if isinstance(v, (builtins.int, builtins.float)) and not isinstance(v, builtins.bool):
            if v != v:
                return v
        return f(v)
    return g


sqrt = UFunc("sqrt", _nat(n_sqrt, math.sqrt), 1, "float")
exp = UFunc("exp", _nat(n_exp, math.exp), 1, "float")
log = UFunc("log", _nat(n_log, math.log), 1, "float")
exp2 = UFunc("exp2", n_exp2, 1, "float")
log2 = UFunc("log2", n_log2, 1, "float")
ceil = UFunc("ceil", n_ceil, 1, "float")
floor = UFunc("floor", n_floor, 1, "float")
rint = UFunc("rint", n_round, 1, "float")
abs = absolute = fabs = UFunc("abs", _abs, 1, None)
sin = UFunc("sin", n_sin, 1, "float")
cos = UFunc("cos", n_cos, 1, "float")
negative = UFunc("negative", lambda a: -a, 1, None)
square = UFunc("square", lambda a: a * a, 1, None)


def round(a, decimals=0):
    if decimals != 0:
        raise Unsupported("round decimals")
    a = asarray(a) if isinstance(a, builtins.list) else a
    return elem1(n_round, a)


around = round_ = round


def _mx(a, b):
    pa, pb = num_parts(a), num_parts(b)
    x, y = pa[0], pb[0]
    if z3.is_int(x) != z3.is_int(y):
        x, y = real(x), real(y)
    return SN(z3.If(x >= y, x, y), _or(pa[1], pb[1]))


def _mn(a, b):
    pa, pb = num_parts(a), num_parts(b)
    x, y = pa[0], pb[0]
    if z3.is_int(x) != z3.is_int(y):
        x, y = real(x), real(y)
    return SN(z3.If(x <= y, x, y), _or(pa[1], pb[1]))


maximum = UFunc("maximum", _mx, 2, None)
minimum = UFunc("minimum", _mn, 2, None)
fmax = maximum
greater = UFunc("greater", lambda a, b: a > b, 2, "bool")
greater_equal = UFunc("greater_equal", lambda a, b: a >= b, 2, "bool")
less = UFunc("less", lambda a, b: a < b, 2, "bool")
less_equal = UFunc("less_equal", lambda a, b: a <= b, 2, "bool")
equal = UFunc("equal", lambda a, b: a == b, 2, "bool")
not_equal = UFunc("not_equal", lambda a, b: a != b, 2, "bool")


def _band(a, b):
    return SB(z3.And(bool_term(a), bool_term(b)))


def _bor(a, b):
    return SB(z3.Or(bool_term(a), bool_term(b)))


logical_and = UFunc("logical_and", _band, 2, "bool")
logical_or = UFunc("logical_or", _bor, 2, "bool")
logical_xor = UFunc("logical_xor", lambda a, b: SB(z3.Xor(bool_term(a), bool_term(b))), 2, "bool")
logical_not = UFunc("logical_not", lambda a: SB(z3.Not(bool_term(a))), 1, "bool")
add = UFunc("add", lambda a, b: a + b, 2, None)
subtract = UFunc("subtract", lambda a, b: a - b, 2, None)
multiply = UFunc("multiply", lambda a, b: a * b, 2, None)
divide = true_divide = UFunc("divide", lambda a, b: div(a, b), 2, "float")
power = UFunc("power", lambda a, b: num_pow(a, b), 2, None)
mod = remainder = UFunc("mod", lambda a, b: a % b, 2, None)


def clip(a, lo, hi):
    r = a
    if lo is not None:
        r = maximum(r, lo)
    if hi is not None:
        r = minimum(r, hi)
    return r


def where(cond, *xy):
    if not xy:
        return nonzero(cond)
    args = [array(x) if isinstance(x, (builtins.list, builtins.tuple)) else x for x in (cond,) + xy]
    return elemn(lambda c, x, y: merge(bool_term(c), x, y), args, rkind(vkind(args[1]), vkind(args[2])))


def nonzero(a):
    a = asarray(a)
    if a.ndim != 1:
        raise Unsupported("nonzero of n-d array")
    rd = a.reader()
    n = a.shape_t[0]
    if isinstance(n, builtins.int):
        vals = [rd((i,)) for i in builtins.range(n)]
        if builtins.all(isinstance(v, builtins.bool) for v in vals):
            pos = [i for i, v in enumerate(vals) if v]
            return (array(pos) if pos else SArr((0,), lambda idx: 0, "int"),)
    m, sel, rank = _compress(_z(n), lambda t: bool_term(rd((t,))))
    r = SArr((m,), lambda idx: SN(sel(_z(idx[0]))), "int")
    r.sel_of = (rd, n)
    return (r,)


def compress(condition, a, axis=None):
    if axis is None:
        raise Unsupported("compress of a flat array")
    a = asarray(a)
    axis = axis % a.ndim
    return a[tuple([slice(None)] * axis + [asarray(condition)])]


argwhere = None
flatnonzero = lambda a: nonzero(a)[0]


def dot(a, b):
    a, b = asarray(a), asarray(b)
    if a.ndim == 0 or b.ndim == 0:
        return a * b
    return matmul(a, b)


def matmul(a, b):
    a, b = asarray(a), asarray(b)
    if a.ndim == 0 or b.ndim == 0:
        raise ValueError("matmul: input operand does not have enough dimensions")
    ar, br = a.reader(), b.reader()
    ka = a.shape_t[-1]
    kb = b.shape_t[0] if b.ndim == 1 else b.shape_t[-2]
    s = same_dim(ka, kb)
    if s is None:
        s = C().branch(_z(ka) == _z(kb))
    if not s:
        raise ValueError("matmul: mismatch in core dimension")
    k = ka if isinstance(ka, builtins.int) else kb if isinstance(kb, builtins.int) else ka
    kind = rkind(a.kind, b.kind)
    if b.ndim == 1:
        f = lambda idx: r_sum(k, lambda j: ar(tuple(idx) + (j,)) * br((j,)))
        shp = a.shape_t[:-1]
        return SArr(shp, f, kind) if shp else f(())
    if a.ndim == 1:
        if b.ndim != 2:
            raise Unsupported("matmul 1d x nd")
        return SArr((b.shape_t[1],), lambda idx: r_sum(k, lambda j: ar((j,)) * br((j, idx[0]))), kind)
    if b.ndim == 2:
        return SArr(a.shape_t[:-1] + (b.shape_t[1],), lambda idx: r_sum(k, lambda j: ar(tuple(idx[:-1]) + (j,)) * br((j, idx[-1]))), kind)
    raise Unsupported("batched matmul")


def outer(a, b):
    a, b = asarray(a).flatten(), asarray(b).flatten()
    ar, br = a.reader(), b.reader()
    return SArr((a.shape_t[0], b.shape_t[0]), lambda idx: ar((idx[0],)) * br((idx[1],)), rkind(a.kind, b.kind))


def einsum(spec, *ops, **k):
    spec = spec.replace(" ", "")
    ops = [asarray(o) for o in ops]
    if "->" in spec:
        ins, out = spec.split("->")
    else:
        ins, out = spec, None
    ins = ins.split(",")
    if len(ins) != len(ops):
        raise ValueError("einsum operands")
    ell = 0
    for s, o in zip(ins, ops):
        if "..." in s:
            ell = builtins.max(ell, o.ndim - len(s.replace("...", "")))
    elln = ["#%d" % i for i in builtins.range(ell)]
    labs = []
    for s, o in zip(ins, ops):
        if "..." in s:
            p = s.index("...")
            m = o.ndim - len(s.replace("...", ""))
            l = list(s[:p]) + (elln[ell - m:] if m else []) + list(s[p + 3:])
        else:
            l = list(s)
        if len(l) != o.ndim:
            raise ValueError("einsum subscripts")
        labs.append(l)
    dims = {}
    for l, o in zip(labs, ops):
        for a, x in enumerate(l):
            d = o.shape_t[a]
            if x in dims:
                if isinstance(dims[x], builtins.int) and dims[x] == 1:
                    dims[x] = d
                    continue
                sd = same_dim(dims[x], d)
                if sd is None:
                    sd = C().branch(_z(dims[x]) == _z(d))
                if not sd:
                    raise ValueError("einsum dimensions")
            else:
                dims[x] = d
    if out is None:
        cnt = {}
        for l in labs:
            for x in l:
                cnt[x] = cnt.get(x, 0) + 1
        outl = elln + sorted(x for x in cnt if cnt[x] == 1 and not x.startswith("#"))
    else:
        if "..." in out:
            p = out.index("...")
            outl = list(out[:p]) + elln + list(out[p + 3:])
        else:
            outl = list(out)
    summed = [x for x in dims if x not in outl]
    rds = [o.reader() for o in ops]
    kind = rkind(*[o.kind for o in ops])

    def fn(idx):
        env = dict(zip(outl, idx))

        def go(rest, env):
            if rest:
                x = rest[0]
                return r_sum(dims[x], lambda j: go(rest[1:], {**env, x: j}))
            r = None
            for rd, l in zip(rds, labs):
                v = rd(tuple(env[x] for x in l))
                r = v if r is None else r * v
            return r
        return go(summed, env)
    shp = [dims[x] for x in outl]
    return SArr(shp, fn, kind) if shp else fn(())


def array_equal(a, b):
    try:
        a, b = asarray(a), asarray(b)
    except Unsupported:
        raise
    if a.ndim != b.ndim:
        return False
    for x, y in zip(a.shape_t, b.shape_t):
        s = same_dim(x, y)
        if s is None:
            s = C().branch(_z(x) == _z(y))
        if not s:
            return False
    return builtins.bool((a == b).all()) if a.ndim else builtins.bool(a.get(()) == b.get(()))


def allclose(a, b, **k):
    raise Unsupported("allclose")


def unique(a, **k):
    raise Unsupported("unique")


def eye(n, *a, **k):
    n = dim(n)
    return SArr((n, n), lambda idx: merge(simp(_z(idx[0]) == _z(idx[1])), 1.0, 0.0), "float")


identity = eye


def diag(a):
    a = asarray(a)
    rd = a.reader()
    if a.ndim == 1:
        n = a.shape_t[0]
        return SArr((n, n), lambda idx: merge(simp(_z(idx[0]) == _z(idx[1])), rd((idx[0],)), 0.0), a.kind)
    return SArr((a.shape_t[0],), lambda idx: rd((idx[0], idx[0])), a.kind)


def isscalar(x):
    return isinstance(x, (builtins.int, builtins.float, SNum, SBool, str))


def ndim(a):
    return asarray(a).ndim


def shape(a):
    return asarray(a).shape


def size(a):
    return asarray(a).size


def copy(a):
    return asarray(a).copy()


def isclose(*a, **k):
    raise Unsupported("isclose")


def frombuffer(buf, dtype=None, **k):
    if hasattr(type(buf), "__pv_words__"):
        return buf.__pv_words__(dtype)
    raise Unsupported("frombuffer")


def seterr(*a, **k):
    return {}


class errstate:
    def __init__(self, **k): pass
    def __enter__(self): return self
    def __exit__(self, *a): return False


# ------------------------------------------------------------------ random numbers: arbitrary values
class _Rnd(types.SimpleNamespace):
    pass


random = _Rnd()
random.seed = lambda *a: None
random.default_rng = lambda *a, **k: _Rng()


class _Rng:
    def choice(self, *a, **k):
        raise Unsupported("random choice")


def _randn(*shape):
    f = C().fresh_fun("randn", [I] * len(shape), R)
    if not shape:
        return SNum(f())
    return SArr([dim(s) for s in shape], lambda idx: SNum(f(*idx)), "float")


random.randn = _randn


def _normal(loc=0.0, scale=1.0, size=None):
    sh = () if size is None else (tuple(size) if isinstance(size, (builtins.tuple, builtins.list)) else (size,))
    return loc + scale * _randn(*sh)


random.normal = _normal
random.RandomState = lambda *a: random

# ------------------------------------------------------------------ masked arrays, polynomials
ma = types.SimpleNamespace()


class _Masked:
    def __init__(self, a, m):
        self.a, self.m = a, m


def _masked_outside(x, v1, v2, **k):
    x = asarray(x)
    p, q = v1, v2
    lo, hi = (p, q)
    if not is_sym(lo) and not is_sym(hi) and hi < lo:
        lo, hi = hi, lo
    m = elem1(lambda v: SB(z3.Or(bool_term(v < lo), bool_term(v > hi))), x, "bool")
    return _Masked(x, m)


def _filled(mx, v):
    return elemn(lambda c, val: merge(bool_term(c), v, val), [mx.m, mx.a], mx.a.kind)


ma.masked_outside = _masked_outside
ma.filled = _filled
ma.masked_array = _Masked

LEG = z3.Function("LEGENDRE", I, R, R)
from .values import IPOW as VPOW
terms.register("LEGENDRE", z3.ForAll([z3.Real("$sx")], LEG(0, z3.Real("$sx")) == 1, patterns=[LEG(0, z3.Real("$sx"))]))


def _vander(F):
    def f(x, deg):
        x = atleast_1d(asarray(x))
        d = dim(deg)
        rd = x.reader()
        n1 = iadd(d, 1)
        if isinstance(d, builtins.int) and d < 0 or not isinstance(d, builtins.int) and not C().branch(d >= 0):
            raise ValueError("deg must be non-negative")

        def fn(idx):
            e, na = num_parts(rd(tuple(idx[:-1])))
            v = F(simp(real(e)), idx[-1])
            return SN(v, na) if not (isinstance(idx[-1], builtins.int) and idx[-1] == 0 and False) else v
        return SArr(list(x.shape_t) + [n1], fn, "float")
    return f


def _ipow(e, i):
    if isinstance(i, builtins.int) and i <= 4:
        r = z3.RealVal(1)
        for _ in builtins.range(i):
            r = r * e
        return r
    return VPOW(e, _z(i))


def _leg(e, i):
    if isinstance(i, builtins.int) and i == 0:
        return z3.RealVal(1)
    if isinstance(i, builtins.int) and i == 1:
        return e
    return LEG(_z(i), e)


polynomial = types.SimpleNamespace(polynomial=types.SimpleNamespace(polyvander=_vander(_ipow)),
                                   legendre=types.SimpleNamespace(legvander=_vander(_leg)))
linalg = types.SimpleNamespace()


def __getattr__(name):
    if name.startswith("__"):
        raise AttributeError(name)
    raise Unsupported("numpy." + name)
