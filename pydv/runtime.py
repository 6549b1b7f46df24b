"""pydv.runtime - what the rewritten code calls: loops, displays, formatting, builtins, small standard-library models."""
import builtins
import copy as _copy
import math as _math
import types
import z3
from .core import C, Unsupported, Infeasible, Control, touch, mutated, tick, BORN, _z, I, R, B
from . import core, terms, values, arr, npmodel, loops
from .values import (SNum, SBool, SStr, SBytes, SN, SB, Sym, Seq, PList, PDict, PSet, SymObj, Opaque, SIter, SRange, _View, simp, merge, subst,
                     num_parts, bool_term, as_seq, is_sym, str_term, eq_term, real, to_int, to_float, str_of, str_format, _deep_sym, n_ceil, n_floor)
from .arr import SArr
from .loops import (CONT, BRK, END, RET, is_ret, SKIP, locs, loop_for, loop_while, comp, vkey, veq, Tok, UNBOUND)


def new_list(*xs):
    return PList(xs)


def new_dict(*kv):
    d = PDict()
    for k, v in kv:
        d[k] = v
    return d


def new_set(*xs):
    return PSet(PList(xs))


def comp_list(x):
    return x


def comp_gen(x):
    return SIter(x.seq())


def comp_set(x):
    return PSet(x)


def comp_dict(x):
    return PDict(x)


def gen_result(out):
    return SIter(out.seq())


def unpack(v, pattern):
    """flat values of a target pattern"""
    if not isinstance(pattern, tuple):
        return (v,)
    items = _elements(v)
    if len(items) != len(pattern):
        raise ValueError("unpack: expected %d values, got %d" % (len(pattern), len(items)))
    out = []
    for x, p in zip(items, pattern):
        out.extend(unpack(x, p))
    return tuple(out)


def _elements(v):
    if isinstance(v, tuple):
        return list(v)
    s = as_seq(v)
    if s is None:
        return list(v)
    if not s.concrete():
        raise Unsupported("unpacking a sequence of symbolic length")
    return [s.get(i) for i in range(s.n)]


def fmt(template, args, kwargs):
    if not isinstance(template, str):
        return template.format(*args, **kwargs)
    return str_format(template, args, kwargs)


def fmtd(template, d):
    """template.format(**d)"""
    if isinstance(template, SStr):
        # symbolic parts are free of braces by contract, so no field spans them
        from . import text
        out = []
        for q in text.pieces(template):
            if q[0] == "t":
                out.extend(text.pieces(fmtd(q[1], d)))
            elif not text.free_of(q, "{}"):
                raise Unsupported("format with a symbolic template")
            else:
                out.append(q)
        return text.build(out)
    if not isinstance(template, str):
        return template.format(**d)
    if isinstance(d, PDict) and d.symbolic():
        raise Unsupported("format from a symbolic dictionary")
    import string
    names = [f for _, f, _, _ in string.Formatter().parse(template) if f is not None]
    return str_format(template, (), {n: d[n] for n in names})


def strmod(template, args):
    if not isinstance(args, tuple):
        args = (args,)
    if not any(_deep_sym(a) for a in args):
        return template % args
    import re
    tm, n = re.subn(r"%0?(\d*)([sdrfge])", lambda m: "{:%sd}" % m.group(1) if m.group(2) == "d" and m.group(1) else "{}", template)
    return str_format(tm, args, {})


def strjoin(sep, xs):
    s = as_seq(xs)
    if s is None:
        s = Seq.const(tuple(xs))
    if s.concrete():
        items = [s.get(i) for i in range(s.n)]
        if not any(is_sym(x) for x in items):
            return sep.join(items)
        r = items[0]
        for x in items[1:]:
            r = r + sep + x
        return r
    return JoinedText(sep, s)


class JoinedText(Sym):
    """sep.join(seq) for a sequence of symbolic length"""
    def __init__(self, sep, s):
        self.sep, self.s = sep, s

    def __pv_key__(self, f):
        return "join(%r,%s)" % (self.sep, f(self.s))

    def __pv_subst__(self, pairs):
        return JoinedText(self.sep, values.seq_subst(self.s, pairs))

    def __eq__(self, o):
        raise Unsupported("comparison of joined text")
    __hash__ = None


def chain_star(x):
    s = as_seq(x)
    if s is not None and not s.concrete():
        return SIter(Seq.flat(s.n, lambda j: as_seq(s.get(j))))
    items = _elements(x)
    r = Seq.const(())
    for y in items:
        r = Seq.cat(r, as_seq(y))
    return SIter(r)


class InstanceDict(PDict):
    """o.__dict__: writes reach the instance"""
    def __init__(self, o):
        self.owner = None
        PDict.__init__(self, o.__dict__)
        self.owner = o

    def __setitem__(self, k, v):
        if not isinstance(k, str):
            raise Unsupported("attribute name")
        if self.owner is not None:
            setattr(self.owner, k, v)
        PDict.__setitem__(self, k, v)

    def _ro(self, *a, **k):
        raise Unsupported("change of an instance dictionary")
    __delitem__ = pop = clear = setdefault = _ro

    def update(self, o=(), **k):
        for a, v in PDict(o, **k).items():
            self[a] = v


def idict(o):
    return InstanceDict(o) if not isinstance(o, type) else o.__dict__


def journal_class(cls):
    if "__pv_journal__" in cls.__dict__ or issubclass(cls, BaseException):
        return
    if any("__pv_journal__" in b.__dict__ for b in cls.__mro__[1:]) and "__setattr__" not in cls.__dict__:
        return
    base = cls.__setattr__

    def sa(self, name, v):
        d = getattr(self, "__dict__", None)
        if d is not None:
            if not d and id(self) not in BORN or (not d and BORN[id(self)][0] is not self):
                BORN[id(self)] = (self, tick())
            touch(self)
        base(self, name, v)
        if d is not None:
            mutated(self)
    try:
        cls.__setattr__ = sa
        cls.__pv_journal__ = True
    except (TypeError, AttributeError):
        pass


class Base:
    """base of model classes with journaled attributes"""


journal_class(Base)


# ------------------------------------------------------------------ builtins
def p_len(x):
    if isinstance(x, SArr):
        return x.__pv_len__()
    if isinstance(x, PList) and x.sym is not None:
        return SN(x.sym.nt)
    if hasattr(type(x), "__pv_len__"):
        return x.__pv_len__()
    return builtins.len(x)


def p_range(*a):
    if len(a) == 1:
        lo, hi, st = 0, a[0], 1
    elif len(a) == 2:
        lo, hi, st = a[0], a[1], 1
    else:
        lo, hi, st = a
    vals = []
    for x in (lo, hi, st):
        if isinstance(x, SArr) and x.ndim == 0:
            x = x.get(())
        if isinstance(x, float) or isinstance(x, SNum) and not z3.is_int(x.e):
            raise TypeError("'float' object cannot be interpreted as an integer")
        if isinstance(x, SBool):
            x = x._n()
        vals.append(x)
    lo, hi, st = vals
    if not any(is_sym(x) for x in vals):
        return builtins.range(lo, hi, st)
    if is_sym(st):
        raise Unsupported("symbolic range step")
    if st == -1:
        h = SRange(hi + 1, lo + 1).seq()
        n = h.n
        return SIter(Seq(n, lambda i: h.get(simp(_z(n) - 1 - _z(i)))))
    if st > 1:
        a0, b0 = num_parts(lo)[0], num_parts(hi)[0]
        n = simp(z3.If(b0 > a0, (b0 - a0 + (st - 1)) / st, z3.IntVal(0)))
        return SIter(Seq(n, lambda i: SN(simp(a0 + st * _z(i)))))
    return SRange(lo, hi, st)


def _seq_or_native(x, live=False):
    s = loops.live_seq(x) if live else as_seq(x)
    if s is None:
        s = Seq.const(tuple(x))
    return s


def p_enumerate(x, start=0):
    s = _seq_or_native(x, True)
    if s.kind == "const":
        return SIter(Seq.const([(start + i, v) for i, v in builtins.enumerate(s.parts)]))
    return SIter(Seq(s.n, lambda i: (start + (i if isinstance(i, int) else SN(i)), s.get(i))))


def p_zip(*xs, **k):
    ss = [_seq_or_native(x, True) for x in xs]
    if all(s.concrete() for s in ss):
        n = min((s.n for s in ss), default=0)
        return SIter(Seq.const([tuple(s.get(i) for s in ss) for i in builtins.range(n)]))
    n = ss[0].nt
    for s in ss[1:]:
        m = s.nt
        if C().entails(n <= m):
            continue
        if C().entails(m <= n):
            n = m
        elif C().entails_q(n == m):
            pass
        else:
            n = simp(z3.If(n <= m, n, m))
    return SIter(Seq(n, lambda i: tuple(s.get(i) for s in ss)))


def p_map(f, *xs):
    it = p_zip(*xs) if len(xs) > 1 else None
    if it is None:
        return SIter(comp(xs[0], lambda v: (f(v),), "map").seq())
    return SIter(comp(it, lambda v: (f(*v),), "map").seq())


def p_filter(f, x):
    return SIter(comp(x, lambda v: ((v,) if (f(v) if f is not None else v) else SKIP), "filter").seq())


def p_reversed(x):
    s = _seq_or_native(x)
    if s.kind == "const":
        return SIter(Seq.const(s.parts[::-1]))
    return SIter(Seq(s.n, lambda i: s.get(simp(s.nt - 1 - _z(i)))))


def p_sum(x, start=0):
    s = _seq_or_native(x)
    if s.concrete():
        r = start
        for i in builtins.range(s.n):
            r = r + s.get(i)
        return r
    from .loops import solve
    acc = values.PList([start])

    def step(k):
        acc[0] = acc[0] + s.get(k)
        return CONT
    from .loops import run_seq

    def body(v):
        acc[0] = acc[0] + v
        return CONT
    run_seq(s, body, lambda: {}, lambda d: None, (), "sum")
    return acc[0]


def p_all(x):
    s = _seq_or_native(x)
    if s.concrete():
        for i in builtins.range(s.n):
            if not s.get(i):
                return False
        return True
    q = C().fresh_const("aq", I)
    b = z3.Int("$aq%d" % values._nextm())
    t = bool_term(s.get(b))
    return SB(z3.ForAll([b], z3.Implies(z3.And(b >= 0, b < s.nt), t)))


def p_any(x):
    s = _seq_or_native(x)
    if s.concrete():
        for i in builtins.range(s.n):
            if s.get(i):
                return True
        return False
    b = z3.Int("$aq%d" % values._nextm())
    t = bool_term(s.get(b))
    return SB(z3.Exists([b], z3.And(b >= 0, b < s.nt, t)))


def _minmax(a, k, sign):
    if len(a) == 1:
        s = _seq_or_native(a[0])
        if s.concrete():
            items = [s.get(i) for i in builtins.range(s.n)]
        else:
            if k.get("key"):
                raise Unsupported("max with key")
            if not C().branch(s.nt > 0):
                if "default" in k:
                    return k["default"]
                raise ValueError("max() arg is an empty sequence")
            if s.kind == "cat":
                r = None
                for p in s.parts:
                    if p.concrete():
                        if p.n:
                            v = _minmax([p.get(i) for i in builtins.range(p.n)], {}, sign) if p.n > 1 else p.get(0)
                            r = v if r is None else _minmax((r, v), {}, sign)
                        continue
                    if r is None:
                        if not C().branch(p.nt > 0):
                            continue
                        r = arr.r_max(p.nt, p.get, sign)
                    else:
                        v = arr.r_max(p.nt, p.get, sign, nonempty=False)
                        r = merge(p.nt > 0, _minmax((r, v), {}, sign), r)
                return r
            return arr.r_max(s.nt, lambda i: s.get(i), sign)
    else:
        items = list(a)
    if not items and "default" in k:
        return k["default"]
    kf = k.get("key") or (lambda v: v)
    if not any(is_sym(kf(x)) for x in items):
        return (builtins.max if sign > 0 else builtins.min)(items, key=kf)
    r = items[0]
    for x in items[1:]:
        # python: max(a, b) keeps a unless b > a
        cnd = (kf(x) > kf(r)) if sign > 0 else (kf(x) < kf(r))
        if isinstance(cnd, bool):
            r = x if cnd else r
        else:
            r = merge(bool_term(cnd), x, r)
    return r


def p_max(*a, **k):
    return _minmax(a, k, 1)


def p_min(*a, **k):
    return _minmax(a, k, -1)


def p_abs(x):
    return abs(x)


def p_round(x, nd=None):
    if isinstance(x, SNum):
        if nd:
            raise Unsupported("round to digits")
        return to_int(values.n_round(x))
    return builtins.round(x) if nd is None else builtins.round(x, nd)


class TypeModel:
    def __init__(self, name, py, conv, check):
        self.__name__ = name
        self.pv_type = py
        self.conv = conv
        self.check = check

    def __call__(self, *a, **k):
        return self.conv(*a, **k)

    def __or__(self, o):
        return (self, o)

    def __getattr__(self, n):
        if n.startswith("__") or n in ("pv_type", "conv", "check"):
            raise AttributeError(n)
        return getattr(self.pv_type, n)

    def __eq__(self, o):
        return self is o or o is self.pv_type or getattr(o, "pv_type", None) is self.pv_type and type(o) is TypeModel

    def __hash__(self):
        return hash(self.pv_type)


def _c_int(x=0, *a):
    if isinstance(x, (Sym,)):
        return to_int(x)
    if isinstance(x, str) or not a:
        return builtins.int(x, *a)
    return builtins.int(x, *a)


def _c_float(x=0.0):
    if isinstance(x, Sym):
        return to_float(x)
    return builtins.float(x)


def _c_bool(x=False):
    if isinstance(x, (SBool, bool)):
        return x
    if isinstance(x, SNum):
        return SB(x.e != 0)
    if isinstance(x, (PList, PDict)) and (getattr(x, "sym", None) is not None):
        return SB(x.sym.nt > 0)
    return builtins.bool(x)


def _c_str(x="", *a):
    if isinstance(x, SBytes):
        return x.s
    if isinstance(x, Sym) or _deep_sym(x):
        try:
            return str_of(x)
        except Unsupported:
            return SStr(C().fresh("text", values.Str))
    if isinstance(x, BaseException):
        return str_of_exc(x)
    return builtins.str(x, *a)


def str_of_exc(e):
    if len(e.args) == 1 and isinstance(e.args[0], (SStr, str)):
        return e.args[0]
    return builtins.str(e)


def _chk_int(x):
    return isinstance(x, builtins.int) or isinstance(x, SBool) or isinstance(x, SNum) and z3.is_int(x.e)


def _chk_float(x):
    return isinstance(x, builtins.float) or isinstance(x, SNum) and z3.is_real(x.e)


T_INT = TypeModel("int", builtins.int, _c_int, _chk_int)
T_FLOAT = TypeModel("float", builtins.float, _c_float, _chk_float)
T_BOOL = TypeModel("bool", builtins.bool, _c_bool, lambda x: isinstance(x, (builtins.bool, SBool)))
T_STR = TypeModel("str", builtins.str, _c_str, lambda x: isinstance(x, (builtins.str, SStr)))


def _tuple(x=()):
    return builtins.tuple(_elements(x))


T_TUPLE = TypeModel("tuple", builtins.tuple, _tuple, lambda x: isinstance(x, builtins.tuple) and not isinstance(x, Seq))
T_LIST = TypeModel("list", builtins.list, lambda x=(): PList(x), lambda x: isinstance(x, builtins.list))
T_DICT = TypeModel("dict", builtins.dict, lambda *a, **k: PDict(*a, **k), lambda x: isinstance(x, builtins.dict))
T_SET = TypeModel("set", builtins.set, lambda x=(): x if isinstance(x, PSet) and False else PSet(x.seq() if isinstance(x, PSet) else x),
                  lambda x: isinstance(x, (builtins.set, PSet)))


def p_isinstance(x, t):
    if isinstance(t, builtins.tuple):
        return any(p_isinstance(x, u) for u in t)
    if isinstance(t, TypeModel):
        return t.check(x)
    if isinstance(t, npmodel.TypeMark):
        py = t.pv_type
        if py is builtins.int:
            return isinstance(x, SNum) and z3.is_int(x.e) and getattr(x, "np", False)
        return False
    if t is SArr:
        return isinstance(x, SArr) and True
    if isinstance(t, type):
        return builtins.isinstance(x, t)
    return builtins.isinstance(x, t)


def p_type(x, *a):
    if a:
        return builtins.type(x, *a)
    if isinstance(x, SNum):
        return T_INT if z3.is_int(x.e) else T_FLOAT
    for t, m in ((builtins.bool, T_BOOL), (builtins.int, T_INT), (builtins.float, T_FLOAT), (builtins.str, T_STR), (builtins.tuple, T_TUPLE)):
        if builtins.type(x) is t:
            return m
    if isinstance(x, PList):
        return T_LIST
    if isinstance(x, PDict):
        return T_DICT
    if isinstance(x, SStr):
        return T_STR
    return builtins.type(x)


def p_sorted(x, **k):
    s = _seq_or_native(x)
    if s.concrete():
        items = [s.get(i) for i in builtins.range(s.n)]
        if not any(_deep_sym(v) for v in items):
            return PList(builtins.sorted(items, **k))
    r = PList(_seq=s)
    r.sort(**k)
    return r


def p_iter(x):
    s = as_seq(x)
    if s is None:
        return builtins.iter(x)
    return SIter(s)


def p_next(it, *d):
    try:
        return builtins.next(it)
    except StopIteration:
        if d:
            return d[0]
        raise


def p_print(*a, **k):
    return None


def p_issubclass(a, b):
    return builtins.issubclass(a, b)


def p_hasattr(o, n):
    try:
        getattr(o, n)
        return True
    except AttributeError:
        return False


class Blank:
    """an unmodelled library: may be imported and mentioned, not used"""
    def __init__(self, name):
        self.__dict__["_name"] = name

    def __getattr__(self, n):
        if n.startswith("__") and n not in ("__name__",):
            raise AttributeError(n)
        return Blank(self._name + "." + n)

    def __call__(self, *a, **k):
        raise Unsupported("call of unmodelled " + self._name)

    def __mro_entries__(self, bases):
        return ()


def make_builtins(world, extra=None):
    b = dict(builtins.__dict__)
    b.update(len=p_len, range=p_range, enumerate=p_enumerate, zip=p_zip, map=p_map, filter=p_filter, reversed=p_reversed, sum=p_sum,
             all=p_all, any=p_any, max=p_max, min=p_min, abs=p_abs, round=p_round, int=T_INT, float=T_FLOAT, bool=T_BOOL, str=T_STR,
             list=T_LIST, dict=T_DICT, set=T_SET, tuple=T_TUPLE, isinstance=p_isinstance, type=p_type, sorted=p_sorted, iter=p_iter,
             next=p_next, print=p_print, hasattr=p_hasattr, __import__=world.imp)
    b["open"] = lambda *a, **k: (_ for _ in ()).throw(Unsupported("open() is not modelled here"))
    b.update(extra or {})
    return b


# ------------------------------------------------------------------ small library models
def _m1(f, pf):
    def g(x):
        if isinstance(x, (int, float)) and not isinstance(x, bool):
            return pf(x)
        return f(x)
    return g


math_model = types.SimpleNamespace(sqrt=_m1(values.n_sqrt, _math.sqrt), log=_m1(values.n_log, _math.log), exp=_m1(values.n_exp, _math.exp),
                                   ceil=lambda x: to_int(n_ceil(x)) if is_sym(x) else _math.ceil(x),
                                   floor=lambda x: to_int(n_floor(x)) if is_sym(x) else _math.floor(x),
                                   isnan=lambda x: (SB(x.nan) if x.nan is not None else False) if isinstance(x, SNum) else _math.isnan(x),
                                   inf=float("inf"), nan=float("nan"), pi=_math.pi, log2=_m1(values.n_log2, _math.log2), pow=values.num_pow)


class _Chain:
    def __call__(self, *xs):
        r = Seq.const(())
        for y in xs:
            r = Seq.cat(r, _seq_or_native(y))
        return SIter(r)

    def from_iterable(self, x):
        return chain_star(x)


def _product(*xs, repeat=1):
    ss = [_seq_or_native(x) for x in xs] * repeat
    if all(s.concrete() for s in ss):
        import itertools
        return SIter(Seq.const(list(itertools.product(*[[s.get(i) for i in builtins.range(s.n)] for s in ss]))))
    raise Unsupported("itertools.product of symbolic sequences")


def _islice(x, *a):
    s = _seq_or_native(x)
    if len(a) == 1:
        lo, hi = 0, a[0]
    else:
        lo, hi = a[0] or 0, a[1]
    l, h = values.norm_slice(slice(lo, hi), s.nt)
    return SIter(s.slice(l, h))


def _zip_longest(*xs, fillvalue=None):
    ss = [_seq_or_native(x) for x in xs]
    if all(s.concrete() for s in ss):
        import itertools
        return SIter(Seq.const(list(itertools.zip_longest(*[[s.get(i) for i in builtins.range(s.n)] for s in ss], fillvalue=fillvalue))))
    raise Unsupported("zip_longest")


import itertools as _it
itertools_model = types.SimpleNamespace(chain=_Chain(), product=_product, count=_it.count, islice=_islice, repeat=_it.repeat, zip_longest=_zip_longest,
                                        accumulate=_it.accumulate, combinations=_it.combinations, starmap=lambda f, x: p_map(lambda v: f(*v), x))


def _deepcopy(x, memo=None):
    if isinstance(x, (Sym, Seq)) or callable(x) and not hasattr(x, "__dict__"):
        return x.copy() if isinstance(x, SArr) else x
    return _copy.deepcopy(x, memo)


def _sc(x):
    if isinstance(x, SArr):
        return x.copy()
    if isinstance(x, (Sym,)):
        return x
    return _copy.copy(x)


copy_model = types.SimpleNamespace(copy=_sc, deepcopy=_deepcopy)


def base_models():
    import numpy as _n
    np = npmodel
    m = {"numpy": np, "numpy.ma": np.ma, "numpy.linalg": np.linalg, "numpy.random": np.random}
    for nm in ("scipy", "scipy.stats", "scipy.integrate", "scipy.interpolate", "matplotlib", "matplotlib.pyplot", "seaborn", "pandas", "gstools", "sklearn",
               "sklearn.utils.extmath", "ruamel", "ruamel.yaml", "yaml", "h5py", "mlmc.plot", "mlmc.plot.plots", "mlmc.tool.simple_distribution",
               "subprocess", "glob", "shutil", "pickle", "json", "re", "queue", "os", "time", "multiprocessing", "hashlib", "traceback", "memoization",
               "argparse", "logging", "struct", "random", "os.path", "datetime", "tempfile", "io", "threading"):
        m[nm] = Blank(nm)
    def uncached(f):
        f.cache_clear = lambda: None
        return f
    m["memoization"] = types.SimpleNamespace(cached=lambda *a, **k: (uncached(a[0]) if a and callable(a[0]) else uncached))
    return m


def make_world(models=None, builtins_extra=None):
    from .instr import World
    ms = base_models()
    ms.update(models or {})
    w = World(ms)
    w.builtins = make_builtins(w, builtins_extra)
    return w
