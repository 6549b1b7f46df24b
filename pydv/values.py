"""pydv.values - symbolic values: numbers (mathematical integers/reals, floats with a NaN flag), booleans, strings,
opaque objects, sequences, lists, dictionaries, sets."""
import builtins
import types
import z3
from .core import equivalent, C, Unsupported, _z, I, R, B, touch, mutated, wrap_mutators, OWN, BORN, tick
from . import terms

Str = z3.DeclareSort("Str")
Obj = z3.DeclareSort("Obj")

INF = z3.Real("INF")   # numpy.inf, opaque
SQRT = z3.Function("SQRT", R, R)
EXP = z3.Function("EXP", R, R)
LOG = z3.Function("LOG", R, R)
POW = z3.Function("POW", R, R, R)
SIN = z3.Function("SIN", R, R)
COS = z3.Function("COS", R, R)
ROUND = z3.Function("ROUND", R, R)


def simp(e):
    return z3.simplify(e) if z3.is_expr(e) else e


def _pairs(apps):
    apps = apps[:12]
    return [(a, b) for i, a in enumerate(apps) for b in apps[i + 1:]]


def _mono(apps, f=lambda a: a.arg(0), guard=lambda a: z3.BoolVal(True), strict=True):
    out = []
    for a, b in _pairs(apps):
        x, y = f(a), f(b)
        g = z3.And(guard(a), guard(b))
        if strict:
            out.append(z3.Implies(g, z3.And((x < y) == (a < b), (x == y) == (a == b))))
        else:
            out.append(z3.Implies(g, z3.And(z3.Implies(x <= y, a <= b), z3.Implies(y <= x, b <= a))))
    return out


def _g_sqrt(apps):
    out = []
    for a in apps:
        x = a.arg(0)
        out.append(z3.Implies(x >= 0, z3.And(a >= 0, a * a == x)))
    return out + _mono(apps, guard=lambda a: a.arg(0) >= 0)


def _g_round(apps):
    out = []
    for a in apps:
        x = a.arg(0)
        out.append(z3.And(a - x <= z3.RealVal("1/2"), x - a <= z3.RealVal("1/2"), z3.IsInt(a), z3.Implies(z3.IsInt(x), a == x)))
    return out + _mono(apps, strict=False)


def _g_exp(apps):
    return [a > 0 for a in apps] + [LOG(a) == a.arg(0) for a in apps] + _mono(apps)


def _g_log(apps):
    return [z3.Implies(a.arg(0) > 0, EXP(a) == a.arg(0)) for a in apps] + _mono(apps, guard=lambda a: a.arg(0) > 0)


LN2 = z3.Real("LN2")      # natural logarithm of two: all exponentials are written with EXP and LOG
terms.register("LN2", LN2 == LOG(z3.RealVal(2)), LN2 > z3.RealVal("6931/10000"), LN2 < z3.RealVal("6932/10000"))
_x = z3.Real("$sx")
terms.register("SQRT", z3.ForAll([_x], SQRT(_x) >= 0, patterns=[SQRT(_x)]))
terms.register("EXP", z3.ForAll([_x], EXP(_x) > 0, patterns=[EXP(_x)]))
terms.GROUND.update({"SQRT": _g_sqrt, "ROUND": _g_round, "EXP": _g_exp, "LOG": _g_log})


def real(e):
    return z3.ToReal(e) if z3.is_int(e) else e


def _or(a, b):
    if a is None:
        return b
    if b is None:
        return a
    return simp(z3.Or(a, b))


class Sym:
    __slots__ = ()


def is_sym(x):
    return isinstance(x, Sym)


def num_parts(x):
    """-> (z3 term, nan or None) of a number-like value, or None"""
    if isinstance(x, SNum):
        return x.e, x.nan
    if isinstance(x, SBool):
        return z3.If(x.e, z3.IntVal(1), z3.IntVal(0)), None
    if isinstance(x, bool):
        return z3.IntVal(int(x)), None
    if isinstance(x, int):
        return z3.IntVal(x), None
    if isinstance(x, float):
        if x != x:
            return z3.RealVal(0), z3.BoolVal(True)
        if x == float("inf"):
            return INF, None
        if x == float("-inf"):
            return -INF, None
        from fractions import Fraction
        fr = Fraction(repr(x))     # decimal literal taken exactly
        return z3.RealVal(str(fr)), None
    from . import arr
    if isinstance(x, arr.SArr) and x.ndim == 0:
        return num_parts(x.get(()))
    return None


def SN(e, nan=None):
    """wrap a z3 arithmetic term; concrete integers become python ints"""
    e = simp(e)
    if nan is not None:
        nan = simp(nan)
        if z3.is_false(nan):
            nan = None
    if nan is None and z3.is_int_value(e):
        return e.as_long()
    return SNum(e, nan)


class SNum(Sym):
    __slots__ = ("e", "nan")

    def __init__(self, e, nan=None):
        self.e = e
        self.nan = nan

    def __repr__(self):
        return "SNum(%s)" % (self.e,)

    __hash__ = None

    @property
    def is_int(self):
        return z3.is_int(self.e)

    # numpy scalar look-alikes
    shape = ()
    ndim = 0

    def _bin(self, o, f, int_ok=True, rev=False):
        p = num_parts(o)
        if p is None:
            return NotImplemented
        a, an = self.e, self.nan
        b, bn = p
        if rev:
            a, an, b, bn = b, bn, a, an
        if z3.is_int(a) != z3.is_int(b) or not int_ok:
            a, b = real(a), real(b)
        return SN(f(a, b), _or(an, bn))

    def __add__(self, o): return self._bin(o, lambda a, b: a + b)
    def __radd__(self, o): return self._bin(o, lambda a, b: a + b, rev=True)
    def __sub__(self, o): return self._bin(o, lambda a, b: a - b)
    def __rsub__(self, o): return self._bin(o, lambda a, b: a - b, rev=True)
    def __mul__(self, o): return self._bin(o, lambda a, b: a * b)
    def __rmul__(self, o):
        if isinstance(o, (list, tuple, str)):
            return NotImplemented
        return self._bin(o, lambda a, b: a * b, rev=True)
    def __truediv__(self, o): return self._bin(o, lambda a, b: a / b, int_ok=False)
    def __rtruediv__(self, o): return self._bin(o, lambda a, b: a / b, int_ok=False, rev=True)
    def __floordiv__(self, o): return self._bin(o, _floordiv)
    def __rfloordiv__(self, o): return self._bin(o, _floordiv, rev=True)
    def __mod__(self, o): return self._bin(o, _mod)
    def __rmod__(self, o):
        if isinstance(o, str):
            return NotImplemented
        return self._bin(o, _mod, rev=True)
    def __pow__(self, o): return num_pow(self, o)
    def __rpow__(self, o): return num_pow(o, self)
    def __neg__(self): return SN(-self.e, self.nan)
    def __pos__(self): return self
    def __abs__(self): return SN(z3.If(self.e >= 0, self.e, -self.e), self.nan)

    def _cmp(self, o, f, ne=False):
        p = num_parts(o)
        if p is None:
            return NotImplemented
        a, b = self.e, p[0]
        if z3.is_int(a) != z3.is_int(b):
            a, b = real(a), real(b)
        c = f(a, b)
        nan = _or(self.nan, p[1])
        if nan is not None:
            c = z3.Or(nan, c) if ne else z3.And(z3.Not(nan), c)
        return SB(c)

    def __lt__(self, o): return self._cmp(o, lambda a, b: a < b)
    def __le__(self, o): return self._cmp(o, lambda a, b: a <= b)
    def __gt__(self, o): return self._cmp(o, lambda a, b: a > b)
    def __ge__(self, o): return self._cmp(o, lambda a, b: a >= b)

    def __eq__(self, o):
        if o is None or isinstance(o, (str, tuple, list)):
            return False
        return self._cmp(o, lambda a, b: a == b)

    def __ne__(self, o):
        if o is None or isinstance(o, (str, tuple, list)):
            return True
        return self._cmp(o, lambda a, b: a != b, ne=True)

    def __bool__(self):
        return C().branch(self.e != 0 if self.nan is None else z3.Or(self.nan, self.e != 0))

    def __int__(self):
        raise Unsupported("native int() of a symbolic number")

    def __index__(self):
        raise Unsupported("native index of a symbolic number")

    def __float__(self):
        raise Unsupported("native float() of a symbolic number")

    def __len__(self):
        raise TypeError("object of type 'int' has no len()")

    # numpy scalar methods
    def astype(self, t): return to_int(self) if _is_int_type(t) else to_float(self)
    def copy(self): return self
    def item(self): return self
    def all(self, *a, **k): return self
    def any(self, *a, **k): return self
    def sum(self, *a, **k): return self


class SMixed(SNum):
    """number that is a python int in some cases (the ToReal branches of its term) and a float in the others"""
    __slots__ = ()

    def resolve(self):
        e = self.e
        while z3.is_app(e) and e.decl().kind() == z3.Z3_OP_ITE:
            c, a, b = e.children()
            if C().entails(c):
                e = a
            elif C().entails(z3.Not(c)):
                e = b
            else:
                return self
        if e.decl().kind() == z3.Z3_OP_TO_REAL:
            return SN(e.arg(0))
        return SN(e)


def _no_toreal(e):
    if z3.is_app(e) and e.decl().kind() == z3.Z3_OP_ITE:
        return _no_toreal(e.arg(1)) and _no_toreal(e.arg(2))
    return not (z3.is_app(e) and e.decl().kind() == z3.Z3_OP_TO_REAL)


def _mixable(v, e):
    return isinstance(v, SMixed) or z3.is_int(e) or _no_toreal(e)


def _is_int_type(t):
    return t is int or getattr(t, "__name__", None) in ("int", "int32", "int64") or t in ("int", "int32", "int64") or getattr(t, "pv_type", None) is int


def _floordiv(a, b):
    if z3.is_int(a):
        return z3.If(b > 0, a / b, (-a) / (-b))
    return z3.ToReal(z3.ToInt(a / b))


def _mod(a, b):
    if z3.is_int(a):
        return z3.If(b > 0, a % b, -((-a) % (-b)))
    return a - b * z3.ToReal(z3.ToInt(a / b))


IPOW = z3.Function("IPOW", R, I, R)
terms.register("IPOW", z3.ForAll([_x], IPOW(_x, 0) == 1, patterns=[IPOW(_x, 0)]))


def num_pow(x, y):
    px, py = num_parts(x), num_parts(y)
    if px is None or py is None:
        return NotImplemented
    nan = _or(px[1], py[1])
    a, b = px[0], simp(py[0])
    k = None
    if z3.is_int_value(b):
        k = b.as_long()
    elif z3.is_rational_value(b) and b.denominator_as_long() == 1:
        k = b.numerator_as_long()
        a = real(a)
    if k == 0:
        nan = None      # also for a base that is not a number
    if k is not None and 0 <= k <= 6:
        r = z3.IntVal(1) if z3.is_int(a) else z3.RealVal(1)
        for _ in range(k):
            r = r * a
        return SN(r, nan)
    if k is not None and -2 <= k < 0:
        r = z3.RealVal(1)
        for _ in range(-k):
            r = r * real(a)
        return SN(1 / r, nan)
    if z3.is_rational_value(simp(real(a))) and simp(real(a)).eq(z3.RealVal(2)):
        return SN(EXP(simp(real(b) * LN2)), nan)
    if z3.is_int(b) and C().entails_q(b >= 0, 1500):
        return SN(IPOW(simp(real(a)), b), None if px[1] is None else simp(z3.And(px[1], b != 0)))
    if C().entails_q(a > 0, 1500):
        return SN(EXP(simp(real(b) * LOG(simp(real(a))))), nan)
    return SN(POW(real(a), real(b)), nan)


def SB(e):
    e = simp(e)
    if z3.is_true(e):
        return True
    if z3.is_false(e):
        return False
    return SBool(e)


def bool_term(x):
    if isinstance(x, SBool):
        return x.e
    if isinstance(x, bool):
        return z3.BoolVal(x)
    if isinstance(x, SNum):
        return x.e != 0
    if isinstance(x, int):
        return z3.BoolVal(x != 0)
    if z3.is_expr(x):
        return x
    from . import arr
    if isinstance(x, arr.SArr) and x.ndim == 0:
        return bool_term(x.get(()))
    raise Unsupported("bool_term %r" % (type(x),))


class SBool(Sym):
    __slots__ = ("e",)
    shape = ()
    ndim = 0

    def __init__(self, e):
        self.e = e

    def __repr__(self):
        return "SBool(%s)" % (self.e,)

    __hash__ = None

    def __bool__(self):
        return C().branch(self.e)

    def __and__(self, o):
        if _is_arr(o): return NotImplemented
        return SB(z3.And(self.e, bool_term(o)))
    __rand__ = __and__

    def __or__(self, o):
        if _is_arr(o): return NotImplemented
        return SB(z3.Or(self.e, bool_term(o)))
    __ror__ = __or__

    def __xor__(self, o): return SB(z3.Xor(self.e, bool_term(o)))
    def __invert__(self): return SB(z3.Not(self.e))

    def __eq__(self, o):
        if isinstance(o, (SBool, bool)):
            return SB(self.e == bool_term(o))
        return self._n() == o

    def __ne__(self, o):
        if isinstance(o, (SBool, bool)):
            return SB(self.e != bool_term(o))
        return self._n() != o

    def _n(self):
        return SNum(z3.If(self.e, z3.IntVal(1), z3.IntVal(0)))

    def __add__(self, o): return self._n() + o
    def __radd__(self, o): return o + self._n()
    def __sub__(self, o): return self._n() - o
    def __mul__(self, o): return self._n() * o
    def __rmul__(self, o): return self._n() * o
    def all(self, *a, **k): return self
    def any(self, *a, **k): return self


def _is_arr(o):
    from . import arr
    return isinstance(o, arr.SArr)


def to_int(x):
    """python int(x) / astype(int): truncation towards zero"""
    if isinstance(x, (SBool,)):
        return x._n()
    if isinstance(x, SNum):
        if z3.is_int(x.e):
            return x
        return SN(z3.If(x.e >= 0, z3.ToInt(x.e), -z3.ToInt(-x.e)))
    if isinstance(x, SStr):
        return x.as_int()
    if _is_arr(x) and x.ndim == 0:
        return to_int(x.get(()))
    return int(x)


def to_float(x):
    if isinstance(x, SBool):
        x = x._n()
    if isinstance(x, SNum):
        return SNum(simp(real(x.e)), x.nan)
    if _is_arr(x):
        return to_float(x.get(())) if x.ndim == 0 else Unsupported
    return float(x)


def n_ceil(x):
    if isinstance(x, (int,)):
        return x
    if isinstance(x, float):
        import math
        return float(math.ceil(x))
    if z3.is_int(x.e):
        return SNum(z3.ToReal(x.e), x.nan)
    return SN(z3.ToReal(-z3.ToInt(-x.e)), x.nan)


def n_floor(x):
    if isinstance(x, (int, float)):
        import math
        return float(math.floor(x))
    if z3.is_int(x.e):
        return SNum(z3.ToReal(x.e), x.nan)
    return SN(z3.ToReal(z3.ToInt(x.e)), x.nan)


def n_round(x):
    """numpy.round: to the nearest integer, ties to even"""
    e, nan = num_parts(x)
    if z3.is_int(e):
        return SN(e, nan)
    return SN(ROUND(simp(e)), nan)


def n_sqrt(x):
    e, nan = num_parts(x)
    e = simp(real(e))
    if C().entails(e >= 0):
        n2 = nan
    else:
        n2 = _or(nan, simp(e < 0))
    return SN(SQRT(e), n2)


def n_exp(x):
    e, nan = num_parts(x)
    return SN(EXP(simp(real(e))), nan)


def n_log(x):
    e, nan = num_parts(x)
    return SN(LOG(simp(real(e))), nan)


def n_exp2(x):
    return SN(EXP(simp(real(num_parts(x)[0]) * LN2)), num_parts(x)[1])


def n_log2(x):
    e, nan = num_parts(x)
    return SN(LOG(simp(real(e))) / LN2, nan)


# ------------------------------------------------------------------ strings
_lits = {}
_fmts = {}
STR_OF_INT = z3.Function("str_of_int", I, Str)
INT_OF_STR = z3.Function("int_of_str", Str, I)
_i = z3.Int("$i")
terms.register("str_of_int", z3.ForAll([_i], INT_OF_STR(STR_OF_INT(_i)) == _i, patterns=[STR_OF_INT(_i)]))
CONCAT = z3.Function("str_concat", Str, Str, Str)


def lit(s):
    if s not in _lits:
        _lits[s] = z3.Const("lit:%r" % s, Str)
        terms.LITS["lit:%r" % s] = _lits[s]
    return _lits[s]


def distinct_lits():
    ls = list(_lits.values())
    return [z3.Distinct(*ls)] if len(ls) > 1 else []


ENCODABLE = z3.Function("encodable", Str, B)
REPLACED = z3.Function("with_replaced_characters", Str, Str)


class SStr(Sym):
    """symbolic string; `shape` optionally remembers how it was made: ('fmt', template, args) or ('int', n)"""
    __slots__ = ("e", "made")

    def __init__(self, e, made=None):
        self.e = e
        self.made = made

    def __repr__(self):
        return "SStr(%s)" % (self.e,)

    __hash__ = None

    def __eq__(self, o):
        t = str_term(o)
        if t is None:
            return False
        if self.e.eq(t):
            return True
        if isinstance(o, SStr) and self.made and o.made and self.made[0] == o.made[0] == "int":
            return SB(_z(self.made[1]) == _z(o.made[1]))
        if isinstance(o, str) and self.made and self.made[0] == "int":
            try:
                return SB(_z(self.made[1]) == int(o)) if str(int(o)) == o else False
            except ValueError:
                return False
        if isinstance(o, SStr) and self.made and o.made and self.made[0] == o.made[0] == "fmt" and self.made[1] == o.made[1] \
                and injective_template(self.made[1]):
            xs = [_z(x) for x in self.made[2] + o.made[2]]
            if all(C().entails(x >= 0) for x in xs):
                return SB(z3.And(*[_z(x) == _z(y) for x, y in zip(self.made[2], o.made[2])]))
        return SB(self.e == t)

    def __ne__(self, o):
        r = self == o
        return (not r) if isinstance(r, bool) else ~r

    def __add__(self, o):
        if isinstance(o, str) and o == "":
            return self
        t = str_term(o)
        if t is None:
            return NotImplemented
        return SStr(CONCAT(self.e, t), ("cat", self, o))

    def __radd__(self, o):
        if isinstance(o, str) and o == "":
            return self
        t = str_term(o)
        if t is None:
            return NotImplemented
        return SStr(CONCAT(t, self.e), ("cat", o, self))

    def __bool__(self):
        if self.made and self.made[0] == "int" or self.made and self.made[0] == "fmt" and self.made[1].split("{")[0]:
            return True
        return C().branch(self.e != lit(""))

    def encode(self, encoding="utf-8", errors="strict"):
        if self.made and self.made[0] == "wild":
            # text with any characters: not every one can be encoded
            if errors == "strict" and C().branch(z3.Not(ENCODABLE(self.e))):
                raise UnicodeEncodeError("utf-8", "?", 0, 1, "surrogates not allowed")
            return SBytes(SStr(z3.If(ENCODABLE(self.e), self.e, REPLACED(self.e))))
        return SBytes(self)

    def strip(self, *a):
        raise Unsupported("str.strip")

    def decode(self, *a):
        return self

    def as_int(self):
        if self.made and self.made[0] == "int":
            return self.made[1]
        if self.made and self.made[0] == "fmt":
            from . import text
            p = text.pieces(self)
            if len(p) == 1 and p[0][0] == "n" and text.is_digits(p[0]):
                return p[0][1]
        return SN(INT_OF_STR(self.e))

    def __getitem__(self, k):
        if isinstance(k, slice) and self.made and self.made[0] == "fmt" and k.stop is None and k.step is None:
            tm = self.made[1]
            if isinstance(k.start, int) and k.start < 0 and tm.endswith("{:0%dd}" % (-k.start)):
                n = self.made[2][-1]
                w = 10 ** (-k.start)
                v = SN(z3.simplify(_z(n) % w)) if not isinstance(n, int) else n % w
                return SStr(C().fresh("substr", Str), ("int", v))
        raise Unsupported("string slice")

    def startswith(self, p, *a):
        from . import text
        if a or not isinstance(p, str):
            raise Unsupported("startswith")
        return text.starts(self, p)

    def endswith(self, p, *a):
        from . import text
        if a or not isinstance(p, str):
            raise Unsupported("endswith")
        return text.ends(self, p)

    def split(self, sep=None, maxsplit=-1):
        from . import text
        if not isinstance(sep, str):
            raise Unsupported("split")
        return PList(text.split(self, sep, maxsplit))

    def format(self, *a, **k):
        raise Unsupported("format with a symbolic template")


class SBytes(Sym):
    __slots__ = ("s",)

    def __init__(self, s):
        self.s = s

    def decode(self, *a):
        return self.s

    def __eq__(self, o):
        return isinstance(o, SBytes) and self.s == o.s
    __hash__ = None


def str_term(x):
    if isinstance(x, SStr):
        return x.e
    if isinstance(x, str):
        return lit(x)
    return None


def str_of(x):
    if isinstance(x, SNum):
        if z3.is_int(x.e):
            t = STR_OF_INT(x.e)
            return SStr(t, ("int", x))
        return SStr(z3.Function("str_of_real", R, Str)(x.e))
    if isinstance(x, SStr):
        return x
    if isinstance(x, Sym):
        raise Unsupported("str() of %r" % type(x))
    return str(x)


def str_format(template, args, kwargs):
    """symbolic str.format with integer/string fields"""
    import re
    import string
    flat = list(args) + list(kwargs.values())
    if not any(is_sym(a) for a in flat) and not any(_deep_sym(a) for a in flat):
        return template.format(*args, **kwargs)
    fields = list(string.Formatter().parse(template))
    vals = []
    auto = 0
    norm = ""
    for lit_, fname, spec, conv in fields:
        norm += lit_.replace("{", "{{").replace("}", "}}")
        if fname is None:
            continue
        if fname == "":
            v = args[auto]
            auto += 1
        elif fname.isdigit():
            v = args[int(fname)]
        elif fname in kwargs:
            v = kwargs[fname]
        else:
            raise Unsupported("format field %r" % fname)
        norm += "{:%s}" % spec if spec else "{}"
        vals.append((v, spec))
    if norm == "{}":
        return str_of(vals[0][0])
    # concrete arguments are folded into the template
    tm = ""
    va = []
    it = iter(vals)
    for lit_, fname, spec, conv in fields:
        tm += lit_.replace("{", "{{").replace("}", "}}")
        if fname is None:
            continue
        v, sp = next(it)
        if is_sym(v):
            tm += "{:%s}" % sp if sp else "{}"
            va.append(v)
        else:
            if _deep_sym(v):
                return SStr(C().fresh("text", Str))    # a message; content not modelled
            tm += format(v, sp or "").replace("{", "{{").replace("}", "}}")
    return mk_fmt(tm, va)


def mk_fmt(tm, va):
    ts = []
    for v in va:
        if isinstance(v, (SStr, str)):
            ts.append(str_term(v))
        elif isinstance(v, SNum):
            ts.append(v.e)
        elif isinstance(v, bool):
            ts.append(z3.IntVal(int(v)))
        elif isinstance(v, int):
            ts.append(z3.IntVal(v))
        else:
            return SStr(C().fresh("text", Str))
    f = _fmts.get((tm, tuple(str(t.sort()) for t in ts)))
    if f is None:
        f = z3.Function("fmt:%r" % tm, *[t.sort() for t in ts], Str)
        _fmts[(tm, tuple(str(t.sort()) for t in ts))] = f
        if injective_template(tm):
            _INJ.add(f.name())
            vs = [z3.Const("$f%d" % k, t.sort()) for k, t in enumerate(ts)]
            pre = [u >= 0 for u in vs if z3.is_int(u)]
            for k, t in enumerate(vs):
                inv = z3.Function("inv%d:%r" % (k, tm), Str, t.sort())
                terms.register(f.name() + ("#%d" % k), z3.ForAll(vs, z3.Implies(z3.And(*pre), inv(f(*vs)) == t), patterns=[f(*vs)]))
                terms.AX.setdefault(f.name(), []).extend(terms.AX[f.name() + ("#%d" % k)])
    r = f(*ts)
    return SStr(r, ("fmt", tm, tuple(va)))


def injective_template(tm):
    """every field is an integer field and neighbouring fields are separated by text that starts with a non-digit"""
    import string
    prev_field = False
    for lit_, fname, spec, conv in string.Formatter().parse(tm):
        if prev_field and fname is not None and (lit_ == "" or lit_[0].isdigit()):
            return False
        if fname is not None:
            if not (spec or "").endswith("d"):
                return False
            prev_field = True
    return True


def _deep_sym(x, d=3):
    if is_sym(x):
        return True
    if d and isinstance(x, (list, tuple)):
        if isinstance(x, PList) and x.sym is not None:
            return True
        return any(_deep_sym(y, d - 1) for y in list.__iter__(x)) if isinstance(x, list) else any(_deep_sym(y, d - 1) for y in x)
    if isinstance(x, PDict) and x.base is not None:
        return True
    from . import arr
    return isinstance(x, arr.SArr)


# ------------------------------------------------------------------ opaque objects
class SymObj(Sym):
    """An arbitrary object identified by a z3 term; attributes/methods given by the contract."""
    def __init__(self, term, attrs=None, label="obj"):
        object.__setattr__(self, "e", term)
        object.__setattr__(self, "_attrs", attrs or {})
        object.__setattr__(self, "_label", label)

    def __getattr__(self, name):
        a = object.__getattribute__(self, "_attrs")
        if name in a:
            return a[name](self)
        if name.startswith("__"):
            raise AttributeError(name)
        raise Unsupported("attribute %s of opaque object %s" % (name, object.__getattribute__(self, "_label")))

    def __setattr__(self, name, v):
        raise Unsupported("assignment to an opaque object")

    def __eq__(self, o):
        if isinstance(o, SymObj):
            if self.e.sort() != o.e.sort():
                return False
            return SB(self.e == o.e)
        return False

    def __ne__(self, o):
        r = self == o
        return (not r) if isinstance(r, bool) else ~r

    __hash__ = None

    def __repr__(self):
        return "SymObj(%s)" % self.e


class Opaque(Sym):
    """unknown content of a havocked cell; can be passed around but not inspected"""
    __slots__ = ("tag", "e")

    def __init__(self, tag, e=None):
        self.tag = tag
        self.e = e

    def __getattr__(self, n):
        if n.startswith("__"):
            raise AttributeError(n)
        raise Unsupported("use of havocked content (%s)" % (object.__getattribute__(self, "tag"),))

    def __bool__(self):
        raise Unsupported("use of havocked content")

    def _u(self, *a):
        raise Unsupported("use of havocked content")
    __add__ = __radd__ = __sub__ = __rsub__ = __mul__ = __rmul__ = __truediv__ = __rtruediv__ = __getitem__ = __iter__ = __len__ = __call__ = _u
    __lt__ = __le__ = __gt__ = __ge__ = _u
    __iadd__ = __isub__ = __int__ = __float__ = __index__ = __neg__ = __abs__ = __pow__ = __rpow__ = __contains__ = __and__ = __or__ = _u
    __mod__ = __rmod__ = __floordiv__ = __rfloordiv__ = __setitem__ = __str__ = __format__ = __rand__ = __ror__ = __enter__ = __fspath__ = _u

    def __eq__(self, o):
        if self is o:
            return True
        raise Unsupported("comparison of havocked content")
    __hash__ = None


class Havocked(Opaque):
    """unknown value: never equal to anything, every use is undecided"""
    __slots__ = ()


# ------------------------------------------------------------------ sequences (immutable)
class Seq:
    """n: python int or z3 Int; get(i): i python int or z3 Int"""
    def __init__(self, n, get, kind="fn", parts=None, mem=None):
        self.n = n if isinstance(n, int) else simp(n)
        if z3.is_expr(self.n) and z3.is_int_value(self.n):
            self.n = self.n.as_long()
        self._get = get
        self.kind = kind
        self.parts = parts

    def get(self, i):
        return self._get(i)

    @property
    def nt(self):
        return _z(self.n)

    def concrete(self):
        return isinstance(self.n, int)

    @staticmethod
    def const(items):
        items = tuple(items)

        def get(i):
            if isinstance(i, int):
                return items[i]
            i = simp(i)
            if z3.is_int_value(i):
                return items[i.as_long()]
            if not items:
                return Opaque("empty")
            r = items[-1]
            for k in range(len(items) - 2, -1, -1):
                r = merge(i == k, items[k], r)
            return r
        return Seq(len(items), get, "const", items)

    @staticmethod
    def cat(a, b):
        if a.kind == "const" and b.kind == "const":
            return Seq.const(a.parts + b.parts)
        if a.concrete() and a.n == 0:
            return b
        if b.concrete() and b.n == 0:
            return a
        pa = a.parts if a.kind == "cat" else (a,)
        pb = b.parts if b.kind == "cat" else (b,)
        if pa[-1].kind == "const" and pb[0].kind == "const":
            mid = (Seq.const(pa[-1].parts + pb[0].parts),)
            parts = pa[:-1] + mid + pb[1:]
        else:
            parts = pa + pb
        n = simp(z3.Sum([p.nt for p in parts])) if len(parts) > 1 else parts[0].nt

        def get(i):
            i = _z(i)
            off = z3.IntVal(0)
            conds = []
            for p in parts[:-1]:
                conds.append((i < simp(off + p.nt), p, off))
                off = simp(off + p.nt)
            r = parts[-1].get(simp(i - off))
            for c, p, o in reversed(conds):
                r = merge(c, p.get(simp(i - o)), r)
            return r
        return Seq(n, get, "cat", parts)

    @staticmethod
    def flat(n, seg):
        """concatenation of seg(j), j<n"""
        cx = C()
        total = terms.mk_sum(_z(n) if not isinstance(n, int) else n, lambda j: seg(j).nt)
        s = Seq(total, None, "flat", (n, seg))

        fns = {}

        def get(i):
            i = _z(i)
            c = C()
            if "f" not in fns:
                F, O = c.unique_fun("flatseg", [I], I), c.unique_fun("flatoff", [I], I)
                q = z3.Int("$fq")
                st = list(c.index_stack)
                gs = [z3.Int("$fs%d" % t) for t in range(len(st))]
                close = lambda f: z3.substitute(f, *zip(st, gs)) if st else f
                body = close(z3.Implies(z3.And(q >= 0, q < s.nt), z3.And(F(q) >= 0, F(q) < _z(n), O(q) >= 0, O(q) < seg(F(q)).nt)))
                fact = z3.ForAll(gs + [q], body, patterns=[close(F(q))])
                terms.register(F(q).decl().name(), fact)
                terms.register(O(q).decl().name(), z3.ForAll(gs + [q], body, patterns=[close(O(q))]))
                fns["f"] = (F, O)
            F, O = fns["f"]
            return seg(F(i)).get(O(i))
        s._get = get
        return s

    @staticmethod
    def filt(n, mask, get):
        """elements get(j) with mask(j), in order of j<n"""
        m, sel, rank = compress(n, mask)
        s = Seq(m, lambda i: get(sel(_z(i))), "filter", (n, mask, get, sel, rank))
        return s

    def map(self, f):
        if self.kind == "const":
            return Seq.const([f(x) for x in self.parts])
        if self.kind == "cat":
            r = self.parts[0].map(f)
            for p in self.parts[1:]:
                r = Seq.cat(r, p.map(f))
            return r
        if self.kind == "flat":
            n, seg = self.parts
            return Seq.flat(n, lambda j: seg(j).map(f))
        if self.kind == "filter":
            n, mask, get, sel, rank = self.parts
            return Seq(self.n, lambda i: f(self.get(i)), "filter", (n, mask, lambda j: f(get(j)), sel, rank))
        return Seq(self.n, lambda i: f(self.get(i)))

    def slice(self, a, b):
        """elements a..b-1, 0<=a<=b<=n"""
        a, b = _z(a), _z(b)
        if self.kind == "const" and z3.is_int_value(simp(a)) and z3.is_int_value(simp(b)):
            return Seq.const(self.parts[simp(a).as_long():simp(b).as_long()])
        if simp(a).eq(z3.IntVal(0)) and C().entails(b == self.nt):
            return self
        return Seq(simp(b - a), lambda i: self.get(simp(_z(i) + a)))

    def contains(self, x):
        """z3 Bool: x occurs (x a python/symbolic value)"""
        if self.kind == "const":
            return z3.Or(*[eq_term(y, x) for y in self.parts]) if self.parts else z3.BoolVal(False)
        if self.kind == "cat":
            return z3.Or(*[p.contains(x) for p in self.parts])
        if self.kind == "filter":
            n, mask, get, sel, rank = self.parts
            j = z3.Int("$m%d" % _nextm())
            return z3.Exists([j], z3.And(j >= 0, j < _z(n), mask(j), eq_term(get(j), x)))
        if self.kind == "flat":
            n, seg = self.parts
            j = z3.Int("$m%d" % _nextm())
            return z3.Exists([j], z3.And(j >= 0, j < _z(n), seg(j).contains(x)))
        j = z3.Int("$m%d" % _nextm())
        return z3.Exists([j], z3.And(j >= 0, j < self.nt, eq_term(self.get(j), x)))


_mc = [0]


def _nextm():
    _mc[0] += 1
    return _mc[0]


_masks = []


def compress(n, mask):
    """count, index map and rank of the positions j<n where mask(j) holds.  Returns (count term, sel, rank)"""
    c = C()
    n = _z(n)
    b = z3.Int("$c0")
    mt = simp(mask(b))
    # an equivalent selection made before is the same selection
    fc = {x.decl().name() for x in terms.free_consts(mt)}
    for n1, mt1, fc1 in _masks:
        if n1.eq(n) and fc1 == fc and equivalent(mt, mt1):
            mt = mt1
            break
    else:
        _masks.append((n, mt, fc))
    cnt = terms.mk_sum(n, lambda j: z3.If(simp(z3.substitute(mt, (b, j))), z3.IntVal(1), z3.IntVal(0)))
    params = terms.free_consts(mt, skip=[b]) + terms.free_consts(n)
    import hashlib
    key = hashlib.md5((mt.sexpr() + n.sexpr()).encode()).hexdigest()[:10]
    SEL = z3.Function("SEL!" + key, *([I] + [p.sort() for p in params] + [I]))
    RANK = z3.Function("RANK!" + key, *([I] + [p.sort() for p in params] + [I]))
    terms.SELS.setdefault("SEL!" + key, (cnt, n, mt, b, params))
    if "SEL!" + key not in terms.AX:
        i = z3.Int("$ci")
        j = z3.Int("$cj")
        ps = [z3.Const("$cp%d" % q, p.sort()) for q, p in enumerate(params)]
        sub = list(zip(params, ps))
        m_ = lambda t: z3.substitute(mt, *([(b, t)] + sub))
        n_ = z3.substitute(n, *sub) if sub else n
        cnt_ = z3.substitute(cnt, *sub) if sub else cnt
        S, K = (lambda t: SEL(t, *ps)), (lambda t: RANK(t, *ps))
        axs = [z3.ForAll([i] + ps, z3.Implies(z3.And(i >= 0, i < cnt_), z3.And(S(i) >= 0, S(i) < n_, m_(S(i)), K(S(i)) == i)), patterns=[S(i)]),
               z3.ForAll([i, j] + ps, z3.Implies(z3.And(i >= 0, i < j, j < cnt_), S(i) < S(j)), patterns=[z3.MultiPattern(S(i), S(j))]),
               z3.ForAll([i] + ps, z3.Implies(z3.And(i >= 0, i < n_, m_(i)), z3.And(K(i) >= 0, K(i) < cnt_, S(K(i)) == i)), patterns=[K(i)])]
        terms.register("SEL!" + key, *axs)
        terms.register("RANK!" + key, *axs)
    c.assume_once(z3.And(cnt >= 0, z3.Implies(n >= 0, cnt <= n)), "ax")
    return cnt, (lambda t: SEL(t, *params)), (lambda t: RANK(t, *params))


# ------------------------------------------------------------------ generic operations on values
def eq_term(a, b):
    """z3 Bool for a == b (used in membership / lookups)"""
    if a is b:
        return z3.BoolVal(True)
    if isinstance(a, (tuple, list)) and isinstance(b, (tuple, list)):
        if len(a) != len(b):
            return z3.BoolVal(False)
        return z3.And(*[eq_term(x, y) for x, y in zip(a, b)]) if len(a) else z3.BoolVal(True)
    if a is None or b is None:
        return z3.BoolVal(a is b)
    r = (a == b)
    if r is NotImplemented:
        return z3.BoolVal(False)
    return bool_term(r)


def merge(c, a, b):
    """if c then a else b"""
    if a is b:
        return a
    if isinstance(c, bool):
        return a if c else b
    c = simp(c)
    if z3.is_true(c):
        return a
    if z3.is_false(c):
        return b
    if isinstance(b, Opaque) and b.tag == "empty":
        return a
    if isinstance(a, Opaque) and a.tag == "empty":
        return b
    if isinstance(a, (SBool, bool)) and isinstance(b, (SBool, bool)):
        return SB(z3.If(c, bool_term(a), bool_term(b)))
    from . import arr
    pa = num_parts(a) if not isinstance(a, arr.SArr) else None
    pb = num_parts(b) if not isinstance(b, arr.SArr) else None
    if pa is not None and pb is not None:
        x, y = pa[0], pb[0]
        mixed = False
        if z3.is_int(x) != z3.is_int(y) or isinstance(a, SMixed) or isinstance(b, SMixed):
            mixed = pa[1] is None and pb[1] is None and not isinstance(a, SBool) and not isinstance(b, SBool) and _mixable(a, x) and _mixable(b, y)
            x, y = real(x), real(y)
        if mixed:
            e = simp(z3.If(c, x, y))
            return SMixed(e) if not z3.is_int_value(e) and e.decl().kind() != z3.Z3_OP_TO_REAL else SN(e)
        nan = None
        if pa[1] is not None or pb[1] is not None:
            nan = z3.If(c, pa[1] if pa[1] is not None else z3.BoolVal(False), pb[1] if pb[1] is not None else z3.BoolVal(False))
        return SN(z3.If(c, x, y), nan)
    if isinstance(a, (SStr, str)) and isinstance(b, (SStr, str)):
        if isinstance(a, str) and isinstance(b, str) and a == b:
            return a
        made = None
        if isinstance(a, SStr) and isinstance(b, SStr) and a.made and b.made and a.made[0] == b.made[0]:
            if a.made[0] == "int":
                made = ("int", merge(c, a.made[1], b.made[1]))
            elif a.made[0] == "fmt" and a.made[1] == b.made[1]:
                return mk_fmt(a.made[1], [merge(c, x, y) for x, y in zip(a.made[2], b.made[2])])
        return SStr(simp(z3.If(c, str_term(a), str_term(b))), made)
    if isinstance(a, SBytes) and isinstance(b, SBytes):
        return SBytes(merge(c, a.s, b.s))
    if isinstance(a, tuple) and isinstance(b, tuple) and len(a) == len(b):
        return tuple(merge(c, x, y) for x, y in zip(a, b))
    if isinstance(a, SymObj) and isinstance(b, SymObj) and a.e.sort() == b.e.sort():
        return SymObj(simp(z3.If(c, a.e, b.e)), {**a._attrs, **b._attrs}, a._label)
    if isinstance(a, PList) and isinstance(b, PList):
        return PList(_seq=merge(c, a.seq(), b.seq()))
    if isinstance(a, Seq) and isinstance(b, Seq):
        if a.concrete() and b.concrete() and a.n == b.n:
            return Seq(a.n, lambda i: merge(c, a.get(i), b.get(i))) if a.kind != "const" or b.kind != "const" else \
                Seq.const([merge(c, x, y) for x, y in zip(a.parts, b.parts)])
        # an empty alternative must not be indexed
        n = z3.If(c, a.nt, b.nt)
        return Seq(n, lambda i: merge(c, a.get(i), b.get(i)), "ite", (c, a, b))
    if isinstance(a, arr.SArr) and isinstance(b, arr.SArr) and a.ndim == b.ndim:
        shp = [x if (isinstance(x, int) and isinstance(y, int) and x == y) else simp(z3.If(c, _z(x), _z(y)))
               for x, y in zip(a.shape_t, b.shape_t)]
        fa, fb = a.reader(), b.reader()
        return arr.SArr(shp, lambda idx: merge(c, fa(idx), fb(idx)), a.kind if a.kind == b.kind else "float")
    if isinstance(a, PDict) and isinstance(b, PDict):
        raise Unsupported("merge of dictionaries")
    if type(a) is type(b) and hasattr(type(a), "__pv_merge__"):
        return a.__pv_merge__(c, b)
    if type(a) is type(b) and not isinstance(a, type) and hasattr(a, "__dict__") and not callable(a) and set(a.__dict__) == set(b.__dict__):
        r = object.__new__(type(a))
        for k in a.__dict__:
            r.__dict__[k] = merge(c, a.__dict__[k], b.__dict__[k])
        return r
    if isinstance(a, slice) and isinstance(b, slice):
        return slice(merge(c, a.start, b.start), merge(c, a.stop, b.stop), merge(c, a.step, b.step))
    try:
        if type(a) is type(b) and not is_sym(a) and a == b and not isinstance(a, (list, dict)):
            return a
    except Exception:
        pass
    if isinstance(a, (Havocked, type)) or isinstance(b, (Havocked, type)) or (isinstance(a, Opaque) and a.tag.startswith("$ph")) or (isinstance(b, Opaque) and b.tag.startswith("$ph")):
        raise Unsupported("merge of %s and %s" % (type(a).__name__, type(b).__name__))
    return Choice(simp(c), a, b)


class Choice(Sym):
    """one of two values of different types; every use decides which"""
    __slots__ = ("c", "a", "b")

    def __init__(self, c, a, b):
        self.c, self.a, self.b = c, a, b

    def pick(self):
        return self.a if C().branch(self.c) else self.b

    def __getattr__(self, n):
        if n in ("e", "nan", "made") or n.startswith("__"):
            raise AttributeError(n)
        return getattr(self.pick(), n)

    def __pv_subst__(self, pairs):
        return merge(simp(z3.substitute(self.c, *pairs)), subst(self.a, pairs), subst(self.b, pairs))

    def __pv_key__(self, vk):
        return "choice(%s,%s,%s)" % (self.c.sexpr(), vk(self.a), vk(self.b))

    def __bool__(self):
        return bool(self.pick())

    def __getitem__(self, i):
        return self.pick()[i]

    def __eq__(self, o):
        return self.pick() == o

    def __ne__(self, o):
        return self.pick() != o
    __hash__ = None

    def __call__(self, *a, **k):
        return self.pick()(*a, **k)

    def __pv_len__(self):
        from .runtime import p_len
        return p_len(self.pick())

    def __iter__(self):
        return iter(self.pick())

    def _u(self, *a):
        raise Unsupported("use of a value of uncertain type")
    __len__ = __int__ = __float__ = __index__ = __contains__ = __setitem__ = __str__ = __format__ = __fspath__ = _u


def _choice_ops():
    import operator

    def two(op):
        return (lambda self, o: op(self.pick(), o)), (lambda self, o: op(o, self.pick()))
    for n in ("add", "sub", "mul", "truediv", "floordiv", "mod", "pow", "and", "or"):
        op = getattr(operator, n + "_" if n in ("and", "or") else n)
        f, r = two(op)
        setattr(Choice, "__%s__" % n, f)
        setattr(Choice, "__r%s__" % n, r)
    for n in ("lt", "le", "gt", "ge"):
        setattr(Choice, "__%s__" % n, two(getattr(operator, n))[0])
    Choice.__neg__ = lambda self: -self.pick()
    Choice.__abs__ = lambda self: abs(self.pick())


_choice_ops()


_visiting = set()


def subst(v, pairs):
    """substitute z3 constants in a structured value"""
    if not pairs:
        return v
    if isinstance(v, SMixed):
        e = simp(z3.substitute(v.e, *pairs))
        return SMixed(e) if e.decl().kind() == z3.Z3_OP_ITE else SN(e)
    if isinstance(v, SNum):
        return SN(z3.substitute(v.e, *pairs), None if v.nan is None else z3.substitute(v.nan, *pairs))
    if isinstance(v, SBool):
        return SB(z3.substitute(v.e, *pairs))
    if isinstance(v, SStr):
        made = None
        if v.made:
            if v.made[0] == "int":
                made = ("int", subst(v.made[1], pairs))
            elif v.made[0] == "fmt":
                made = ("fmt", v.made[1], tuple(subst(x, pairs) for x in v.made[2]))
            else:
                made = (v.made[0],) + tuple(subst(x, pairs) for x in v.made[1:])
        e = z3.substitute(v.e, *pairs)
        if made and made[0] == "fmt" and C() is not None and injective_template(made[1]):
            return mk_fmt(made[1], made[2])
        return SStr(e, made)
    if isinstance(v, SBytes):
        return SBytes(subst(v.s, pairs))
    if isinstance(v, SymObj):
        at = v._attrs
        if at.get("__dep__"):
            at = {k: (lambda o, f=f: subst(f(v), pairs)) for k, f in at.items() if k != "__dep__"}
            at["__dep__"] = True
        return SymObj(z3.substitute(v.e, *pairs), at, v._label)
    if isinstance(v, tuple):
        r = tuple(subst(x, pairs) for x in v)
        if type(v) is not tuple:
            return type(v)(*r)
        return r
    if isinstance(v, Seq):
        return seq_subst(v, pairs)
    if isinstance(v, PList):
        return PList(_seq=seq_subst(v.seq(), pairs))
    if isinstance(v, slice):
        return slice(subst(v.start, pairs), subst(v.stop, pairs), subst(v.step, pairs))
    from . import arr
    if isinstance(v, arr.SArr):
        return v.subst(pairs)
    if z3.is_expr(v):
        return simp(z3.substitute(v, *pairs))
    if v is None or isinstance(v, (int, float, str, bytes, bool, type, complex)) or callable(v) and not hasattr(type(v), "__pv_subst__"):
        return v
    if hasattr(type(v), "__pv_subst__"):
        return v.__pv_subst__(pairs)
    if isinstance(v, PDict):
        return v.subst(pairs)
    if isinstance(v, Opaque):
        return type(v)(v.tag, z3.substitute(v.e, *pairs) if v.e is not None else None)
    if hasattr(v, "__dict__") and not isinstance(v, type) and not isinstance(v, types.ModuleType):
        if id(v) in _visiting:
            return v
        _visiting.add(id(v))
        try:
            ch = {k: subst(x, pairs) for k, x in v.__dict__.items()}
        finally:
            _visiting.discard(id(v))
        if all(ch[k] is v.__dict__[k] for k in ch):
            return v
        r = object.__new__(type(v))
        r.__dict__.update(ch)
        return r
    return v


def _at(get, i, pairs):
    """evaluate get at a fresh index, substitute, then put i: keeps i itself out of the substitution"""
    iz = _z(i)
    if z3.is_int_value(simp(iz)):
        return subst(get(iz if not isinstance(i, int) else i), pairs)
    x = C().fresh_const("ix", I)
    v = subst(get(x), pairs)
    return subst(v, [(x, iz)])


def seq_subst(s, pairs):
    if s.kind == "const":
        return Seq.const([subst(x, pairs) for x in s.parts])
    if s.kind == "cat":
        r = seq_subst(s.parts[0], pairs)
        for p in s.parts[1:]:
            r = Seq.cat(r, seq_subst(p, pairs))
        return r
    if s.kind == "flat":
        n, seg = s.parts
        return Seq.flat(subst(_z(n), pairs), lambda j: _at(seg, j, pairs))
    if s.kind == "ite":
        c, a, b = s.parts
        return merge(simp(z3.substitute(c, *pairs)), seq_subst(a, pairs), seq_subst(b, pairs))
    if s.kind == "filter":
        n, mask, get, sel, rank = s.parts
        return Seq.filt(subst(_z(n), pairs), lambda j: _at(mask, j, pairs), lambda j: _at(get, j, pairs))
    return Seq(subst(s.nt, pairs), lambda i: _at(s.get, i, pairs))


# ------------------------------------------------------------------ lists
class _LM(type):
    def __instancecheck__(cls, x):
        return isinstance(x, builtins.list)

    def __subclasscheck__(cls, x):
        return builtins.issubclass(x, builtins.list)


class PList(list, metaclass=_LM):
    """python list that can have a symbolic length (self.sym is then a Seq)"""
    def __init__(self, items=(), _seq=None):
        self.sym = None
        self.born = tick()
        if _seq is not None:
            if _seq.kind == "const":
                list.__init__(self, _seq.parts)
            else:
                list.__init__(self)
                self.sym = _seq
            return
        s = as_seq(items)
        if s is not None and s.kind != "const":
            list.__init__(self)
            self.sym = s
        elif s is not None:
            list.__init__(self, s.parts)
        else:
            list.__init__(self, items)

    def seq(self):
        if self.sym is not None:
            return self.sym
        return Seq.const(list.__iter__(self))

    def __pv_get__(self):
        return {"seq": self.seq()}

    def __pv_set__(self, st):
        self.set_seq(st["seq"])

    def set_seq(self, s):
        if s.kind == "const":
            self.sym = None
            list.clear(self)
            list.extend(self, s.parts)
        else:
            list.clear(self)
            self.sym = s

    def __iter__(self):
        if self.sym is not None:
            if self.sym.concrete():
                return iter([self.sym.get(i) for i in range(self.sym.n)])
            raise Unsupported("native iteration over a list of symbolic length")
        return list.__iter__(self)

    def __len__(self):
        if self.sym is not None:
            if self.sym.concrete():
                return self.sym.n
            raise Unsupported("native len of a list of symbolic length")
        return list.__len__(self)

    def __bool__(self):
        if self.sym is not None:
            return C().branch(self.sym.nt > 0)
        return list.__len__(self) > 0

    def append(self, x):
        if self.sym is not None:
            self.sym = Seq.cat(self.sym, Seq.const([x]))
        else:
            list.append(self, x)

    def extend(self, xs):
        s = as_seq(xs)
        if s is None:
            s = Seq.const(list(xs))
        if self.sym is None and s.kind == "const":
            list.extend(self, s.parts)
        else:
            self.set_seq(Seq.cat(self.seq(), s))

    def __add__(self, o):
        if isinstance(o, Sym) and not isinstance(o, (SStr, Opaque)):
            return NotImplemented
        if not isinstance(o, list):
            raise TypeError("can only concatenate list (not %r) to list" % type(o).__name__)
        return PList(_seq=Seq.cat(self.seq(), as_seq(o)))

    def __radd__(self, o):
        return PList(_seq=Seq.cat(as_seq(o), self.seq()))

    def __iadd__(self, o):
        self.extend(o)
        return self

    def __mul__(self, k):
        if isinstance(k, int) and self.sym is None:
            return PList(list.__mul__(self, k))
        s = self.seq()
        if s.concrete() and s.n == 1:
            v = s.get(0)
            C().assume(z3.BoolVal(True))
            n = simp(z3.If(_z(k) > 0, _z(k), z3.IntVal(0))) if not C().entails(_z(k) >= 0) else _z(k)
            return PList(_seq=Seq(n, lambda i: v))
        raise Unsupported("list repetition")
    __rmul__ = __mul__

    def __getitem__(self, i):
        if self.sym is None and not is_sym(i) and not (isinstance(i, slice) and any(is_sym(x) for x in (i.start, i.stop, i.step))):
            r = list.__getitem__(self, i)
            return PList(r) if isinstance(i, slice) else r
        s = self.seq()
        if isinstance(i, slice):
            a, b = norm_slice(i, s.nt)
            return PList(_seq=s.slice(a, b))
        p = num_parts(i)
        if p is None:
            raise TypeError("list indices must be integers")
        k = p[0]
        c = C()
        if not c.branch(z3.And(k >= 0, k < s.nt)):
            if c.branch(z3.And(k < 0, k >= -s.nt)):
                k = simp(s.nt + k)
            else:
                raise IndexError("list index out of range")
        v = s.get(k)
        if isinstance(v, SMixed):
            v = v.resolve()
        if self.sym is not None or (s.kind == "const" and not any(v is x for x in s.parts)):
            adopt(v, lambda ch: self._put(k, ch))
        return v

    def _put(self, k, v):
        touch(self)
        g = self.seq()
        v = freeze(v)
        if g.concrete():
            self.set_seq(Seq.const([merge(simp(k == j), v, g.get(j)) for j in range(g.n)]))
        else:
            self.set_seq(Seq(g.n, lambda j: merge(simp(_z(j) == k), v, g.get(j))))
        mutated(self)

    def __setitem__(self, i, v):
        if self.sym is None and not is_sym(i) and not isinstance(i, slice):
            return list.__setitem__(self, i, v)
        if isinstance(i, slice):
            raise Unsupported("list slice assignment")
        s = self.seq()
        k = num_parts(i)[0]
        c = C()
        if not c.branch(z3.And(k >= 0, k < s.nt)):
            if c.branch(z3.And(k < 0, k >= -s.nt)):
                k = simp(s.nt + k)
            else:
                raise IndexError("list assignment index out of range")
        if s.concrete():
            self.set_seq(Seq.const([merge(simp(k == j), v, s.get(j)) for j in range(s.n)]))
        else:
            g = s.get
            self.set_seq(Seq(s.n, lambda j: merge(simp(_z(j) == k), v, g(j))))

    def __contains__(self, x):
        if self.sym is None:
            for y in list.__iter__(self):
                if x is y:
                    return True
                r = (x == y)
                if r is True or (r is not False and r is not NotImplemented and bool(r)):
                    return True
            return False
        return C().branch(self.sym.contains(x))

    def index(self, x, *a):
        if self.sym is None:
            for k, y in enumerate(list.__iter__(self)):
                if bool(x == y):
                    return k
            raise ValueError("%r is not in list" % (x,))
        s = self.sym
        c = C()
        # first position holding x: fork on membership with a witness
        j = c.fresh("index", I)
        here = c.fresh("found", B)
        q = z3.Int("$q%d" % _nextm())
        if c.branch(here):
            c.assume(z3.And(j >= 0, j < s.nt, eq_term(s.get(j), x)))
            c.assume(z3.ForAll([q], z3.Implies(z3.And(q >= 0, q < j), z3.Not(eq_term(s.get(q), x)))))
            return SN(j)
        c.assume(z3.ForAll([q], z3.Implies(z3.And(q >= 0, q < s.nt), z3.Not(eq_term(s.get(q), x)))))
        raise ValueError("not in list")

    def insert(self, i, x):
        if self.sym is None and isinstance(i, int):
            return list.insert(self, i, x)
        if i == 0:
            self.set_seq(Seq.cat(Seq.const([x]), self.seq()))
            return
        raise Unsupported("insert")

    def pop(self, *a):
        if self.sym is None and not any(is_sym(x) for x in a):
            return list.pop(self, *a)
        raise Unsupported("pop from symbolic list")

    def remove(self, x):
        if self.sym is None:
            for k, y in enumerate(list.__iter__(self)):
                if bool(x == y):
                    return list.__delitem__(self, k)
            raise ValueError("list.remove(x): x not in list")
        raise Unsupported("remove from symbolic list")

    def sort(self, **k):
        if self.sym is None and not _deep_sym(list(list.__iter__(self))):
            return list.sort(self, **k)
        f = k.pop("key", None) or (lambda x: x)
        if k:
            raise Unsupported("sort with options")
        s, c = self.seq(), C()
        P, Q = c.unique_fun("sorted_from", [I], I), c.unique_fun("sorted_to", [I], I)
        i, j = z3.Int("$so_i"), z3.Int("$so_j")
        inr = lambda t: z3.And(t >= 0, t < s.nt)
        kt = lambda t: key_term(f(s.get(t)))
        if kt(i) is None or not z3.is_int(kt(i)):
            raise Unsupported("sort key")
        c.assume(z3.ForAll([i], z3.Implies(inr(i), z3.And(inr(P(i)), Q(P(i)) == i)), patterns=[P(i)]))
        c.assume(z3.ForAll([i], z3.Implies(inr(i), z3.And(inr(Q(i)), P(Q(i)) == i)), patterns=[Q(i)]))
        c.assume(z3.ForAll([i, j], z3.Implies(z3.And(inr(i), inr(j), i < j), z3.And(kt(P(i)) <= kt(P(j)), z3.Implies(kt(P(i)) == kt(P(j)), P(i) < P(j)))),
                           patterns=[z3.MultiPattern(P(i), P(j))]))
        self.set_seq(Seq(s.n, lambda t: s.get(P(_z(t)))))

    def clear(self):
        self.sym = None
        list.clear(self)

    def copy(self):
        return PList(_seq=self.seq())

    def __eq__(self, o):
        if self.sym is None and not (isinstance(o, PList) and o.sym is not None):
            if not isinstance(o, list):
                return NotImplemented
            if list.__len__(self) != list.__len__(o):
                return False
            return all(bool(x == y) for x, y in zip(list.__iter__(self), list.__iter__(o)))
        raise Unsupported("== of symbolic lists")

    def __ne__(self, o):
        return not (self == o)
    __hash__ = None

    def __repr__(self):
        return "PList(sym %s)" % self.sym.n if self.sym is not None else list.__repr__(self)

    def __deepcopy__(self, memo):
        import copy
        if self.sym is not None:
            return PList(_seq=self.sym)
        return PList([copy.deepcopy(x, memo) for x in list.__iter__(self)])

    def __copy__(self):
        return PList(_seq=self.seq())


def freeze(v):
    """a snapshot of a mutable value"""
    if isinstance(v, PList):
        return PList(_seq=v.seq())
    if isinstance(v, PDict):
        return PDict(v)
    from . import arr
    if isinstance(v, arr.SArr):
        return v.copy()
    if hasattr(type(v), "__pv_adopt__"):
        r = object.__new__(type(v))
        BORN[id(r)] = (r, tick())
        for k, x in v.__dict__.items():
            r.__dict__[k] = freeze(x)
        return r
    return v


def adopt(child, write_back):
    """an element read from a symbolic container: mutations are written back"""
    if isinstance(child, (PList, PDict)):
        OWN[id(child)] = (child, write_back)
    elif hasattr(type(child), "__pv_adopt__"):
        OWN[id(child)] = (child, write_back)
        for k, x in list(child.__dict__.items()):
            y = freeze(x)          # its own copy of the parts, written back through the owner
            if y is not x:
                child.__dict__[k] = y
                adopt(y, lambda ch: mutated(child))
    return child


wrap_mutators(PList, ["append", "extend", "__iadd__", "__setitem__", "insert", "pop", "remove", "sort", "clear", "__delitem__", "reverse"])


def norm_slice(sl, n):
    """-> z3 (start, stop) of a unit-step slice over length n, both clipped into 0..n, start<=stop"""
    if sl.step not in (None, 1):
        raise Unsupported("slice step")
    n = _z(n)
    c = C()

    def clip(v, default):
        if v is None:
            return default
        v = num_parts(v)[0]
        if z3.is_int_value(simp(v)) and simp(v).as_long() == 0:
            return z3.IntVal(0)
        if c.entails(z3.And(v >= 0, v <= n)):
            return v
        if c.entails(z3.And(v < 0, v >= -n)):
            return simp(n + v)
        return simp(z3.If(v < 0, z3.If(v + n < 0, z3.IntVal(0), v + n), z3.If(v > n, n, v)))
    a, b = clip(sl.start, z3.IntVal(0)), clip(sl.stop, n)
    if not c.entails(a <= b):
        b = simp(z3.If(a <= b, b, a))
    return simp(a), simp(b)


class SRange:
    """range over symbolic bounds"""
    def __init__(self, a, b, s=1):
        self.a, self.b, self.s = a, b, s

    def seq(self):
        if self.s != 1:
            raise Unsupported("range step")
        a, b = num_parts(self.a)[0], num_parts(self.b)[0]
        n = simp(b - a)
        if not C().entails(n >= 0):
            n = simp(z3.If(n > 0, n, z3.IntVal(0)))
        return Seq(n, lambda i: SN(simp(a + _z(i))))

    def __iter__(self):
        raise Unsupported("native iteration over a symbolic range")

    def __pv_len__(self):
        return SN(self.seq().nt)


class SIter:
    """an iterable described by a Seq (result of enumerate/zip/map/generator over symbolic sequences)"""
    def __init__(self, seq):
        self._seq = seq
        self.pos = 0

    def seq(self):
        return self._seq if self.pos == 0 else self._seq.slice(self.pos, self._seq.nt)

    def __iter__(self):
        s = self.seq()
        if s.concrete():
            return iter([s.get(i) for i in range(s.n)])
        raise Unsupported("native iteration over symbolic sequence")

    def __next__(self):
        s = self._seq
        if C().branch(s.nt > self.pos):
            v = s.get(self.pos if s.concrete() else z3.IntVal(self.pos))
            self.pos += 1
            return v
        raise StopIteration()


class SView(SIter):
    """a view of a dictionary of unknown size"""
    def __next__(self):
        raise TypeError("a dictionary view is not an iterator")

    def __pv_len__(self):
        return SN(self._seq.nt)


def as_seq(x):
    """Seq of an iterable, or None if it must be iterated natively"""
    if type(x) is list:
        return Seq.const(tuple(x))
    if isinstance(x, Choice):
        return as_seq(x.pick())
    if isinstance(x, PList):
        return x.seq()
    if isinstance(x, (tuple, list)):
        return Seq.const(tuple(x))
    if isinstance(x, Seq):
        return x
    if isinstance(x, (SRange, SIter)):
        return x.seq()
    if isinstance(x, PDict):
        return x.keys().seq()
    if isinstance(x, PSet):
        return x.seq()
    from . import arr
    if isinstance(x, arr.SArr):
        return x.as_seq()
    if hasattr(type(x), "__pv_seq__"):
        return x.__pv_seq__()
    if isinstance(x, (range, dict, set, frozenset, str)) or type(x).__name__ in ("dict_keys", "dict_values", "dict_items", "generator", "map", "zip", "enumerate", "chain", "list_iterator", "tuple_iterator", "list_reverseiterator", "range_iterator"):
        return Seq.const(tuple(x))
    return None


# ------------------------------------------------------------------ dictionaries
class SymMap:
    """finite map with injective key enumeration: key(j) for j<n with cond(j); value val(j)"""
    def __init__(self, n, key, val, cond=None):
        self.n, self.key, self.val, self.cond = n, key, val, cond

    def keyseq(self, f):
        if self.cond is None:
            return Seq(self.n, f)
        return Seq.filt(self.n, self.cond, f)


def key_term(key):
    """z3 term of a dictionary key (Int or Str), or None"""
    if isinstance(key, (SStr, str)):
        return str_term(key)
    if isinstance(key, Choice):
        return key_term(key.pick())
    p = num_parts(key)
    if p is not None and p[1] is None:
        e = p[0]
        if z3.is_int(e):
            return simp(e)
        if isinstance(key, float) and key == int(key):
            return z3.IntVal(int(key))
    return None


def key_value(t):
    return SStr(t) if t.sort() == Str else SN(t)


class FMap:
    """finite map as a pair of functions of the key term; order: Seq of keys in insertion order, or None (unknown order)"""
    def __init__(self, sort, has, val, order=None, parent=None, at=None, new=None):
        self.sort = sort
        self._has, self._val = has, val
        self.order = order
        self.parent, self.at_key, self.new = parent, at, new     # provenance of a single store or deletion
        self.enum = None

    @staticmethod
    def empty(sort):
        return FMap(sort, lambda y: z3.BoolVal(False), lambda y: Opaque("empty"), Seq.const(()))

    def has(self, x):
        return simp(self._has(x))

    def val(self, x):
        return self._val(x)

    def store(self, x, v):
        h, f = self._has, self._val
        order = None
        if self.order is not None:
            c = C()
            p = self.has(x)
            if z3.is_true(p) or c.entails(p):
                order = self.order
            elif z3.is_false(p) or c.entails(z3.Not(p)):
                order = Seq.cat(self.order, Seq.const([key_value(x)]))
        return FMap(self.sort, lambda y: z3.Or(y == x, h(y)), lambda y: merge(simp(y == x), v, f(y)), order, self, x, (v,))

    def delete(self, x):
        h, f = self._has, self._val
        return FMap(self.sort, lambda y: z3.And(y != x, h(y)), f, None, self, x, ())

    def keys_seq(self):
        if self.order is not None:
            return self.order
        c = C()
        if self.enum is None:
            n = c.unique_fun("keys_n", [], I)()
            self.enum = (n, c.unique_fun("key", [I], self.sort), c.unique_fun("rank", [self.sort], I))
            if c.index_stack:
                self.enum_stack = list(c.index_stack)
        n, key, rank = self.enum
        j, x = z3.Int("$ej"), z3.Const("$ex", self.sort)
        register_inverse(key(z3.Int("$tj")), z3.Int("$tj"), rank)
        c.assume_once(n >= 0)
        c.assume_once(z3.ForAll([j], z3.Implies(z3.And(j >= 0, j < n), z3.And(self.has(key(j)), rank(key(j)) == j)), patterns=[key(j)]))
        c.assume_once(z3.ForAll([x], z3.Implies(self.has(x), z3.And(rank(x) >= 0, rank(x) < n, key(rank(x)) == x)), patterns=[rank(x)]))

        def get(i):
            i = _z(i)
            c2 = C()
            if not z3.is_var(i) and not i.sexpr().startswith("$"):
                c2.assume_once(z3.Implies(z3.And(i >= 0, i < n), z3.And(self.has(key(i)), rank(key(i)) == i)), "ax")
            return key_value(key(i))
        return Seq(n, get)

    def __pv_key__(self, vk):
        q = z3.Const("$fk", self.sort)
        return "F(%s,%s)" % (self.has(q).sexpr(), vk(self.val(q)))

    def __pv_subst__(self, pairs):
        def at(f):
            def g(y):
                x = C().fresh_const("fx", self.sort)
                return subst(subst(f(x), pairs), [(x, y)])
            return g
        return FMap(self.sort, at(self._has), at(self._val), None if self.order is None else seq_subst(self.order, pairs))


def as_fmap(d, sort=None):
    """the content of a dictionary as functions of the key"""
    if isinstance(d.base, FMap):
        return d.base
    if not d.symbolic():
        m = FMap.empty(sort)
        for k in dict.__iter__(d):
            m = m.store(key_term(k), dict.__getitem__(d, k))
        return m
    if d.base is None:
        m = FMap.empty(sort)
    else:
        b = d.base
        c = C()
        q = z3.Int("$iq")
        kq = key_term(b.key(q))
        if kq is None:
            raise Unsupported("dictionary keys")
        if not hasattr(b, "inv"):
            b.inv = c.unique_fun("inv", [kq.sort()], I)
            rng = [q >= 0, q < _z(b.n)] + ([b.cond(q)] if b.cond else [])
            c.assume(z3.ForAll([q], z3.Implies(z3.And(*rng), b.inv(kq) == q), patterns=[kq]) if z3.is_app(kq) and kq.num_args() else
                     z3.ForAll([q], z3.Implies(z3.And(*rng), b.inv(kq) == q)))
        inv = b.inv
        m = FMap(kq.sort(), lambda x: z3.And(inv(x) >= 0, inv(x) < _z(b.n), key_term(b.key(inv(x))) == x, *([b.cond(inv(x))] if b.cond else [])),
                 lambda x: b.val(inv(x)))
    for k, v in d.log or ():
        m = m.store(key_term(k), v)
    return m


_INJ = set()  # injective formats
_INV = {}    # declaration name -> (decl, position of the index, other arguments, inverse)


def register_inverse(t, j, inv):
    """t = f(..j..) is injective in j with inverse inv"""
    for i, a in enumerate(t.children()):
        if a.eq(j):
            _INV[t.decl().name()] = (t.decl(), i, inv)
            return


def solve_key(key, k, x):
    """index j with key(j) == x, for a key term injective in k: term j or None when no inverse is known"""
    if z3.is_int(key):
        r = terms.linear_in(key, k)
        if r is not None and not terms.occurs(r[1], k):
            cf, rest = r
            return simp((x - rest) if cf == 1 else (rest - x))
    if z3.is_app(key):
        nm = key.decl().name()
        ix = [i for i, a in enumerate(key.children()) if terms.occurs(a, k)]
        if len(ix) == 1:
            known = nm in _INV and _INV[nm][1] == ix[0] or nm in _INJ
            if known and z3.is_app(x) and x.decl().eq(key.decl()) and all(a.eq(b) for i, (a, b) in enumerate(zip(key.children(), x.children())) if i != ix[0]):
                a = key.arg(ix[0])
                if a.eq(k):
                    return x.arg(ix[0])
                r = terms.linear_in(a, k) if z3.is_int(a) else None
                if r is not None and not terms.occurs(r[1], k):
                    cf, rest = r
                    return simp((x.arg(ix[0]) - rest) if cf == 1 else (rest - x.arg(ix[0])))
            if nm in _INV and _INV[nm][1] == ix[0]:
                a = key.arg(ix[0])
                y = _INV[nm][2](x)
                if a.eq(k):
                    return y
                r = terms.linear_in(a, k) if z3.is_int(a) else None
                if r is not None and not terms.occurs(r[1], k):
                    cf, rest = r
                    return simp((y - rest) if cf == 1 else (rest - y))
    return None


terms.KEY_SOLVER = solve_key


class _Missing:
    pass


MISSING = _Missing()


class PDict(dict):
    """python dict; may have a symbolic base map plus an update log in insertion order."""
    def __init__(self, *a, **k):
        dict.__init__(self)
        self.born = tick()
        self.base = None        # SymMap
        self.log = None         # list of (key, value) when symbolic keys are present
        if a:
            src = a[0]
            if isinstance(src, PDict) and (src.base is not None or src.log is not None):
                self.base = src.base
                self.log = list(src.log or [])
            elif isinstance(src, dict):
                for kk in src:
                    self[kk] = src[kk]
            else:
                s = as_seq(src)
                if s is None:
                    s = Seq.const(tuple(src))
                if s.concrete():
                    for i in range(s.n):
                        kk, vv = s.get(i)
                        self[kk] = vv
                else:
                    self._from_seq(s)
        for kk, vv in k.items():
            self[kk] = vv

    def _from_seq(self, s):
        # requires distinct keys
        c = C()
        i, j = c.fresh_const("ki", I), c.fresh_const("kj", I)
        g = z3.Implies(z3.And(i >= 0, i < j, j < s.nt), z3.Not(eq_term(s.get(i)[0], s.get(j)[0])))
        if not c.entails_q(g):
            raise Unsupported("dict of a symbolic sequence whose keys may repeat")
        self.base = SymMap(s.n, lambda q: s.get(q)[0], lambda q: s.get(q)[1])
        self.log = []

    def __pv_get__(self):
        if self.symbolic() or not dict.__len__(self):
            return {"map": (self.base, tuple(self.log or ()))}
        r = {("k", k): dict.__getitem__(self, k) for k in dict.__iter__(self)}
        r["keys"] = tuple(dict.__iter__(self))
        return r

    def __pv_set__(self, st):
        dict.clear(self)
        if "map" in st:
            self.base, self.log = st["map"][0], list(st["map"][1])
            if self.base is None and not self.log:
                self.log = None
            return
        self.base = self.log = None
        for k in st["keys"]:
            dict.__setitem__(self, k, st[("k", k)])

    def symbolic(self):
        return self.base is not None or self.log is not None

    def _go_sym(self, key=None):
        if self.log is None and self.base is None and key is not None:
            x = key_term(key)
            if x is not None and not any(key_term(k) is None or key_term(k).sort() != x.sort() for k in dict.__iter__(self)):
                m = FMap.empty(x.sort())
                for k in dict.__iter__(self):
                    m = m.store(key_term(k), dict.__getitem__(self, k))
                m.order = Seq.const([k for k in dict.__iter__(self)])
                m.parent = None
                for k in list(dict.__iter__(self)):
                    adopt(dict.__getitem__(self, k), lambda ch, x=key_term(k): self._putx(x, ch))
                dict.clear(self)
                self.base, self.log = m, []
                return
        if self.log is None:
            self.log = [(k, dict.__getitem__(self, k)) for k in dict.__iter__(self)]
            dict.clear(self)

    def _find(self, key):
        """-> ('log', i) | ('base', j) | None, forking as needed"""
        c = C()
        for i in range(len(self.log) - 1, -1, -1):
            k = self.log[i][0]
            if c.branch(eq_term(k, key)):
                return ("log", i)
        if self.base is not None:
            m = self.base
            x = key
            q = z3.Int("$dk%d" % _nextm())
            present = c.fresh("haskey", B)
            j = c.fresh("keyix", I)
            inr = lambda t: z3.And(t >= 0, t < _z(m.n), *( [m.cond(t)] if m.cond else []))
            # is there a syntactic witness?  key(t) == x for a loop index t
            for t in reversed(c.index_stack + getattr(c, "witnesses", [])):
                try:
                    if eq_term(m.key(t), x) is not None and z3.is_true(simp(eq_term(m.key(t), x))) and c.entails(inr(t)):
                        return ("base", t)
                except Exception:
                    pass
            if c.branch(present):
                c.assume(z3.And(inr(j), eq_term(m.key(j), x)))
                return ("base", j)
            c.assume(z3.ForAll([q], z3.Implies(inr(q), z3.Not(eq_term(m.key(q), x)))))
        return None

    def _lookup(self, key):
        if not self.symbolic():
            if not is_sym(key) and not (isinstance(key, tuple) and _deep_sym(key)):
                return dict.get(self, key, MISSING)
            for k in dict.__iter__(self):
                if C().branch(eq_term(k, key)):
                    return dict.__getitem__(self, k)
            return MISSING
        if isinstance(self.base, FMap):
            m = self.base
            x = key_term(key)
            if x is None or x.sort() != m.sort or not C().branch(m.has(x)):
                return MISSING
            return adopt(m.val(x), lambda ch: self._putx(x, ch))
        f = self._find(key)
        if f is None:
            return MISSING
        if f[0] == "log":
            return self.log[f[1]][1]
        j0 = f[1]
        return adopt(self.base.val(j0), lambda ch: self._put(j0, ch))

    def _putx(self, x, v):
        touch(self)
        self.base = self.base.store(x, freeze(v))
        mutated(self)

    def _put(self, j0, v):
        m = self.base
        val = m.val
        touch(self)
        self.base = SymMap(m.n, m.key, lambda q: merge(simp(_z(q) == j0), freeze(v), val(q)), m.cond)
        mutated(self)

    def __getitem__(self, key):
        v = self._lookup(key)
        if v is MISSING:
            raise KeyError(key)
        return v

    def get(self, key, default=None):
        v = self._lookup(key)
        return default if v is MISSING else v

    def __contains__(self, key):
        return self._lookup(key) is not MISSING

    def __setitem__(self, key, v):
        if not self.symbolic() and not is_sym(key) and not (isinstance(key, tuple) and _deep_sym(key)):
            return dict.__setitem__(self, key, v)
        self._go_sym(key)
        if isinstance(self.base, FMap):
            x = key_term(key)
            if x is None or x.sort() != self.base.sort:
                raise Unsupported("dictionary key of another type")
            self.base = self.base.store(x, freeze(v))
            adopt(v, lambda ch: self._putx(x, ch))
            return
        f = self._find(key)
        if f is None:
            self.log.append((key, v))
        elif f[0] == "log":
            self.log[f[1]] = (self.log[f[1]][0], v)
        else:
            m = self.base
            j0 = f[1]
            val = m.val
            self.base = SymMap(m.n, m.key, lambda q: merge(simp(_z(q) == j0), v, val(q)), m.cond)

    def __delitem__(self, key):
        if not self.symbolic() and not is_sym(key):
            return dict.__delitem__(self, key)
        if isinstance(self.base, FMap):
            x = key_term(key)
            if x is None or x.sort() != self.base.sort or not C().branch(self.base.has(x)):
                raise KeyError(key)
            self.base = self.base.delete(x)
            return
        raise Unsupported("del from symbolic dict")

    def setdefault(self, key, default=None):
        v = self._lookup(key)
        if v is MISSING:
            self[key] = default
            return default
        return v

    def update(self, o=(), **k):
        if isinstance(o, PDict) and o.symbolic():
            m2 = as_fmap(o)
            if not self.symbolic() and not dict.__len__(self):
                self.base, self.log = m2, []
            else:
                m1 = as_fmap(self, m2.sort)
                if m1.sort != m2.sort:
                    raise Unsupported("dictionary keys of different types")
                self.base = FMap(m1.sort, lambda x: z3.Or(m1.has(x), m2.has(x)), lambda x: merge(m2.has(x), m2.val(x), m1.val(x)))
                self.log = []
            for kk, vv in k.items():
                self[kk] = vv
            return
        if isinstance(o, dict):
            s = [(kk, o[kk]) for kk in o.keys()]
        else:
            s = list(o)
        for kk, vv in s:
            self[kk] = vv
        for kk, vv in k.items():
            self[kk] = vv

    def pop(self, key, *d):
        if not self.symbolic() and not is_sym(key):
            return dict.pop(self, key, *d)
        if isinstance(self.base, FMap):
            x = key_term(key)
            if x is None or x.sort() != self.base.sort or not C().branch(self.base.has(x)):
                if d:
                    return d[0]
                raise KeyError(key)
            v = self.base.val(x)
            self.base = self.base.delete(x)
            return v
        raise Unsupported("pop from symbolic dict")

    def copy(self):
        return PDict(self)

    def clear(self):
        self.base = None
        self.log = None
        dict.clear(self)

    def _items_seq(self, f):
        if not self.symbolic():
            return Seq.const([f(k, dict.__getitem__(self, k)) for k in dict.__iter__(self)])
        if isinstance(self.base, FMap):
            m = self.base
            ks = m.keys_seq()

            def at(k):
                x = key_term(k)
                return f(k, adopt(m.val(x), lambda ch: self._putx(x, ch)))
            return ks.map(at)
        tail = Seq.const([f(k, v) for k, v in self.log])
        if self.base is None:
            return tail
        m = self.base
        return Seq.cat(m.keyseq(lambda j: f(m.key(j), m.val(j))), tail)

    def items(self):
        return SView(self._items_seq(lambda k, v: (k, v))) if self.symbolic() else _View(dict.items(self))

    def keys(self):
        return SView(self._items_seq(lambda k, v: k)) if self.symbolic() else _View(dict.keys(self))

    def values(self):
        return SView(self._items_seq(lambda k, v: v)) if self.symbolic() else _View(dict.values(self))

    def __iter__(self):
        if self.symbolic():
            if self.base is None:
                return iter([k for k, v in self.log])
            raise Unsupported("native iteration over symbolic dict")
        return dict.__iter__(self)

    def __pv_len__(self):
        return SN(self._items_seq(lambda k, v: k).nt)

    def __len__(self):
        if self.symbolic():
            if self.base is None:
                return len(self.log)
            raise Unsupported("native len of symbolic dict")
        return dict.__len__(self)

    def __bool__(self):
        if self.symbolic():
            return C().branch(self._items_seq(lambda k, v: k).nt > 0)
        return dict.__len__(self) > 0

    __hash__ = None

    def __eq__(self, o):
        if self.symbolic() or (isinstance(o, PDict) and o.symbolic()):
            raise Unsupported("== of symbolic dicts")
        return dict.__eq__(self, o)

    def subst(self, pairs):
        r = PDict()
        if not self.symbolic():
            for k in dict.__iter__(self):
                dict.__setitem__(r, k, subst(dict.__getitem__(self, k), pairs))
            return r
        r.log = [(subst(k, pairs), subst(v, pairs)) for k, v in self.log]
        if isinstance(self.base, FMap):
            r.base = self.base.__pv_subst__(pairs)
        elif self.base is not None:
            m = self.base
            r.base = SymMap(subst(_z(m.n), pairs), lambda j: _at(m.key, j, pairs), lambda j: _at(m.val, j, pairs),
                            None if m.cond is None else (lambda j: _at(m.cond, j, pairs)))
        return r

    def __deepcopy__(self, memo):
        import copy
        if self.symbolic():
            return PDict(self)
        r = PDict()
        for k in dict.__iter__(self):
            dict.__setitem__(r, k, copy.deepcopy(dict.__getitem__(self, k), memo))
        return r


wrap_mutators(PDict, ["__setitem__", "__delitem__", "pop", "clear", "update"])


class _View:
    """dict view with list-like conveniences"""
    def __init__(self, v):
        self.v = v

    def __iter__(self): return iter(self.v)
    def __len__(self): return len(self.v)
    def __contains__(self, x): return x in self.v
    def seq(self): return Seq.const(tuple(self.v))
    __pv_seq__ = seq

    def __eq__(self, o): return self.v == (o.v if isinstance(o, _View) else o)
    def __sub__(self, o): return self.v - o


# ------------------------------------------------------------------ sets
class PSet:
    def __pv_get__(self):
        return {"set": (self.native and set(self.native), self.mem, self.src)}

    def __pv_set__(self, st):
        n, self.mem, self.src = st["set"]
        self.native = n if n is None else set(n)

    """set given by a membership predicate and/or the sequence it was made of"""
    def __init__(self, items=(), _mem=None):
        self.native = None
        self.born = tick()
        if _mem is not None:
            self.mem = _mem
            self.src = None
            return
        s = as_seq(items)
        if s is None:
            s = Seq.const(tuple(items))
        self.src = s
        self.mem = s.contains
        if s.kind == "const" and not any(is_sym(x) or isinstance(x, tuple) for x in s.parts):
            self.native = set(s.parts)

    def __contains__(self, x):
        if self.native is not None and not is_sym(x):
            return x in self.native
        return C().branch(self.mem(x))

    def add(self, x):
        if self.native is not None and not is_sym(x):
            self.native.add(x)
            self.src = Seq.const(tuple(self.native))
            self.mem = self.src.contains
            return
        m = self.mem
        self.native = None
        if self.src is not None:
            self.src = Seq.cat(self.src, Seq.const([x]))
        self.mem = lambda y: z3.Or(m(y), eq_term(x, y))

    def __sub__(self, o):
        o = o if isinstance(o, PSet) else PSet(o)
        if self.native is not None and o.native is not None:
            return PSet(sorted(self.native - o.native, key=repr))
        m1, m2 = self.mem, o.mem
        return PSet(_mem=lambda x: z3.And(m1(x), z3.Not(m2(x))))

    def __or__(self, o):
        o = o if isinstance(o, PSet) else PSet(o)
        m1, m2 = self.mem, o.mem
        return PSet(_mem=lambda x: z3.Or(m1(x), m2(x)))
    union = __or__

    def __and__(self, o):
        o = o if isinstance(o, PSet) else PSet(o)
        m1, m2 = self.mem, o.mem
        return PSet(_mem=lambda x: z3.And(m1(x), m2(x)))
    intersection = __and__

    def difference(self, *o):
        r = self
        for x in o:
            r = r - x
        return r

    def update(self, o):
        r = self | (o if isinstance(o, PSet) else PSet(o))
        self.mem, self.src, self.native = r.mem, r.src, r.native

    def __bool__(self):
        if self.native is not None:
            return bool(self.native)
        if self.src is not None:
            return C().branch(self.src.nt > 0)
        raise Unsupported("truth of a symbolic set")

    def __len__(self):
        if self.native is not None:
            return len(self.native)
        raise Unsupported("len of a symbolic set")

    def pop(self):
        if self.native is not None and len(self.native) == 1:
            r, = self.native
            self.native = set()
            self.src = Seq.const(())
            self.mem = self.src.contains
            return r
        raise Unsupported("pop of a set")

    def seq(self):
        if self.native is not None:
            return Seq.const(tuple(sorted(self.native, key=repr)))
        # arbitrary enumeration without repetition
        c = C()
        n = c.fresh("setlen", I)
        f = c.fresh_fun("setelem", [I], Str)
        g = c.fresh_fun("setpos", [Str], I)
        q, r = z3.Int("$q%d" % _nextm()), z3.Const("$s%d" % _nextm(), Str)
        c.assume(n >= 0)
        c.assume(z3.ForAll([q], z3.Implies(z3.And(q >= 0, q < n), z3.And(self.mem(SStr(f(q))), g(f(q)) == q)), patterns=[f(q)]))
        c.assume(z3.ForAll([r], z3.Implies(self.mem(SStr(r)), z3.And(g(r) >= 0, g(r) < n, f(g(r)) == r)), patterns=[g(r)]))
        s = Seq(n, lambda i: SStr(f(_z(i))), "setenum", self)
        s.contains = self.mem
        return s

    def __iter__(self):
        if self.native is not None:
            return iter(sorted(self.native, key=repr))
        raise Unsupported("native iteration over symbolic set")

    def __eq__(self, o):
        if isinstance(o, (set, frozenset)):
            o = PSet(list(o))
        if self.native is not None and o.native is not None:
            return self.native == o.native
        raise Unsupported("== of symbolic sets")
    __hash__ = None


wrap_mutators(PSet, ["add", "update", "pop"])
