"""P10: quantity arithmetic, comparison and selection act sample by sample."""
import operator
from pydv.api import *
from proofs.qlib import *

FUNCTIONS = ["mlmc/quantity/quantity.py:Quantity." + f for f in ("__add__", "__sub__", "__mul__", "__truediv__", "__mod__", "__radd__", "__rsub__", "__rmul__", "__rtruediv__", "__rmod__", "create_quantity", "wrap", "samples",
             "__lt__", "__le__", "__gt__", "__ge__", "__eq__", "__ne__", "_mask_quantity", "_process_mask", "select", "_method", "_result_qtype", "__array_ufunc__",
             "get_quantity_storage", "set_selection_id", "_check_selection_ids", "selection_id", "get_cache_key", "_concatenate", "QArray", "QDict")] \
    + ["mlmc/quantity/quantity.py:QuantityConst." + f for f in ("__init__", "_process_value", "samples")] + ["mlmc/quantity/quantity.py:QuantityStorage.samples"]
TRUSTED = ["numpy model (elementwise operations, broadcasting, boolean indexing)"]
ASSUMPTIONS = []
OPS = {"+": operator.add, "-": operator.sub, "*": operator.mul, "/": operator.truediv, "%": operator.mod}
CMP = {"<": operator.lt, "<=": operator.le, ">": operator.gt, ">=": operator.ge, "==": operator.eq, "!=": operator.ne}


def arith(name, scalar=False, parts=2):
    op = OPS[name]
    s = Setup(parts, scalar)
    m, i, p = s.idx()
    x, y, c, d = s.va(m, i, p), s.vb(m, i, p), freal("c"), freal("d")
    vec = farr("vec", s.M)
    if name in "/%":
        for t in (x, y, c, d, op(c, d), vec[m]):
            assume(t.e != 0)
    val = lambda q: q.samples(s.spec)[m, i, p]
    v = op(s.a, s.b).samples(s.spec)
    cover("evaluated")
    prove("shape", z3.And(_z(v.shape[0]) == _z(s.M), _z(v.shape[1]) == s.N.e, _z(v.shape[2]) == s.parts))
    prove("a %s b" % name, v[m, i, p] == op(x, y))
    prove("b %s a" % name, val(op(s.b, s.a)) == op(y, x))
    prove("a %s number" % name, val(op(s.a, c)) == op(x, c))
    prove("number %s a" % name, val(op(c, s.a)) == op(c, x))
    prove("a %s integer" % name, val(op(s.a, 3)) == op(x, 3))
    prove("integer %s a" % name, val(op(3, s.a)) == op(3, x))
    prove("a %s array" % name, val(op(s.a, vec)) == op(x, vec[m]))
    prove("array %s a" % name, val(op(vec, s.a)) == op(vec[m], x))
    k = op(s.qm.Quantity.wrap(c), s.qm.Quantity.wrap(d))
    prove("a + (number %s number)" % name, val(s.a + k) == x + op(c, d))
    prove("(a %s b) - (number * a)" % name, val(op(s.a, s.b) - c * s.a) == op(x, y) - c * x)


def add():
    arith("+")


def sub():
    arith("-")


def mul():
    arith("*")


def truediv():
    arith("/")


def mod():
    arith("%")


def scalar_quantities():
    for o in ("+", "-", "*"):
        arith(o, True)


def fine_only():
    for o in ("+", "/"):
        arith(o, parts=1)


def functions():
    s = Setup()
    m, i, p = s.idx()
    x, y, c = s.va(m, i, p), s.vb(m, i, p), freal("c")
    val = lambda q: q.samples(s.spec)[m, i, p]
    for f in (np.sin, np.exp):
        prove("function of one argument", val(f(s.a)) == f(x))
    for f in (np.maximum, np.minimum, np.subtract):
        prove("function of two arguments", val(f(s.a, s.b)) == f(x, y))
        prove("second argument a number", val(f(s.a, c)) == f(x, c))
        prove("first argument a number", val(f(c, s.a)) == f(c, x))
    cover("evaluated")


def compare(name, parts=2):
    op = CMP[name]
    s = Setup(parts)
    c = freal("c")
    i = sk("i", 0, s.N)
    a1, a2 = z3.Int("$a1"), z3.Int("$a2")

    def every(f):
        return z3.ForAll([a1, a2], z3.Implies(z3.And(a1 >= 0, a1 < s.M.e, a2 >= 0, a2 < s.parts), bool_term(f(a1, a2))))
    for tag, q, f in (("two quantities", op(s.a, s.b), lambda m, p: op(s.va(m, i, p), s.vb(m, i, p))), ("a number", op(s.a, c), lambda m, p: op(s.va(m, i, p), c))):
        v = q.samples(s.spec)
        cover("evaluated")
        prove("one mark per sample: " + tag, z3.BoolVal(len(v.shape) == 1) if len(v.shape) != 1 else _z(v.shape[0]) == s.N.e)
        prove("marked exactly when it holds for all components and parts: " + tag, bool_term(v[i]) == every(f))
        prove("a condition: " + tag, z3.BoolVal(isinstance(q.qtype.base_qtype(), s.qm.qt.BoolType)))


def lt():
    compare("<")


def le():
    compare("<=")


def gt():
    compare(">")


def ge():
    compare(">=")


def eq():
    compare("==")


def ne():
    compare("!=")


def le_fine_only():
    compare("<=", 1)


def marks(s, k):
    """a condition with arbitrary marks"""
    f = farr("mark%d" % k, s.N, kind="bool")
    qt = s.qm.qt
    return s.qm.Quantity(s.qtype.replace_scalar(qt.BoolType()), input_quantities=PList([s.root]), operation=lambda x: f.copy()), f


def select(n, parts=2):
    s = Setup(parts)
    cs = [marks(s, k) for k in range(n)]
    q = s.b.select(*[c for c, f in cs])
    v = q.samples(s.spec)
    keep = lambda i: z3.And(*[bool_term(f.get((i,))) for c, f in cs])
    cnt, sel, rank = values.compress(s.N.e, keep)
    cover("selected")
    prove("exactly the marked samples are kept", z3.And(_z(v.shape[0]) == s.M.e, _z(v.shape[1]) == _z(cnt), _z(v.shape[2]) == s.parts))
    m, i, p = sk("m", 0, s.M), sk("i", 0, cnt), sk("p", 0, s.parts)
    prove("unchanged and in order", v[m, i, p] == s.vb(m, SN(sel(i.e)), p))
    w = (q * 2.0 + 1.0).samples(s.spec)
    prove("arithmetic on the selection", w[m, i, p] == s.vb(m, SN(sel(i.e)), p) * 2 + 1)
    prove("the condition itself is not changed", _z(cs[0][0].samples(s.spec).shape[0]) == s.N.e)


def select_one():
    select(1)


def select_two():
    select(2)


def select_three():
    select(3)


def select_fine_only():
    select(2, 1)


def combine():
    """different selections or storages"""
    s = Setup()
    qm = s.qm
    Q = qm.Quantity
    c1, c2 = marks(s, 1)[0], marks(s, 2)[0]
    s1, s2 = s.a.select(c1), s.b.select(c2)
    other = qm.QuantityStorage(Store(s.M), s.qtype)
    cover("made")
    pairs = {"two selections": (s1, s2), "selection and stored": (s1, s.b), "stored and selection": (s.a, s2), "two storages": (s.a, other),
             "two storages, computed": (s.a * 2.0 + 1.0, 1.0 - other), "selection and storage": (s1, other), "computed from selections": (s1 * 2.0, 3.0 + s2),
             "number in between": (1.0 + s1, s.b * 2.0)}
    for name, (x, y) in pairs.items():
        for how, f in (("+", lambda: x + y), ("-", lambda: x - y), ("*", lambda: x * y), ("/", lambda: x / y), ("%", lambda: x % y), ("<", lambda: x < y), (">=", lambda: x >= y), ("maximum", lambda: np.maximum(x, y)),
                       ("array", lambda: Q.QArray(PList([x, y]))), ("array of three", lambda: Q.QArray(PList([x, x, y]))), ("dictionary", lambda: Q.QDict(PList([("x", x), ("y", y)])))):
            r, e = raises(f)
            prove("combining %s is an error: %s" % (how, name), z3.BoolVal(e is not None))
    for how, f in (("same selection", lambda: s1 + s1 * 2.0), ("same storage", lambda: s.a - s.b), ("selection and number", lambda: s1 + 1.0), ("constants", lambda: Q.wrap(1.0) + Q.wrap(2.0)),
                   ("array", lambda: Q.QArray(PList([s1, s1 + 1.0]))), ("condition on the selection", lambda: s1.select(s1 > 0.0))):
        r, e = raises(f)
        prove("allowed: " + how, z3.BoolVal(e is None))
    r, e = raises(lambda: s.a.select(other > 0.0))
    prove("condition of another storage is an error", z3.BoolVal(e is not None))
    r, e = raises(lambda: s1.select(s.b > 0.0))
    prove("condition outside the selection is an error", z3.BoolVal(e is not None))
    r, e = raises(lambda: s.a.select(s.b))
    prove("a selection needs conditions", z3.BoolVal(e is not None))


class Slice(Base):
    def __init__(self, start, stop):
        self.start, self.stop = start, stop


def cache():
    """two evaluations share a stored value only for the same quantity, level, chunk and chunk size"""
    s = Setup()
    s1, s2 = Spec(fint("chunk1", 0), fint("level1", 0)), Spec(fint("chunk2", 0), fint("level2", 0))
    a1, b1, a2, b2 = fint("a1", 0), fint("b1", 0), fint("a2", 0), fint("b2", 0)
    s1.chunk_slice, s2.chunk_slice = Slice(a1, b1), Slice(a2, b2)
    k1, k2 = s.a.get_cache_key(s1), s.a.get_cache_key(s2)
    same = z3.And(*[bool_term(x == y) for x, y in zip(k1, k2)]) if len(k1) == len(k2) else z3.BoolVal(False)
    cover("keys")
    prove("equal keys: same level", z3.Implies(same, s1.level_id.e == s2.level_id.e))
    prove("equal keys: same chunk", z3.Implies(same, s1.chunk_id.e == s2.chunk_id.e))
    prove("equal keys: same number of samples", z3.Implies(same, b1.e - a1.e == b2.e - a2.e))
    for n, (x, y) in {"stored and computed": (s.a, s.b), "computed twice": (s.a + 1.0, s.a + 1.0), "constants": (s.qm.Quantity.wrap(1.0), s.qm.Quantity.wrap(2.0))}.items():
        kx, ky = x.get_cache_key(s1), y.get_cache_key(s1)
        prove("different quantities, different keys: " + n, z3.Or(*[z3.Not(bool_term(u == v)) for u, v in zip(kx, ky)]))


HARNESSES = [add, sub, mul, truediv, mod, scalar_quantities, fine_only, functions, lt, le, gt, ge, eq, ne, le_fine_only, select_one, select_two, select_three, select_fine_only, combine, cache]
