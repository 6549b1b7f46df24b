"""arbitrary states: dictionaries described by functions of the key"""
from pydv.api import *


def fdict(has, val, sort=I):
    """dictionary with an arbitrary set of keys: has(x) -> Bool term, val(x) -> value"""
    d = PDict()
    d.base = values.FMap(sort, has, val)
    d.log = []
    return d


def has(d, x):
    """is the key x (a term) in the dictionary d"""
    if isinstance(d.base, values.FMap):
        return d.base.has(x)
    if d.base is not None or d.log:
        raise Unsupported("dictionary state")
    ks = list(dict.keys(d))
    return z3.Or(*[eq_term(wrap(x), k) for k in ks]) if ks else z3.BoolVal(False)


def eqb(a, b):
    return z3.And(z3.Implies(a, b), z3.Implies(b, a))


def nonneg(f, *sorts):
    """precondition: the function f has non-negative values"""
    qs = [z3.Const("$nn%d" % i, s) for i, s in enumerate(sorts)]
    C().assume(z3.ForAll(qs, f(*qs) >= 0))
