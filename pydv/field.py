"""pydv.field - equality of real terms by normalisation of rational functions (field axioms); side condition: denominators are not zero"""
import z3
import sympy


def resolve(t, entails):
    """t with the conditionals decided by the facts removed"""
    cache = {}

    def rec(e):
        k = e.get_id()
        if k in cache:
            return cache[k]
        if z3.is_quantifier(e) or not z3.is_app(e) or not e.children():
            r = e
        elif e.decl().kind() == z3.Z3_OP_ITE:
            c = z3.simplify(rec(e.arg(0)))
            if entails(c):
                r = rec(e.arg(1))
            elif entails(z3.Not(c)):
                r = rec(e.arg(2))
            else:
                r = z3.If(c, rec(e.arg(1)), rec(e.arg(2)))
        else:
            ch = [rec(c) for c in e.children()]
            r = e if all(x.eq(y) for x, y in zip(ch, e.children())) else e.decl()(*ch) if e.decl().kind() == z3.Z3_OP_UNINTERPRETED else z3.substitute(e, *[(x, y) for x, y in zip(e.children(), ch) if not x.eq(y)])
        cache[k] = r
        return r
    return rec(t)


class TooBig(Exception):
    pass


def to_sympy(t, atoms, dens, budget):
    """z3 real term -> sympy expression over symbols for its non-arithmetic subterms"""
    budget[0] -= 1
    if budget[0] < 0:
        raise TooBig()
    if z3.is_rational_value(t):
        return sympy.Rational(t.numerator_as_long(), t.denominator_as_long())
    if z3.is_int_value(t):
        return sympy.Integer(t.as_long())
    k = t.decl().kind() if z3.is_app(t) else None
    rec = lambda x: to_sympy(x, atoms, dens, budget)
    if k == z3.Z3_OP_ADD:
        return sympy.Add(*[rec(c) for c in t.children()])
    if k == z3.Z3_OP_SUB:
        ch = [rec(c) for c in t.children()]
        return ch[0] - sympy.Add(*ch[1:])
    if k == z3.Z3_OP_UMINUS:
        return -rec(t.arg(0))
    if k == z3.Z3_OP_MUL:
        return sympy.Mul(*[rec(c) for c in t.children()])
    if k == z3.Z3_OP_DIV:
        d = rec(t.arg(1))
        dens.append(t.arg(1))
        return rec(t.arg(0)) / d
    if k == z3.Z3_OP_TO_REAL:
        return rec(t.arg(0))
    if k == z3.Z3_OP_POWER and z3.is_rational_value(t.arg(1)) and t.arg(1).denominator_as_long() == 1 and 0 <= t.arg(1).numerator_as_long() <= 8:
        return rec(t.arg(0)) ** t.arg(1).numerator_as_long()
    for s, (a, e) in atoms.items():
        if e.eq(t):
            return a
    a = sympy.Symbol("a%d" % len(atoms), real=True)
    atoms[len(atoms)] = (a, t)
    return a


def equal(lhs, rhs, entails):
    """True when lhs == rhs follows from the field axioms, the denominators being non-zero by the facts"""
    try:
        atoms, dens, budget = {}, [], [400]
        d = to_sympy(lhs, atoms, dens, budget) - to_sympy(rhs, atoms, dens, budget)
        num, _ = sympy.fraction(sympy.together(d))
        if sympy.expand(num) != 0:
            return False
    except (TooBig, ZeroDivisionError, RecursionError, sympy.SympifyError):
        return False
    return all(entails(z3.Not(x == 0)) for x in dens)


def numerator(t, entails):
    """the numerator of a real term as a fraction, cancelled; None: a denominator may be zero, or too big"""
    try:
        atoms, dens, budget = {}, [], [800]
        d = sympy.cancel(to_sympy(t, atoms, dens, budget))
        num = sympy.Poly(sympy.fraction(d)[0], *[a for a, _ in atoms.values()]) if atoms else None
    except (TooBig, ZeroDivisionError, RecursionError, sympy.SympifyError, sympy.PolynomialError):
        return None
    if not all(entails(z3.Not(x == 0)) for x in dens):
        return None
    if num is None:
        return z3.RealVal(str(sympy.fraction(d)[0]))
    es = [z3.ToReal(e) if z3.is_int(e) else e for _, e in atoms.values()]
    out = []
    for ex, co in num.terms():
        m = z3.RealVal(str(co))
        for e, k in zip(es, ex):
            for _ in range(k):
                m = m * e
        out.append(m)
    return z3.simplify(z3.Sum(*out)) if out else z3.RealVal(0)
