"""P12: moment functions are evaluated consistently on their domain."""
import types
from pydv.api import *
from proofs.qlib import *

FUNCTIONS = ["mlmc/moments.py:" + f for f in ("Moments.__init__", "Moments.linear", "Moments.inv_linear", "Moments.clip", "Moments.eval", "Moments.eval_single_moment", "Moments.eval_all", "Moments.__call__", "Moments.change_size",
             "Monomial.__init__", "Monomial._eval_all", "Monomial.eval", "Fourier.__init__", "Fourier._eval_all", "Fourier.eval", "Legendre.__init__", "Legendre._eval_all", "TransformedMoments.__init__", "TransformedMoments._eval_all")] \
    + ["mlmc/quantity/quantity_estimate.py:" + f for f in ("moment", "moments", "covariance")]
TRUSTED = ["numpy model (log, exp, sin, cos, masked_outside, filled, polyvander, legvander, matmul, einsum, transpose, reshape)"]
ASSUMPTIONS = ["floating point numbers are treated as mathematical reals", "the domain is at least 1e-15 wide (after the logarithm in logarithmic mode)", "values are positive in logarithmic mode"]
LOG, EXP = values.LOG, values.EXP


def load_moments():
    w = make_world({"scipy.interpolate": types.SimpleNamespace(BSpline=None)})
    return w.load("mlmc.moments")


class Case:
    """moments of one family with an arbitrary domain"""
    def __init__(self, family, log, safe, ref, size=None):
        self.m = load_moments()
        self.a, self.b = freal("a"), freal("b")
        assume(self.a < self.b)
        if log:
            assume(self.a > 0)
        g = (lambda x: SN(LOG(_z(x)))) if log else (lambda x: x)
        self.g = g
        assume(g(self.b) - g(self.a) >= SN(z3.RealVal("1/1000000000000000")))
        self.size = fint("size", 1) if size is None else size
        kw = {}
        if ref:
            self.r0, self.r1 = freal("r0"), freal("r1")
            assume(self.r0 < self.r1)
            kw["ref_domain"] = (self.r0, self.r1)
        self.f = getattr(self.m, family)(self.size, (self.a, self.b), log=log, safe_eval=safe, **kw)
        if not ref:
            self.r0, self.r1 = self.f.ref_domain
        self.log = log

    def t(self, x):
        """the affine map that takes the ends of the domain to the ends of the reference domain"""
        g = self.g
        return (g(x) - g(self.a)) / (g(self.b) - g(self.a)) * (self.r1 - self.r0) + self.r0

    def value(self, name):
        x = freal(name)
        if self.log:
            assume(x > 0)
        return x


FAMILIES = ("Monomial", "Fourier", "Legendre")
DEFAULT_REF = {"Monomial": (0, 1), "Fourier": (0, None), "Legendre": (-1, 1)}


def every(fn, refs=(False, True), safes=(False, True), logs=(False, True), families=FAMILIES):
    for family in families:
        for log in logs:
            for safe in safes:
                for ref in refs:
                    cases(lambda: fn(family, log, safe, ref))


def maps():
    def one(family, log, safe, ref):
        c = Case(family, log, safe, ref)
        x, y = c.value("x"), c.value("y")
        if not ref:
            lo, hi = DEFAULT_REF[family]
            prove("default reference domain", SB(z3.And(real(_z(c.r0)) == lo, real(_z(c.r1)) == hi if hi is not None else real(_z(c.r1)) > 6)))
        tx, ty = c.f.linear(c.g(x)), c.f.linear(c.g(y))
        cover("mapped")
        prove_eq("affine map", tx, c.t(x))
        prove("increasing", z3.Implies(_z(x) < _z(y), _z(tx) < _z(ty)))
        prove("start of the domain", c.f.linear(c.g(c.a)) == c.r0)
        prove("end of the domain", c.f.linear(c.g(c.b)) == c.r1)
        z = freal("z")
        if safe:
            return
        arr1 = SArr((1,), lambda idx: x, "float")
        t = c.f.transform(arr1).get((0,))
        prove_eq("transform", t, c.t(x))
        back = c.f.inv_transform(SArr((1,), lambda idx: tx, "float")).get((0,))
        if log:
            lemma("inverse of the affine map", SB(_z(c.f.inv_linear(tx)) == LOG(_z(x))))
        prove_eq("inverse of the map", back, x)
        prove_eq("the inverse map is mapped back", c.f.linear(c.f.inv_linear(z)), z)
    every(one)


def outside():
    """exactly the values outside the domain give NaN"""
    def one(family, log, safe, ref):
        c = Case(family, log, safe, ref)
        N = fint("N", 1)
        v = farr("x", N)
        i, k = sk("i", 0, N), sk("k", 0, c.size)
        x = v.get((i.e,))
        if log:
            assume(x > 0)
        r = c.f.eval_all(v)
        cover("evaluated")
        prove("one row per value", z3.And(_z(r.shape[0]) == N.e, _z(r.shape[1]) == _z(c.size)))
        nan = num_parts(r.get((i.e, k.e)))[1]
        nan = z3.BoolVal(False) if nan is None else nan
        t = c.t(x)
        lemma("position", SB((_z(t) < _z(c.r0)) == (_z(x) < _z(c.a))))
        lemma("position", SB((_z(t) > _z(c.r1)) == (_z(x) > _z(c.b))))
        if safe:
            prove("outside is NaN, inside is not", z3.Implies(k.e >= 1, nan == z3.Or(_z(x) < _z(c.a), _z(x) > _z(c.b))))
            prove("zeroth moment inside", z3.Implies(z3.And(k.e == 0, _z(x) >= _z(c.a), _z(x) <= _z(c.b)), z3.Not(nan)))
        else:
            prove("never NaN", z3.Not(nan))
    every(one)


def parts(v):
    e, n = num_parts(v)
    return real(e), z3.BoolVal(False) if n is None else n


def same(name, got, want, k=None):
    """equal numbers, or both NaN; for the zeroth moment only inside the domain"""
    (e, n), (e2, n2) = parts(got), parts(want)
    g = z3.Or(z3.And(n, n2), z3.And(z3.Not(n), z3.Not(n2), e == e2))
    prove(name, g if k is None else z3.Or(g, z3.And(k == 0, n2)))


def alone():
    """a moment is the same alone and together with the others"""
    def one(family, log, safe, ref):
        c = Case(family, log, safe, ref)
        N = fint("N", 1)
        v = farr("x", N)
        if log:
            q = z3.Int("$q")
            C().assume(z3.ForAll([q], _z(v.get((q,))) > 0))
        i, n, k = sk("i", 0, N), fint("n", 1), None
        k = sk("k", 0, n)
        many = c.f.eval_all(v, n)
        default = c.f.eval_all(v)
        called = c.f(v)
        single = c.f.eval_single_moment(k, v)
        other = c.f.eval(k, v)
        cover("evaluated")
        prove("number of moments", z3.And(_z(many.shape[1]) == n.e, _z(default.shape[1]) == _z(c.size), _z(called.shape[1]) == _z(c.size)))
        want = many.get((i.e, k.e))
        same("alone", single.get((i.e,)), want)
        same("evaluated by eval", other.get((i.e,)), want, k.e)
        k2 = sk("k2", 0, c.size)
        assume(k2.e < n.e)
        same("all", default.get((i.e, k2.e)), many.get((i.e, k2.e)))
        same("called", called.get((i.e, k2.e)), many.get((i.e, k2.e)))
        zero, nan = parts(many.get((i.e, 0)))
        prove("zeroth moment", z3.Or(nan, zero == 1))
        changed = c.f.change_size(n)
        prove("changed size", changed.size == n)
        same("after a change of the size", changed.eval_all(v).get((i.e, k.e)), want)
    every(one)


def alone_shaped():
    """values of a chunk [M, N, 2]"""
    def one(family, log, safe, ref):
        c = Case(family, log, safe, ref)
        M, N = fint("M", 1), fint("N", 1)
        v = farr("x", M, N, 2)
        if log:
            q = z3.Ints("$q $r $s")
            C().assume(z3.ForAll(q, _z(v.get(tuple(q))) > 0))
        at = (sk("m", 0, M).e, sk("i", 0, N).e, sk("p", 0, 2).e)
        n = fint("n", 1)
        k = sk("k", 0, n)
        many = c.f.eval_all(v, n)
        cover("evaluated")
        prove("shape", z3.And(z3.BoolVal(many.ndim == 4), *[_z(a) == _z(b) for a, b in zip(many.shape, (M, N, 2, n))]))
        flat = SArr((1,), lambda idx: v.get(at), "float")
        same("as for a single value", many.get(at + (k.e,)), c.f.eval_all(flat, n).get((0, k.e)))
        same("alone", c.f.eval_single_moment(k, v).get(at), many.get(at + (k.e,)))
    every(one, refs=(False,))


def basis():
    """the functions of the families"""
    def one(family, log, safe, ref):
        c = Case(family, log, safe, ref)
        x = c.value("x")
        v = SArr((1,), lambda idx: x, "float")
        n = fint("n", 1)
        many = c.f.eval_all(v, n)
        cover("evaluated")
        t = c.f.linear(c.g(x))
        k = sk("k", 0, n)
        got = many.get((0, k.e))
        if family == "Monomial":
            prove("power", _z(got) == np.VPOW(real(_z(t)), k.e))
        elif family == "Legendre":
            prove("Legendre polynomial", _z(got) == np.LEG(k.e, real(_z(t))))
        else:
            j = sk("j", 0)
            for odd in (True, False):
                def wave():
                    assume(k.e == (2 * j.e + 1 if odd else 2 * j.e + 2))
                    f = np.cos if odd else np.sin
                    want = f(t * (j + 1))
                    prove("cosine" if odd else "sine", _z(SN(z3.substitute(_z(got), (k.e, simp(2 * j.e + 1 if odd else 2 * j.e + 2))))) == _z(want))
                cases(wave)
    every(one, safes=(False,))


class Origin(Base):
    """moment functions with arbitrary values"""
    def __init__(self, size, rank):
        self.size, self.rank = size, rank
        self.fun = C().fresh_fun("moment", [R, I], R)
        self.nan = C().fresh_fun("moment_nan", [R, I], B)
        self.domain = (freal("a"), freal("b"))

    def _eval_all(self, value, size):
        rd = value.reader()
        return SArr(list(value.shape_t) + [_z(size)], lambda ix: SNum(self.fun(_z(rd(tuple(ix[:-1]))), _z(ix[-1])), self.nan(_z(rd(tuple(ix[:-1]))), _z(ix[-1]))), "float")

    def eval_all(self, value, size=None):
        return self._eval_all(value, self.size if size is None else size)

    def eval_single_moment(self, i, value):
        return self._eval_all(value, i + 1)[..., i]


def transformed():
    for rank in (1, 3):
        def one():
            m = load_moments()
            n, k = fint("n", 1), fint("m", 1)
            o = Origin(k, rank)
            A = farr("matrix", n, k)
            t = m.TransformedMoments(o, A)
            prove("size", t.size == n)
            prove("domain", z3.BoolVal(t.domain is o.domain))
            shape = [fint("N", 1)] if rank == 1 else [fint("M", 1), fint("N", 1), 2]
            x = farr("x", *shape)
            at = tuple(sk("i%d" % d, 0, s).e for d, s in enumerate(shape))
            r = sk("row", 0, n)
            xv = _z(x.get(at))

            def want(row):
                return zsum(k, lambda j: SN(_z(A.get((_z(row), _z(j)))) * o.fun(xv, _z(j))))
            q = z3.Int("$q")
            C().assume(z3.ForAll([q], z3.Not(o.nan(xv, q))))
            many = t.eval_all(x)
            cover("evaluated")
            prove("shape", z3.And(*[_z(a) == _z(b) for a, b in zip(many.shape, shape + [n])]))
            prove("matrix applied to the moments", _z(many.get(at + (r.e,))) == _z(want(r)))
            s = fint("first", 1)
            assume(s <= n)
            fewer = t.eval_all(x, s)
            prove("first moments", _z(fewer.shape[-1]) == s.e)
            r2 = sk("row2", 0, s)
            prove("first moments are the same", _z(fewer.get(at + (r2.e,))) == _z(want(r2)))
            prove("alone", _z(t.eval_single_moment(r, x).get(at)) == _z(want(r)))
            prove("evaluated by eval", _z(t.eval(r, x).get(at)) == _z(want(r)))
        cases(one)

    def bad():
        m = load_moments()
        n, k, o = fint("n", 1), fint("m", 1), fint("o", 1)
        assume(k != o)
        r, e = raises(lambda: m.TransformedMoments(Origin(o, 1), farr("matrix", n, k)))
        prove("a matrix of another size is an error", z3.BoolVal(e is not None))
    cases(bad)


def quantity_case(parts, scalar=False):
    s = Setup(parts, scalar)
    qe = s.w.load("mlmc.quantity.quantity_estimate")
    o = Origin(fint("R", 1), 3)
    assume(s.N >= 1)
    return s, qe, o


def at(s, o, x, r):
    """moment r of a value"""
    x = _z(x)
    return SNum(o.fun(x, _z(r)), o.nan(x, _z(r)))


def moment_quantities():
    for parts in (1, 2):
        for scalar in (False, True):
            def one():
                s, qe, o = quantity_case(parts, scalar)
                m, i, p = s.idx()
                r = sk("r", 0, o.size)
                single = qe.moment(s.a, o, r)
                v = single.samples(s.spec)
                cover("moment")
                prove("moment: shape", z3.And(_z(v.shape[0]) == _z(s.M), _z(v.shape[1]) == s.N.e, _z(v.shape[2]) == parts))
                prove_eq("moment: values", v.get((m.e, i.e, p.e)), at(s, o, s.va(m, i, p), r))
                prove("moment: type", z3.BoolVal(single.qtype is s.qtype))
                bottom, top = qe.moments(s.a, o), qe.moments(s.a, o, mom_at_bottom=False)
                for name, q, pos in (("at bottom", bottom, m * o.size + r), ("on top", top, r * s.M + m)):
                    v = q.samples(s.spec)
                    prove(name + ": shape", z3.And(_z(v.shape[0]) == _z(s.M) * o.size.e, _z(v.shape[1]) == s.N.e, _z(v.shape[2]) == parts))
                    prove_eq(name + ": moment of a component", v.get((pos.e, i.e, p.e)), at(s, o, s.va(m, i, p), r))
                    prove(name + ": size", q.qtype.size() == o.size * s.M)
                if not scalar:
                    prove_eq("at bottom: item", bottom[m][r].samples(s.spec).get((0, i.e, p.e)), at(s, o, s.va(m, i, p), r))
                    prove_eq("on top: item", top[r][m].samples(s.spec).get((0, i.e, p.e)), at(s, o, s.va(m, i, p), r))
            cases(one)


def covariance_quantities():
    for parts in (1, 2):
        for scalar in (False, True):
            def one():
                s, qe, o = quantity_case(parts, scalar)
                m, i, p = s.idx()
                r, c = sk("r", 0, o.size), sk("c", 0, o.size)
                x = s.va(m, i, p)
                want = at(s, o, x, r) * at(s, o, x, c)
                bottom, top = qe.covariance(s.a, o), qe.covariance(s.a, o, cov_at_bottom=False)
                cover("covariance")
                for name, q, pos in (("at bottom", bottom, (m * o.size + r) * o.size + c), ("on top", top, (r * o.size + c) * s.M + m)):
                    v = q.samples(s.spec)
                    prove(name + ": shape", z3.And(_z(v.shape[0]) == _z(s.M) * o.size.e * o.size.e, _z(v.shape[1]) == s.N.e, _z(v.shape[2]) == parts))
                    prove_eq(name + ": product of two moments of a component", v.get((pos.e, i.e, p.e)), want)
                    prove(name + ": size", q.qtype.size() == o.size * o.size * s.M)
            cases(one)


HARNESSES = [maps, outside, alone, alone_shaped, basis, transformed, moment_quantities, covariance_quantities]
