"""P15: geometric level parameters and initial counts, for any number of levels"""
from pydv.api import *
from proofs.stubs import *

FUNCTIONS = ["mlmc/estimator.py:determine_level_parameters", "mlmc/estimator.py:calc_level_params", "mlmc/estimator.py:determine_n_samples",
             "mlmc/sampler.py:Sampler.sample_range", "mlmc/sampler.py:Sampler.set_initial_n_samples", "mlmc/sampler.py:Sampler._create_level_sim_objects",
             "mlmc/sampler.py:Sampler.__init__"]
TRUSTED = ["numpy model (linspace, log2, exp2, round, astype, atleast_1d)", "laws of exp and log on the positive reals"]
ASSUMPTIONS = ["floating point numbers are treated as mathematical reals", "steps and counts are positive"]
LOG, EXP = values.LOG, values.EXP


def geo(a, b, i, n):
    """logarithm of the i-th of n terms from a to b"""
    la, lb = LOG(real(_z(a))), LOG(real(_z(b)))
    return la + real(_z(i)) * (lb - la) / (real(_z(n)) - 1)


def steps(fn):
    def run():
        w = make_world({})
        est = w.load("mlmc.estimator")
        n = fint("n", 1)
        h0, h1 = freal("h0"), freal("h1")
        assume(z3.And(h0.e > h1.e, h1.e > 0))
        rg = PList([h0, h1])
        p = est.determine_level_parameters(n, rg) if fn == "determine_level_parameters" else est.calc_level_params(rg, n)
        cover("steps computed")
        prove("one parameter list per level", SB(_z(p_len(p)) == n.e))
        i = sk("i", 0, n)
        j = sk("j", 0, n)

        def at(k):
            x = p[k]
            prove("one step per level", SB(_z(p_len(x)) == 1))
            return x[0]
        vi, vj = at(i), at(j)
        prove("steps are numbers", z3.BoolVal(vi.nan is None))
        if n == 1:
            log_rules(vi)
            lemma("one level: logarithm", LOG(real(vi.e)) == LOG(h1.e))
            lemma("one level: positive", vi > 0)
            prove("one level has the finest step", vi == h1)
            return
        cover("several levels")
        li, lj = log_rules(vi), log_rules(vj)
        lemma("steps are positive", z3.And(vi.e > 0, vj.e > 0))
        lemma("logarithm of a step", li.e == geo(h0, h1, i, n))
        lemma("logarithm of another step", lj.e == geo(h0, h1, j, n))
        lemma("first step: logarithm", z3.Implies(i.e == 0, li.e == LOG(h0.e)))
        prove("first step is the coarsest", implies(i == 0, vi == h0))
        lemma("last step: logarithm", z3.Implies(i.e == n.e - 1, li.e == LOG(h1.e)))
        prove("last step is the finest", implies(i == n - 1, vi == h1))
        d = SN((LOG(h1.e) - LOG(h0.e)) / (real(n.e) - 1))
        lemma("logarithms decrease", LOG(h1.e) < LOG(h0.e))
        lemma("increment is negative", d.e < 0)
        lemma("difference of terms", geo(h0, h1, j, n) - geo(h0, h1, i, n) == (real(j.e) - real(i.e)) * d.e)
        lemma("difference of logarithms", lj.e - li.e == (real(j.e) - real(i.e)) * d.e)
        lemma("later steps have smaller logarithm", z3.Implies(i.e < j.e, lj.e < li.e))
        xi, xj = li.e.arg(0), lj.e.arg(0)
        lemma("steps in normal form", z3.And(xi == real(vi.e), xj == real(vj.e), xi > 0, xj > 0))
        prove_from("strictly decreasing", z3.Implies(i.e < j.e, xj < xi),
                   [xi > 0, xj > 0, z3.Implies(i.e < j.e, lj.e < li.e)], [xi, xj])
        prove("constant ratio", z3.Implies(j.e == i.e + 1, lj.e - li.e == d.e))
    run.__name__ = fn
    run.__doc__ = fn
    return run


def close_to_spec(what, got, a, b, l, L):
    g = got[l]
    prove(what + ": integer count per level", z3.And(z3.BoolVal(got.ndim == 1 and got.kind == "int"), _z(got.shape_t[0]) == L.e))
    args = round_args(g.e)
    if l == 0:
        cover(what + ": first level")
        for x in args:
            log_rules(SN(x))
            lemma(what + ": first count", x == real(_z(a)))
        ref = SN(real(_z(a)))
    elif l == L - 1:
        cover(what + ": last level")
        for x in args:
            log_rules(SN(x))
            lemma(what + ": last count", x == real(_z(b)))
        ref = SN(real(_z(b)))
    else:
        cover(what + ": level between")
        for x in args:
            # the rounded value is positive and has the logarithm of the geometric sequence
            log_rules(SN(x))
            x = z3.simplify(x)
            lemma(what + ": positive", x > 0)
            if x.decl().name() == "EXP":
                lemma(what + ": exponent", x.arg(0) == geo(a, b, l, L))
            lemma(what + ": logarithm", LOG(x) == geo(a, b, l, L))
            lemma(what + ": exponential", x == EXP(geo(a, b, l, L)))
        ref = SN(EXP(geo(a, b, l, L)))
    prove(what + ": rounded geometric sequence", real(g.e) == real(np.round(ref).e))


def round_args(t):
    out, seen = [], set()

    def rec(e):
        if e.get_id() in seen or not z3.is_app(e):
            return
        seen.add(e.get_id())
        if e.decl().name() == "ROUND":
            out.append(e.arg(0))
        for c in e.children():
            rec(c)
    rec(t)
    return out


def counts(where, what):
    def run():
        n0, nL = fint("n0", 1), fint("nL", 1)
        if where == "determine_n_samples":
            w = make_world({})
            est = w.load("mlmc.estimator")
            L, low = fint("L", 1), 3
            call = lambda *a: np.asarray(est.determine_n_samples(L, *a))
        else:
            sm, s, st, pool, L, n = setup(False)
            low = 10

            def call(*a):
                s.set_initial_n_samples(*a)
                return np.asarray(s._n_target_samples)
        l = sk("l", 0, L)
        cover("counts")
        if what == "vector of counts":
            vec = farr("vec", L, kind="int")
            assume(L.e >= 3)
            r = call(vec)
            prove("vector of counts: one per level", SB(_z(p_len(r)) == L.e))
            prove("vector of counts is taken as it is", r[l] == vec[l])
            return
        if what == "two counts":
            r, a, b = call(PList((n0, nL))), n0, nL
        elif what == "one count":
            r, a, b = call(PList((n0,))), n0, low
        elif what == "number":
            r, a, b = call(n0), n0, low
        elif what == "default":
            r, a, b = call(), 100, low
        else:
            r, a, b = s.sample_range(n0, nL), n0, nL
        close_to_spec(what, r, a, b, l, L)
    run.__name__ = where + " " + what
    run.__doc__ = "%s: %s" % (where, what)
    return run


def simulations():
    """level l gets level l's parameters as fine and level l-1's as coarse"""
    sm, s, st, pool, L, n = setup(False)
    cover("sampler created")
    prove("one simulation per level", SB(_z(s.n_levels) == L.e))
    prove("one level simulation object per level", SB(_z(p_len(s._level_sim_objects)) == L.e))
    l = sk("l", 0, L)
    sim = s._level_sim_objects[l]
    prove_eq("fine parameters are the level's own", sim.fine, SymObj(PARAM(l.e), label="level parameters"))
    prove_eq("level number", sim._level_id, l)
    if l == 0:
        cover("coarsest level")
        c = sim.coarse
        prove("coarse step zero on the coarsest level", z3.And(_z(p_len(c)) == 1, real(_z(c[0])) == 0))
    else:
        cover("finer level")
        prove_eq("coarse parameters are those of the level before", sim.coarse, SymObj(PARAM(l.e - 1), label="level parameters"))


FORMS = ["two counts", "one count", "number", "default", "vector of counts"]
HARNESSES = [steps("determine_level_parameters"), steps("calc_level_params")] + [counts("determine_n_samples", f) for f in FORMS] + \
            [counts("set_initial_n_samples", f) for f in FORMS + ["sample_range"]] + [simulations]
