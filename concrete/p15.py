from common import *
import mlmc.estimator as me


def _params(seed):
    def run():
        rng = random.Random(seed)
        a = 10 ** rng.uniform(-2, 2)
        b = a / rng.choice([1.001, 2, 10, 1e4])
        n = rng.choice([1, 2, 3, 4, 5, 9, 20])
        rg = rng.choice([list, tuple, np.array])([a, b])
        for f in (me.determine_level_parameters, me.calc_level_params):
            p = f(n, rg) if f is me.determine_level_parameters else f(rg, n)
            check(len(p) == n and all(len(x) == 1 for x in p), "level parameters", p)
            v = [float(x[0]) for x in p]
            if n == 1:
                check(close(v, [b]), "one level", v, "finest step", b)
                continue
            check(close([v[0], v[-1]], [a, b], 1e-9, 0), "ends", v[0], v[-1], "expected", a, b)
            check(all(x > y for x, y in zip(v, v[1:])), "not decreasing", v)
            q = (b / a) ** (1.0 / (n - 1))
            check(close([y / x for x, y in zip(v, v[1:])], [q] * (n - 1), 1e-9, 0), "ratios", [y / x for x, y in zip(v, v[1:])], "expected", q)
    return run


def geo(n0, nL, L):
    if L == 1:
        return [(n0, n0)]
    out = []
    for l in range(L):
        x = float(n0) ** (1 - l / (L - 1)) * float(nL) ** (l / (L - 1))
        out.append((int(np.round(x * (1 - 1e-9))), int(np.round(x * (1 + 1e-9)))))
    return out


def inside(got, ref):
    return len(got) == len(ref) and all(a <= int(x) <= b and float(x) == int(x) for x, (a, b) in zip(got, ref))


def _counts(seed):
    def run():
        rng = random.Random(seed)
        L = rng.randint(1, 8)
        n0, nL = rng.randint(1, 500), rng.randint(1, 50)
        vec = [rng.randint(1, 99) for _ in range(L)]
        s = Sampler(Memory(), RecPool(), Sim(), [[1.0 / (l + 1)] for l in range(L)])
        for arg, ref, ref2 in ((None, geo(100, 10, L), geo(100, 3, L)), (n0, geo(n0, 10, L), geo(n0, 3, L)), ([n0], geo(n0, 10, L), geo(n0, 3, L)),
                               ([n0, nL], geo(n0, nL, L), geo(n0, nL, L)), (np.array([n0, nL]), geo(n0, nL, L), geo(n0, nL, L))):
            s.set_initial_n_samples(arg)
            got = target(s, L)
            check(inside(got, ref), "initial counts for", arg, "and", L, "levels", got, "expected", ref)
            got = list(me.determine_n_samples(L, arg))
            check(inside(got, ref2), "determine_n_samples for", arg, "and", L, "levels", got, "expected", ref2)
        if L > 2:
            s.set_initial_n_samples(vec)
            check([int(x) for x in target(s, L)] == vec, "vector of counts", target(s, L), vec)
            check([int(x) for x in me.determine_n_samples(L, vec)] == vec, "vector of counts")
        check(inside(list(s.sample_range(n0, nL)), geo(n0, nL, L)), "sample_range", s.sample_range(n0, nL))
    return run


def target(s, L):
    """the counts that would be scheduled"""
    p = RecPool()
    s2 = Sampler(Memory(), p, Sim(), [[1.0 / (l + 1)] for l in range(L)])
    s2._n_target_samples = np.array(s._n_target_samples).copy()
    s2.schedule_samples()
    return [sum(1 for i, sim in p.given if sim._level_id == l) for l in range(L)]


def _sims(seed):
    def run():
        rng = random.Random(seed)
        L = rng.randint(1, 6)
        params = [[rng.uniform(0, 1), rng.uniform(0, 1)][:rng.randint(1, 2)] for l in range(L)]
        sim, pool = Sim(), RecPool()
        s = Sampler(Memory(), pool, sim, params)
        check(sim.calls == [(list(params[l]), list(params[l - 1]) if l else [0]) for l in range(L)], "created simulations", sim.calls, "parameters", params)
        check(s.n_levels == L, "n_levels")
        s.set_level_target_n_samples([2] * L)
        s.schedule_samples()
        check(len(pool.given) == 2 * L, "scheduled", len(pool.given))
        for i, ls in pool.given:
            l = int(i[1:3])
            check(ls.config_dict == {"fine": list(params[l]), "coarse": list(params[l - 1]) if l else [0]}, "simulation of", i, "has", ls.config_dict)
            check(ls._level_id == l, "level of the simulation of", i)
    return run


def cases(tier, rng):
    n = 1 if tier == "quick" else 25
    for k in range(60 * n):
        yield "steps#%d" % k, _params(rng.randrange(10**9))
    for k in range(40 * n):
        yield "counts#%d" % k, _counts(rng.randrange(10**9))
    for k in range(20 * n):
        yield "simulations#%d" % k, _sims(rng.randrange(10**9))
    yield "bad-range", lambda: [expect_raises(lambda: me.determine_level_parameters(3, [0.1, 1.0]), "increasing step range")]
