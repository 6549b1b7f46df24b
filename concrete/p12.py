from qlib import *
from mlmc.moments import Moments, Monomial, Fourier, Legendre, TransformedMoments

CLS = [Monomial, Fourier, Legendre]


def make(rng, cls=None, **kw):
    cls = cls or rng.choice(CLS)
    log = kw.get("log", rng.random() < 0.4)
    safe = kw.get("safe", rng.random() < 0.6)
    a = rng.uniform(0.1, 3) if log else rng.uniform(-20, 5)
    b = a + rng.choice([rng.uniform(0.5, 10), rng.uniform(10, 1000)])
    ref = rng.choice([None, None, (-1.0, 1.0), (0.0, 1.0), (2.0, 5.0), (-3, 4)])
    R = kw.get("size", rng.randint(1, 9))
    d = {"ref_domain": ref} if ref is not None else {}
    m = cls(R, (a, b), log=log, safe_eval=safe, **d)
    return m, a, b, log, safe, ref or {Monomial: (0, 1), Fourier: (0, 2 * np.pi), Legendre: (-1, 1)}[cls]


def points(rng, a, b, log, n=9, outside=False):
    la, lb = (np.log(a), np.log(b)) if log else (a, b)
    t = [rng.uniform(0.001, 0.999) for _ in range(n)]
    if outside:
        t += [-0.01, 1.01, -2.0, 3.0, rng.uniform(1.001, 9), rng.uniform(-9, -0.001)]
        rng.shuffle(t)
    t = np.array(t)
    x = la + t * (lb - la)
    return (np.exp(x) if log else x), t


def _maps(seed):
    def run():
        rng = random.Random(seed)
        m, a, b, log, safe, ref = make(rng)
        x, t = points(rng, a, b, log, outside=not safe)
        tr = m.transform(x)
        e = ref[0] + t * (ref[1] - ref[0])
        check(close(tr, e, 1e-8, 1e-8), type(m).__name__, "maps", x, "to", tr, "expected", e, "domain", (a, b), "log", log)
        check(close(m.inv_transform(tr), x, 1e-7, 1e-7), "inverse map of", tr, "is", m.inv_transform(tr), "expected", x)
        # ends, from inside
        y = m.inv_transform(np.array([ref[0], ref[1]], dtype=float))
        check(close(y, [a, b], 1e-7, 1e-7), "ends of the reference domain are mapped to", y, "domain", (a, b))
        check(list(m.domain) == [a, b], "domain")
    return run


def _safe(seed):
    def run():
        rng = random.Random(seed)
        m, a, b, log, safe, ref = make(rng, safe=True, size=rng.randint(2, 7))
        x, t = points(rng, a, b, log, outside=True)
        v = m.eval_all(x)
        out = (t < 0) | (t > 1)
        check(v.shape == (len(x), m.size), "shape", v.shape)
        for k in range(1, m.size):
            check(np.array_equal(np.isnan(v[:, k]), out), type(m).__name__, "moment", k, "is NaN at", np.isnan(v[:, k]), "outside", out)
            s = m.eval_single_moment(k, x)
            check(np.array_equal(np.isnan(s), out), type(m).__name__, "single moment", k, "NaN at", np.isnan(s))
        check(np.all(v[~out, 0] == 1), "zeroth moment", v[:, 0])
        m2, *_ = make(rng, type(m), safe=False, log=False, size=m.size)
        w = m2.eval_all(np.linspace(m2.domain[0] - 5, m2.domain[1] + 5, 7))
        check(not np.isnan(w).any(), "unsafe evaluation gives NaN", w)
    return run


def basis(cls, t, i):
    if cls is Monomial:
        return t ** i
    if cls is Legendre:
        c = np.zeros(i + 1)
        c[i] = 1
        return np.polynomial.legendre.legval(t, c)
    if i == 0:
        return np.ones_like(t)
    return np.cos((i + 1) // 2 * t) if i % 2 else np.sin(i // 2 * t)


def _alone(seed):
    def run():
        rng = random.Random(seed)
        m, a, b, log, safe, ref = make(rng)
        shape = rng.choice([(6,), (6,), (1,), (2, 3), (2, 3, 2), (1, 4, 1)])
        x, t = points(rng, a, b, log, int(np.prod(shape)))
        x, t = x.reshape(shape), t.reshape(shape)
        tt = ref[0] + t * (ref[1] - ref[0])
        n = rng.randint(1, 9)
        for size in (None, n):
            v = m.eval_all(x) if size is None else m.eval_all(x, size)
            R = m.size if size is None else size
            check(v.shape == shape + (R,), type(m).__name__, "shape", v.shape, "of values", shape, R)
            for i in range(R):
                e = basis(type(m), tt, i)
                check(close(v[..., i], e, 1e-6, 1e-6), type(m).__name__, "moment", i, "of", R, "is", v[..., i], "expected", e)
                for nm, w in (("alone", m.eval_single_moment(i, x)), ("eval", m.eval(i, x))):
                    w = np.broadcast_to(w, shape)
                    check(close(w, v[..., i], 1e-9, 1e-9), type(m).__name__, "moment", i, nm, w, "together", v[..., i])
            check(np.all(v[..., 0] == 1), "zeroth moment", v[..., 0])
        check(close(m(x), m.eval_all(x)), "call")
        # one number
        if shape == (1,):
            f = float(x[0])
            check(close(m.eval_all(f)[0], m.eval_all(x)[0]), "single number")
        c = m.change_size(n)
        check(c.size == n and close(c.eval_all(x), m.eval_all(x, n), 1e-9, 1e-9), type(m).__name__, "after change of size to", n)
    return run


def _transformed(seed):
    def run():
        rng = random.Random(seed)
        m, a, b, log, safe, ref = make(rng, rng.choice([Monomial, Legendre]))
        n = rng.randint(1, 5)
        M = np.array([[rng.uniform(-2, 2) for _ in range(m.size)] for _ in range(n)])
        M[0] = 0
        M[0, 0] = 1
        tm = TransformedMoments(m, M)
        shape = rng.choice([(5,), (2, 3), (2, 3, 2)])
        x, t = points(rng, a, b, log, int(np.prod(shape)))
        x = x.reshape(shape)
        o = m.eval_all(x)
        e = np.zeros(shape + (n,))
        for i in range(n):
            for j in range(m.size):
                e[..., i] += M[i, j] * o[..., j]
        v = tm.eval_all(x)
        check(close(v, e, 1e-8, 1e-8), "transformed moments", v, "expected", e)
        k = rng.randint(1, n)
        check(close(tm.eval_all(x, k), e[..., :k], 1e-8, 1e-8), "first", k, "transformed moments")
        for i in range(n):
            check(close(tm.eval_single_moment(i, x), e[..., i], 1e-8, 1e-8), "transformed moment", i)
        if len(shape) == 1:
            check(close(tm.eval(n - 1, x), e[..., n - 1], 1e-8, 1e-8), "transformed moment", n - 1)
        # transformed twice
        M2 = np.array([[rng.uniform(-2, 2) for _ in range(n)] for _ in range(2)])
        check(close(TransformedMoments(tm, M2).eval_all(x), np.einsum("ij,...j->...i", M2, e), 1e-7, 1e-7), "transformed twice")
        check(tm.size == n, "size")
    return run


def _quantities(seed):
    def run():
        rng = random.Random(seed)
        fmt = mk_fmt_same(rng, 1)
        st, arrs = storage(rng, rng.choice(["chunk", "memory", "hdf"]), fmt, [rng.randint(1, 5) for _ in range(rng.randint(1, 3))], "real")
        root = make_root_quantity(st, fmt)
        s = fmt[0]
        size = int(np.prod(s.shape))
        q, A = rng.choice([(root[s.name][s.times[0]][s.locations[0]], [a[:size] for a in arrs]),
                           (root[s.name], arrs), (root[s.name][s.times[0]], [a[:size * len(s.locations)] for a in arrs])])
        R = rng.randint(1, 4)
        cls = rng.choice(CLS)
        m = cls(R, (-30.0, 30.0), safe_eval=rng.random() < 0.5)
        bottom, top = qe.moments(q, m), qe.moments(q, m, mom_at_bottom=False)
        cb, ct = qe.covariance(q, m), qe.covariance(q, m, cov_at_bottom=False)
        for l, a in enumerate(A):
            v = np.stack([m.eval_single_moment(i, a) for i in range(R)], axis=-1)   # M N 2 R
            got = eval_q(bottom, st, l)
            e = np.moveaxis(v, -1, 1).reshape((-1,) + a.shape[1:])
            check(close(got, e), cls.__name__, "moments at bottom, level", l, "give", got, "expected", e)
            got = eval_q(top, st, l)
            e = np.moveaxis(v, -1, 0).reshape((-1,) + a.shape[1:])
            check(close(got, e), cls.__name__, "moments on top, level", l, "give", got, "expected", e)
            c = v[..., :, None] * v[..., None, :]     # M N 2 R R
            got = eval_q(cb, st, l)
            e = c.transpose(0, 3, 4, 1, 2).reshape((-1,) + a.shape[1:])
            check(close(got, e), "covariance at bottom, level", l, "gives", got, "expected", e)
            got = eval_q(ct, st, l)
            e = c.transpose(3, 4, 0, 1, 2).reshape((-1,) + a.shape[1:])
            check(close(got, e), "covariance on top, level", l, "gives", got, "expected", e)
            i = rng.randrange(R)
            check(close(eval_q(qe.moment(q, m, i), st, l), v[..., i]), "moment quantity", i)
            if R > 1:
                check(close(eval_q(top[i], st, l), v[..., i]), "item of moments on top", i)
        check(bottom.size() == R * q.size() and top.size() == R * q.size() and cb.size() == R * R * q.size(), "sizes")
    return run


def cases(tier, rng):
    n = 1 if tier == "quick" else 25
    for k in range(60 * n):
        yield "maps#%d" % k, _maps(rng.randrange(10**9))
        yield "alone#%d" % k, _alone(rng.randrange(10**9))
    for k in range(40 * n):
        yield "safe#%d" % k, _safe(rng.randrange(10**9))
        yield "transformed#%d" % k, _transformed(rng.randrange(10**9))
    for k in range(25 * n):
        yield "quantities#%d" % k, _quantities(rng.randrange(10**9))
