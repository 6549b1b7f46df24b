import operator
import gc
from qlib import *

BIN = [("+", operator.add), ("-", operator.sub), ("*", operator.mul), ("/", operator.truediv), ("%", operator.mod)]
CMP = [("<", operator.lt), ("<=", operator.le), (">", operator.gt), (">=", operator.ge), ("==", operator.eq), ("!=", operator.ne)]


def setup(rng, mode="real", kind=None):
    fmt = mk_fmt_same(rng, 2)
    fmt[1] = QuantitySpec(name=fmt[1].name, unit=fmt[1].unit, shape=fmt[0].shape, times=fmt[0].times, locations=fmt[0].locations)
    counts = [rng.choice([1, 2, 3, 7]) for _ in range(rng.randint(1, 3))]
    st, arrs = storage(rng, kind or rng.choice(["chunk", "memory", "memory", "hdf"]), fmt, counts, mode)
    root = make_root_quantity(st, fmt)
    size = int(np.prod(fmt[0].shape))
    half = fmt_size(fmt[:1])
    a = root[fmt[0].name][fmt[0].times[0]][fmt[0].locations[0]]
    b = root[fmt[1].name][fmt[0].times[0]][fmt[0].locations[0]]
    return st, root, a, b, [x[:size] for x in arrs], [x[half:half + size] for x in arrs], size, arrs, fmt


def const(rng, size):
    k = rng.randrange(5)
    if k == 0:
        return rng.randint(1, 5), None
    if k == 1:
        return rng.uniform(0.5, 3), None
    if k == 2:
        return -rng.uniform(0.5, 3), None
    v = [rng.uniform(0.5, 3) for _ in range(size)]
    if k == 3:
        return np.array(v), np.array(v)[:, None, None]
    return v, np.array(v)[:, None, None]


def agree(q, st, ref, tag):
    for l, r in enumerate(ref):
        got = eval_q(q, st, l)
        check(close(got, r, 1e-12, 1e-12), tag, "level", l, "gives", got, "expected", r)


def _arith(seed):
    def run():
        rng = random.Random(seed)
        st, root, a, b, A, B, size, _, _ = setup(rng)
        for s, op in BIN:
            agree(op(a, b), st, [op(x, y) for x, y in zip(A, B)], "a %s b" % s)
            agree(op(b, a), st, [op(y, x) for x, y in zip(A, B)], "b %s a" % s)
            c, cc = const(rng, size)
            cc = c if cc is None else cc
            agree(op(a, c), st, [op(x, cc) for x in A], "a %s const %r" % (s, c))
            agree(op(c, a), st, [op(cc, x) for x in A], "const %r %s a" % (c, s))
            c1, c2 = rng.uniform(1, 2), rng.uniform(1, 2)
            agree(op(op(a, c1), op(c2, b)), st, [op(op(x, c1), op(c2, y)) for x, y in zip(A, B)], "nested %s" % s)
            k = op(Quantity.wrap(c1), Quantity.wrap(c2))
            agree(a + k, st, [x + op(c1, c2) for x in A], "constants %s" % s)
        agree((a - b) / (a * a + 1.0), st, [(x - y) / (x * x + 1.0) for x, y in zip(A, B)], "expression")
    return run


def _ufunc(seed):
    def run():
        rng = random.Random(seed)
        st, root, a, b, A, B, size, _, _ = setup(rng, "pos")
        for f in (np.sin, np.exp, np.log, np.sqrt, np.negative):
            agree(f(a), st, [f(x) for x in A], f.__name__)
        for f in (np.add, np.subtract, np.divide, np.maximum, np.minimum, np.arctan2, np.power):
            agree(f(a, b), st, [f(x, y) for x, y in zip(A, B)], f.__name__)
            c = rng.uniform(0.5, 2)
            agree(f(a, c), st, [f(x, c) for x in A], f.__name__ + " const")
            agree(f(c, a), st, [f(c, x) for x in A], f.__name__ + " const first")
            v = [rng.uniform(0.5, 2) for _ in range(size)]
            agree(f(a, np.array(v)), st, [f(x, np.array(v)[:, None, None]) for x in A], f.__name__ + " array")
            agree(f(np.array(v), a), st, [f(np.array(v)[:, None, None], x) for x in A], f.__name__ + " array first")
        check(np.exp(a).size() == size, "size of a function value")
    return run


def _compare(seed):
    def run():
        rng = random.Random(seed)
        st, root, a, b, A, B, size, arrs, fmt = setup(rng, rng.choice(["int", "real", "nan"]))
        for s, op in CMP:
            for other, ref in ((b, B), (float(rng.randint(-1, 1)), None)):
                R = ref or [other] * len(A)
                m = op(a, other)
                for l, (x, y) in enumerate(zip(A, R)):
                    e = np.array([bool(np.all(op(x[:, j, :], y[:, j, :] if ref else y))) for j in range(x.shape[1])])
                    got = np.concatenate([m.samples(c) for c in st.chunks(level_id=l)])
                    check(got.shape == e.shape and np.array_equal(np.asarray(got, bool), e), "a", s, "b" if ref else other, "marks", got, "expected", e, "values", x, y)
                sel = root.select(m)
                for l, (x, y) in enumerate(zip(A, R)):
                    e = np.array([bool(np.all(op(x[:, j, :], y[:, j, :] if ref else y))) for j in range(x.shape[1])])
                    got = eval_q(sel, st, l)
                    check(same(got, arrs[l][:, e, :]), "select(a %s ..) keeps" % s, got, "expected", arrs[l][:, e, :])
    return run


def _select(seed):
    def run():
        rng = random.Random(seed)
        st, root, a, b, A, B, size, arrs, fmt = setup(rng, "int")
        conds, refs = [], []
        for _ in range(rng.choice([1, 2, 3, 3, 4])):
            s, op = rng.choice(CMP)
            t = float(rng.randint(-3, 3))
            q, Q = rng.choice([(a, A), (b, B)])
            conds.append(op(q, t))
            refs.append([np.array([bool(np.all(op(x[:, j, :], t))) for j in range(x.shape[1])]) for x in Q])
        masks = [np.logical_and.reduce([r[l] for r in refs]) for l in range(len(A))]
        sel = a.select(*conds)
        agree(sel, st, [x[:, m, :] for x, m in zip(A, masks)], "select with %d conditions" % len(conds))
        # operations on the selected quantity
        agree(sel * 2.0 + 1.0, st, [x[:, m, :] * 2.0 + 1.0 for x, m in zip(A, masks)], "arithmetic after select")
        if len(conds) > 1:
            m2 = np.logical_or(conds[0], conds[1])
            agree(a.select(m2), st, [x[:, r0 | r1, :] for x, r0, r1 in zip(A, refs[0], refs[1])], "select by or")
        # selecting by a condition and selecting from the selection
        t = float(rng.randint(-2, 2))
        again = sel.select(sel > t)
        agree(again, st, [x[:, m, :][:, [bool(np.all(x[:, m, :][:, j, :] > t)) for j in range(int(m.sum()))], :] for x, m in zip(A, masks)], "select twice")
        # combining different selections
        other = b.select(b > 0.0)
        for n, f in (("a+b", lambda: sel + other), ("b+a", lambda: other + sel), ("a+root", lambda: sel + b), ("root+a", lambda: b + sel),
                     ("array", lambda: Quantity.QArray([sel, other])), ("compare", lambda: sel < other), ("ufunc", lambda: np.maximum(sel, b)),
                     ("const between", lambda: (1.0 + sel) * (b * 2.0)), ("dict", lambda: Quantity.QDict([("x", sel), ("y", b)])),
                     ("same condition twice", lambda: a.select(conds[0]) + b.select(conds[0]) if False else sel - a)):
            expect_raises(f, "combining different selections (%s)" % n)
    return run


def _storages(seed):
    def run():
        rng = random.Random(seed)
        fmt = FMT1
        q = []
        for k in range(2):
            st, arrs = storage(rng, "memory", fmt, [3, 3])
            q.append(make_root_quantity(st, fmt)["q"][1.0]["a"])
        a, b = q
        for n, f in (("a+b", lambda: a + b), ("b-a", lambda: b - a), ("a<b", lambda: a < b), ("select", lambda: a.select(b > 0.0)),
                     ("const", lambda: 1.0 + a * 2.0 - b), ("array", lambda: Quantity.QArray([a, b])), ("ufunc", lambda: np.add(a, b)),
                     ("two roots of one storage" if False else "const first", lambda: Quantity.QArray([a + 1.0, 2.0 * b]))):
            expect_raises(f, "combining different storages (%s)" % n)
    return run


def _cache(seed):
    """values do not depend on which other quantities were evaluated before"""
    def run():
        rng = random.Random(seed)
        st, root, a, b, A, B, size, arrs, fmt = setup(rng, kind=rng.choice(["memory", "chunk"]))
        l = rng.randrange(len(A))
        for k in range(30):
            c = float(k)
            q = rng.choice([lambda: a * c, lambda: a + c, lambda: b - c])
            ref = None
            i = rng.randrange(3)
            q = [a * c, a + c, b - c][i]
            ref = [A[l] * c, A[l] + c, B[l] - c][i]
            got = eval_q(q, st, l)
            check(close(got, ref, 1e-12, 1e-12), "evaluation", k, "gives", got, "expected", ref)
            del q
            gc.collect()
        # more data in the storage: an estimate must not use old values
        em = qe.estimate_mean(a)
        m0 = np.array(em.mean)
        em2 = qe.estimate_mean(a * 3.0)
        check(close(em2.mean, 3 * m0, 1e-9, 1e-9), "estimate of 3 a", em2.mean, m0)
    return run


def cases(tier, rng):
    n = 1 if tier == "quick" else 20
    for k in range(20 * n):
        yield "arithmetic#%d" % k, _arith(rng.randrange(10**9))
    for k in range(12 * n):
        yield "function#%d" % k, _ufunc(rng.randrange(10**9))
    for k in range(25 * n):
        yield "comparison#%d" % k, _compare(rng.randrange(10**9))
    for k in range(25 * n):
        yield "selection#%d" % k, _select(rng.randrange(10**9))
    for k in range(3 * n):
        yield "storages#%d" % k, _storages(rng.randrange(10**9))
    for k in range(10 * n):
        yield "order-of-evaluation#%d" % k, _cache(rng.randrange(10**9))
