import gstools
from common import *
import mlmc.random.correlated_field as cf
from mlmc.tool.flow_mc import FlowSim, create_corr_field


class Known(cf.RandomFieldBase):
    """a random field with a known realization: a random amplitude times a function of the point"""
    def _initialize(self, **kw):
        self.amps = []
        self.rnd = kw.get("rnd")

    def _sample(self):
        a = self.rnd.uniform(0.5, 2)
        self.amps.append(a)
        return a * shape_fn(self.points)


def shape_fn(p):
    p = np.asarray(p, dtype=float)
    return np.sin(3.1 * p[:, 0]) + 0.7 * np.cos(2.3 * p.sum(axis=1)) + 1.3 * p[:, -1]


def mesh(rng, dim, n=None, nreg=3):
    n = n or rng.randint(4, 25)
    pts = np.array([[rng.uniform(0, 1) for _ in range(dim)] for _ in range(n)])
    ids = [rng.choice([11, 5, 7][:nreg]) for _ in range(n)]
    if rng.random() < 0.3:
        ids = sorted(ids)
    for k, r in enumerate([11, 5, 7][:nreg]):
        ids[k % n] = r
    return pts, ids, {"a": 11, "b": 5, "c": 7}


def _place(seed):
    def run():
        rng = random.Random(seed)
        dim = rng.choice([1, 2, 3])
        pts, ids, rmap = mesh(rng, dim)
        regs = rng.choice([["a"], ["b"], ["a", "b"], ["c", "a"], "b", []])
        rl = [regs] if isinstance(regs, str) else regs
        mu, sigma, log = rng.uniform(-1, 1), rng.uniform(0.5, 2), rng.random() < 0.4
        shared = rng.random() < 0.4
        r1 = Known(dim=dim, mu=mu, sigma=sigma, log=log, rnd=random.Random(seed))
        r2 = r1 if shared else Known(dim=dim, mu=0.0, sigma=1.0, rnd=random.Random(seed + 1))
        regs2 = rng.choice([["c"], ["a", "c"], []])
        cst, cst2 = rng.choice([0.25, 3, 7.5]), rng.choice([0.5, 2])
        fl = [cf.Field("f", r1, regions=regs), cf.Field("g", r2, regions=regs2), cf.Field("k", cst, regions=["b"]), cf.Field("kk", cst),
              cf.Field("d", lambda x, c: x * c + 1.0, ["f", cst2], regions=regs), cf.Field("e", lambda x, y: x - 2.0 * y, ["f", "d"], regions=regs)]
        fields = cf.Fields(fl)
        names = ["f", "g", "k", "kk", "d", "e"]
        outer = None
        if rng.random() < 0.6:
            outer = rng.sample(names, rng.randint(1, 5))
            fields.set_outer_fields(outer)
        for rep in range(3):
            if rep == 2:
                pts, ids, rmap = mesh(rng, dim, len(pts) if rng.random() < 0.5 else None)
            if rep != 1:
                fields.set_points(pts, ids, rmap)
            out = fields.sample()
            if outer is not None:
                check(set(out) == set(outer), "returned fields", sorted(out), "requested", sorted(outer))
            else:
                check(set(names) <= set(out), "returned fields", sorted(out))
            inside = lambda rl: np.array([not rl or i in [rmap[r] for r in rl] for i in ids])
            for nm, r, rl_ in (("f", (mu, sigma, log), rl), ("g", (mu, sigma, log) if shared else (0.0, 1.0, False), regs2)):
                if nm not in out:
                    continue
                v = out[nm]
                m = inside(rl_)
                check(v.shape == (len(pts),), nm, "shape", v.shape)
                check(np.all(v[~m] == 0), nm, "outside of its regions", v[~m])
                w = (np.log(v[m]) if r[2] else v[m])
                w = (w - r[0]) / r[1]
                s = shape_fn(pts[m])
                a = float(w @ s / (s @ s))
                check(close(w, a * s, 1e-7, 1e-7) and 0.49 < a < 2.01, nm, "is not one realization at the points: values", v[m], "standardized", w, "expected multiple of", s)
            for nm, rl_ in (("k", ["b"]), ("kk", [])):
                if nm in out:
                    m = inside(rl_)
                    check(np.all(out[nm][m] == cst) and np.all(out[nm][~m] == 0), "constant field", out[nm])
            m = inside(rl)
            if "f" in out and "d" in out:
                check(close(out["d"][m], out["f"][m] * cst2 + 1.0) and np.all(out["d"][~m] == 0), "dependent field", out["d"], "from", out["f"])
            if "f" in out and "e" in out:
                check(close(out["e"][m], out["f"][m] - 2.0 * (out["f"][m] * cst2 + 1.0)) and np.all(out["e"][~m] == 0), "doubly dependent field", out["e"])
    return run


def _real(seed):
    """realizations of the field classes of the library"""
    def run():
        rng = random.Random(seed)
        dim = rng.choice([1, 2, 2])
        n = rng.randint(12, 30)
        P1 = np.array([[rng.uniform(0, 1) for _ in range(dim)] for _ in range(n)])
        P2 = np.array([[rng.uniform(0, 1) for _ in range(dim)] for _ in range(n if rng.random() < 0.5 else n + 5)])
        mu, sigma = rng.uniform(-1, 1), rng.uniform(0.3, 2)
        for log in (False, True):
            kw = dict(corr_exp=rng.choice(["gauss", "exp"]), dim=dim, corr_length=rng.uniform(0.1, 1))
            s0 = cf.SpatialCorrelatedField(**kw)
            s1 = cf.SpatialCorrelatedField(mu=mu, sigma=sigma, log=log, **kw)
            s0.set_points(P2)
            s1.set_points(P1)
            s1.sample()
            s1.set_points(P2)
            np.random.seed(seed % 1000)
            a = s0.sample()
            np.random.seed(seed % 1000)
            b = s1.sample()
            e = sigma * a + mu
            e = np.exp(e) if log else e
            check(close(b, e, 1e-6, 1e-6), "sample after new points", b, "expected", e)
            # mean and deviation given with the points
            mus = np.array([rng.uniform(-1, 1) for _ in P2])
            sig = np.array([rng.uniform(0.5, 1) for _ in P2])
            s1.set_points(P2, mu=mus, sigma=sig)
            np.random.seed(seed % 1000)
            b = s1.sample()
            e = sig * a + mus
            check(close(b, np.exp(e) if log else e, 1e-6, 1e-6), "sample with mean and deviation in points")
            s1.set_points(P2[::-1])
            check(s1.sample().shape == (len(P2),), "sample with mean and deviation kept")
            # gstools
            if dim == 2:
                model = gstools.Gaussian(dim=dim, len_scale=kw["corr_length"])
                g = cf.GSToolsSpatialCorrelatedField(model, log=log, sigma=sigma, mode_no=50)
                g.change_srf(seed % 1000)
                g.set_points(P1)
                g.sample()
                g.set_points(P2)
                v = np.ravel(g.sample())
                ref = gstools.SRF(model, seed=seed % 1000, mode_no=50)((P2[:, 0], P2[:, 1]))
                e = sigma * ref + g.mu
                check(close(v, np.exp(e) if log else e, 1e-7, 1e-7), "gstools field", v, "expected", e)
    return run


def _flow(seed):
    def run():
        rng = random.Random(seed)
        dim = 2
        pf, idf, rmap = mesh(rng, dim)
        pc, idc, _ = mesh(rng, dim)
        rnd = random.Random(seed)
        two = rng.random() < 0.8
        regs = rng.choice([[], ["a"], ["b", "c"]])
        fields = cf.Fields([cf.Field("f", Known(dim=dim, mu=0.3, sigma=2.0, rnd=rnd), regions=regs), cf.Field("d", lambda x: 2 * x, ["f"], regions=regs)])
        fine = {"points": pf, "point_region_ids": np.array(idf), "region_map": rmap}
        coarse = {"points": pc, "point_region_ids": np.array(idc), "region_map": rmap} if two else None
        fields = FlowSim.make_fields(fields, fine, coarse)
        for rep in range(2):
            fs, cs = FlowSim.generate_random_sample(fields, coarse_step=0.5 if two else 0, n_fine_elements=len(pf))
            check(set(fs) == {"f", "d"}, "fine fields", sorted(fs))
            check(fs["f"].shape == (len(pf), 1), "fine shape", fs["f"].shape)
            inside = lambda ids: np.array([not regs or i in [rmap[r] for r in regs] for i in ids])
            mf, mc = inside(idf), inside(idc)
            if not two:
                check(not cs, "coarse sample without coarse step", cs)
                vals, s, m = fs["f"][:, 0], shape_fn(pf), mf
            else:
                check(set(cs) == {"f", "d"} and cs["f"].shape == (len(pc), 1), "coarse fields", {k: v.shape for k, v in cs.items()})
                vals, s, m = np.concatenate([fs["f"][:, 0], cs["f"][:, 0]]), np.concatenate([shape_fn(pf), shape_fn(pc)]), np.concatenate([mf, mc])
                check(close(cs["d"], 2 * cs["f"]), "dependent coarse field")
            w = (vals[m] - 0.3) / 2.0
            a = float(w @ s[m] / (s[m] @ s[m]))
            check(close(w, a * s[m], 1e-7, 1e-7) and 0.49 < a < 2.01, "fine and coarse inputs are not parts of one realization", w, s[m])
            check(np.all(vals[~m] == 0), "outside of the regions")
            check(close(fs["d"], 2 * fs["f"]), "dependent fine field")
    return run


def cases(tier, rng):
    n = 1 if tier == "quick" else 20
    for k in range(60 * n):
        yield "placement#%d" % k, _place(rng.randrange(10**9))
    for k in range(10 * n):
        yield "realization#%d" % k, _real(rng.randrange(10**9))
    for k in range(30 * n):
        yield "fine-coarse#%d" % k, _flow(rng.randrange(10**9))
