ID = "s20"; PROPERTY = "P16"
NEEDS = "a field on two regions whose elements are not numbered region by region in the listed order"
BREAKS = "the values of a field on several regions are given to other points than those they were evaluated in"
EDITS = [("mlmc/random/correlated_field.py", "                field.set_points(points[point_ids])\n", "                field.set_points(points[sorted(point_ids)])\n")]
DEMO = """
import numpy as np
import mlmc.random.correlated_field as cf
class Coord(cf.RandomFieldBase):
    def _initialize(self, **kw):
        pass
    def _sample(self):
        return self.points[:, 0]
pts = np.array([[float(i), 0.0] for i in range(6)])
for regs in (["a"], ["a", "b"], ["b", "a"]):
    fs = cf.Fields([cf.Field("f", Coord(dim=2), regions=regs)])
    for ids in ([1, 1, 1, 2, 2, 2], [2, 1, 2, 1, 3, 1]):
        fs.set_points(pts, region_ids=ids, region_map={"a": 1, "b": 2})
        got = fs.sample()["f"]
        want = [p[0] if {1: "a", 2: "b"}.get(r) in regs else 0.0 for p, r in zip(pts, ids)]
        assert got.tolist() == want, (regs, ids, got, want)
"""
