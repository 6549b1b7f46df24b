ID = "s15"; PROPERTY = "P10"
NEEDS = "a selection by three or more conditions where one of those in the middle excludes a sample"
BREAKS = "only the first and the last condition of a selection are applied"
EDITS = [("mlmc/quantity/quantity.py", "                masks = np.logical_and(masks, m)  # method from this module\n", "                masks = np.logical_and(args[0], m)  # method from this module\n")]
DEMO = """
import numpy as np
from mlmc.sample_storage import Memory
from mlmc.quantity.quantity_spec import QuantitySpec, ChunkSpec
from mlmc.quantity.quantity import make_root_quantity
s = Memory()
spec = [QuantitySpec(name="q", unit="m", shape=(1, 1), times=[1.0], locations=["a"])]
s.save_global_data(result_format=spec, level_parameters=[[1.0]])
v = [0.0, 1.0, 2.0, 3.0, 4.0, 5.0]
s.save_samples({0: [("L00_S%07d" % i, (np.array([a]), np.array([0.0]))) for i, a in enumerate(v)]}, {})
q = make_root_quantity(s, spec)
x = q["q"][1.0]["a"][0, 0]
got = x.select(x > 0.5, x < 3.5, x != 2.0).samples(next(s.chunks(level_id=0)))
assert np.ravel(got).tolist() == [1.0, 3.0], got
got = x.select(x > 0.5, x < 3.5, x < 4.5).samples(next(s.chunks(level_id=0)))
assert np.ravel(got).tolist() == [1.0, 2.0, 3.0], got
"""
