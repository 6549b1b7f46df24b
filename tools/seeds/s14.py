ID = "s14"; PROPERTY = "P08"
NEEDS = "a chunk in which every sample has a missing value, followed by chunks with valid samples"
BREAKS = "the chunks after a completely masked one do not enter the estimate"
EDITS = [("mlmc/quantity/quantity_estimate.py", "            continue\n        assert (chunk.shape[0] == quantity_vec_size)\n", "            break\n        assert (chunk.shape[0] == quantity_vec_size)\n")]
DEMO = """
import numpy as np
from mlmc.sample_storage import Memory
from mlmc.quantity.quantity_spec import QuantitySpec
from mlmc.quantity.quantity import make_root_quantity
from mlmc.quantity.quantity_estimate import estimate_mean
nan = float("nan")
s = Memory()
spec = [QuantitySpec(name="q", unit="m", shape=(1, 1), times=[1.0], locations=["a"])]
s.save_global_data(result_format=spec, level_parameters=[[1.0], [0.5], [0.2]])
mk = lambda l, f, c: [("L%02d_S%07d" % (l, i), (np.array([a]), np.array([b]))) for i, (a, b) in enumerate(zip(f, c))]
s.save_samples({0: mk(0, [1.0, 3.0], [0.0, 0.0]), 1: mk(1, [nan, 1.0], [1.0, nan]), 2: mk(2, [5.0, 7.0], [1.0, 1.0])}, {})
q = make_root_quantity(s, spec)
m = estimate_mean(q)
assert list(m.n_samples) == [2, 0, 2], m.n_samples
assert np.allclose(m.l_means[2], 5.0), m.l_means
"""
