ID = "s16"; PROPERTY = "P11"
NEEDS = "a dictionary of quantities of different sizes in which a later item is asked for"
BREAKS = "the position of an item is computed from its own size instead of those of the items before it"
EDITS = [("mlmc/quantity/quantity_types.py", "            start += qt.size()\n", "            start += q_type.size()\n")]
DEMO = """
import numpy as np
from mlmc.sample_storage import Memory
from mlmc.quantity.quantity_spec import QuantitySpec
from mlmc.quantity.quantity import make_root_quantity
s = Memory()
spec = [QuantitySpec(name="a", unit="m", shape=(2, 1), times=[1.0], locations=["x"]), QuantitySpec(name="b", unit="m", shape=(1, 1), times=[1.0, 2.0], locations=["x", "y"]),
        QuantitySpec(name="c", unit="m", shape=(1, 1), times=[1.0], locations=["x"])]
s.save_global_data(result_format=spec, level_parameters=[[1.0]])
s.save_samples({0: [("L00_S%07d" % i, (np.arange(7.0) + 10 * i, np.zeros(7))) for i in range(3)]}, {})
q = make_root_quantity(s, spec)
ch = next(s.chunks(level_id=0))
for name, start, n in (("a", 0, 2), ("b", 2, 4), ("c", 6, 1)):
    got = q[name].samples(ch)[:, 0, 0]
    assert got.tolist() == list(np.arange(7.0)[start:start + n]), (name, got)
"""
