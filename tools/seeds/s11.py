ID = "s11"; PROPERTY = "P04"
NEEDS = "a simulation whose coarse result alone has a wrong length"
BREAKS = "a sample with a malformed coarse result is reported as successful"
EDITS = [("mlmc/sampling_pool.py", "                assert len(flatten_fine_res) == len(flatten_coarse_res) == res_expected_len, \\\n",
          "                assert res_expected_len in (len(flatten_fine_res), len(flatten_coarse_res)), \\\n")]
DEMO = """
import numpy as np
from mlmc.sampling_pool import SamplingPool
from mlmc.level_simulation import LevelSimulation
from mlmc.quantity.quantity_spec import QuantitySpec
sim = LevelSimulation(config_dict={}, task_size=0)
sim._result_format = lambda: [QuantitySpec(name="q", unit="m", shape=(1, 1), times=[1.0, 2.0], locations=["a"])]
for f, c, ok in ((2, 2, True), (3, 3, False), (2, 1, False), (1, 2, False)):
    sim._calculate = lambda config, seed: (np.ones(f), np.ones(c))
    _, res, err, _ = SamplingPool.calculate_sample("L00_S0000003", sim)
    assert (err == "") == ok, (f, c, err)
"""
