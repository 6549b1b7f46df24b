ID = "s09"; PROPERTY = "P02"
NEEDS = "a sample calculated with the explicit seed 0"
BREAKS = "an explicitly given seed of zero is replaced by the seed of the identifier"
EDITS = [("mlmc/sampling_pool.py", "        if seed is None:\n", "        if not seed:\n")]
DEMO = """
import numpy as np
from mlmc.sampling_pool import SamplingPool
from mlmc.level_simulation import LevelSimulation
from mlmc.quantity.quantity_spec import QuantitySpec
seen = []
sim = LevelSimulation(config_dict={}, task_size=0)
sim._calculate = lambda config, seed: (seen.append(int(seed)), (np.array([1.0]), np.array([1.0])))[1]
sim._result_format = lambda: [QuantitySpec(name="q", unit="m", shape=(1, 1), times=[1.0], locations=["a"])]
for s in (1, 7, 0, 2 ** 32 - 1):
    SamplingPool.calculate_sample("L00_S0000003", sim, seed=s)
assert seen == [1, 7, 0, 2 ** 32 - 1], seen
"""
