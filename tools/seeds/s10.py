ID = "s10"; PROPERTY = "P03"
NEEDS = "one poll that returns successful and failed samples of the same level"
BREAKS = "the number of running samples stays too high: of the level's two lists only the failed one is subtracted"
EDITS = [("mlmc/sampling_pool.py", "            self._n_running -= len(results[level_id])\n", ""),
         ("mlmc/sampling_pool.py", "        return successful, failed, self._n_running, self._new_times()\n",
          "        finished = dict(successful)\n        finished.update(failed)\n        self._n_running -= sum(len(samples) for samples in finished.values())\n\n        return successful, failed, self._n_running, self._new_times()\n")]
DEMO = """
import numpy as np
from mlmc.sampling_pool import OneProcessPool
from mlmc.level_simulation import LevelSimulation
from mlmc.quantity.quantity_spec import QuantitySpec
sim = LevelSimulation(config_dict={}, task_size=0)
sim._level_id = 0
n = [0]
def calc(config, seed):
    n[0] += 1
    if n[0] % 2 == 0:
        raise ValueError("bad")
    return np.array([1.0]), np.array([1.0])
sim._calculate = calc
sim._result_format = lambda: [QuantitySpec(name="q", unit="m", shape=(1, 1), times=[1.0], locations=["a"])]
pool = OneProcessPool()
for i in range(5):
    pool.schedule_sample("L00_S%07d" % i, sim)
ok, bad, running, _ = pool.get_finished()
assert len(ok[0]) == 3 and len(bad[0]) == 2 and running == 0, (ok, bad, running)
"""
