ID = "s12"; PROPERTY = "P05"
NEEDS = "a level whose failed samples are saved before a later batch of successful ones"
BREAKS = "saving successful samples forgets the failed samples saved earlier in the number of finished samples"
EDITS = [("mlmc/sample_storage.py", "            self._n_finished[level_id] += results.shape[0]\n", "            self._n_finished[level_id] = len(self._successful_sample_ids[level_id])\n")]
DEMO = """
import numpy as np
from mlmc.sample_storage import Memory
s = Memory()
s._level_parameters = [[1.0]]
ok = lambda a, b: [("L00_S%07d" % i, (np.array([1.0 * i]), np.array([0.0]))) for i in range(a, b)]
s.save_samples({0: ok(0, 2)}, {0: [("L00_S0000002", "e")]})
assert list(s.n_finished()) == [3], s.n_finished()
s.save_samples({0: ok(3, 5)}, {})
assert list(s.n_finished()) == [5], s.n_finished()
"""
