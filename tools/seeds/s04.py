ID = "s04"; PROPERTY = "P14"
NEEDS = "an estimate of at most ten samples that is exactly one above the number already scheduled"
BREAKS = "adding samples overshoots the estimated number of samples by one"
EDITS = [("mlmc/sampler.py", "                                 n_scheduled + (n_estimated - n_scheduled) * add_coeff)\n",
          "                                 n_scheduled + np.maximum((n_estimated - n_scheduled) * add_coeff, 1.5))\n")]
DEMO = """
import numpy as np
from mlmc.sampler import Sampler
from mlmc.sample_storage import Memory
from mlmc.sampling_pool import OneProcessPool
from mlmc.sim.simulation import Simulation
from mlmc.level_simulation import LevelSimulation
from mlmc.quantity.quantity_spec import QuantitySpec


class Sim(Simulation):
    def level_instance(self, f, c):
        return LevelSimulation(config_dict={}, task_size=0)

    def result_format(self):
        return [QuantitySpec(name="q", unit="m", shape=(1, 1), times=[1.0], locations=["a"])]

    @staticmethod
    def calculate(config, seed):
        return np.array([1.0]), np.array([1.0])


for n0, est in ((5, 6), (3, 4), (20, 30), (50, 52)):
    s = Sampler(Memory(), OneProcessPool(), Sim(), [[1.0], [0.5]])
    s.set_level_target_n_samples([n0, n0])
    s.schedule_samples()
    s.ask_sampling_pool_for_samples()
    s.process_adding_samples(np.array([est, est]), timeout=1.0)
    assert all(n0 <= n <= est for n in s._n_scheduled_samples), (n0, est, s._n_scheduled_samples)
"""
