ID = "s01"; PROPERTY = "P01"
NEEDS = "a restart from an HDF5 file in which some scheduled samples have not finished"
BREAKS = "numbering continues after the number of finished samples, so identifiers of unfinished samples are given out again"
EDITS = [("mlmc/sampler.py", """        self._n_scheduled_samples = [len(level_scheduled) for level_id, level_scheduled in
                                     sample_storage.load_scheduled_samples().items()]
""", """        self._n_scheduled_samples = [len(level_scheduled) for level_id, level_scheduled in
                                     sample_storage.load_scheduled_samples().items()]
        if self._n_scheduled_samples:
            self._n_scheduled_samples = list(sample_storage.n_finished())
""")]
DEMO = """
import numpy as np
from mlmc.sampler import Sampler
from mlmc.sample_storage_hdf import SampleStorageHDF
from mlmc.sampling_pool import SamplingPool
from mlmc.sim.simulation import Simulation
from mlmc.level_simulation import LevelSimulation
from mlmc.quantity.quantity_spec import QuantitySpec


class Pool(SamplingPool):
    def __init__(self):
        super().__init__()
        self.ids = []

    def schedule_sample(self, sample_id, level_sim):
        self.ids.append(sample_id)

    def have_permanent_samples(self, ids):
        return False

    def get_finished(self):
        return {}, {}, 0, []


class Sim(Simulation):
    def level_instance(self, f, c):
        return LevelSimulation(config_dict={}, task_size=0)

    def result_format(self):
        return [QuantitySpec(name="q", unit="m", shape=(1, 1), times=[1.0], locations=["a"])]

    @staticmethod
    def calculate(config, seed):
        return np.array([1.0]), np.array([1.0])


ids = []
for n in (3, 5):
    p = Pool()
    s = Sampler(SampleStorageHDF(os.path.abspath("s.hdf5")), p, Sim(), [[1.0], [0.5]])
    s.set_level_target_n_samples([n, n])
    s.schedule_samples()
    ids += p.ids
assert len(ids) == len(set(ids)) == 10, ids
"""
