"""Simulations, pools and storages used by the run-time contracts"""
import os
import numpy as np
from lib import *
from mlmc.sim.simulation import Simulation
from mlmc.level_simulation import LevelSimulation
from mlmc.quantity.quantity_spec import QuantitySpec, ChunkSpec
from mlmc.sampling_pool import SamplingPool
from mlmc.sample_storage import Memory, SampleStorage
from mlmc.sample_storage_hdf import SampleStorageHDF
from mlmc.sampler import Sampler

FMT1 = [QuantitySpec(name="q", unit="m", shape=(1, 1), times=[1.0], locations=["a"])]


def fmt_size(fmt):
    n = 0
    for s in fmt:
        p = 1
        for d in s.shape:
            p *= d
        n += p * len(s.times) * len(s.locations)
    return n


class Sim(Simulation):
    """deterministic simulation: the level configuration records the level parameters"""
    def __init__(self, fmt=None, task_size=0, calc=None):
        self.fmt = fmt or FMT1
        self.task_size = task_size
        self.calls = []
        self._calc = calc

    def level_instance(self, fine_level_params, coarse_level_params):
        self.calls.append((list(fine_level_params), list(coarse_level_params)))
        return LevelSimulation(config_dict={"fine": list(fine_level_params), "coarse": list(coarse_level_params)},
                               task_size=self.task_size)

    def result_format(self):
        return self.fmt

    @staticmethod
    def calculate(config, seed):
        v = np.array([float(seed % 97)])
        return v, v / 2


class RecPool(SamplingPool):
    """a sampling pool that records what it is given and returns what it is told to"""
    def __init__(self):
        super().__init__()
        self.given = []          # (sample_id, level_sim)
        self.permanent = None
        self.to_return = []

    def schedule_sample(self, sample_id, level_sim):
        self.given.append((sample_id, level_sim))

    def have_permanent_samples(self, sample_ids):
        self.permanent = list(sample_ids)
        return False

    def get_finished(self):
        if self.to_return:
            return self.to_return.pop(0)
        return {}, {}, 0, []


def mk_fmt(rng, n=None):
    fmt = []
    for i in range(n or rng.randint(1, 4)):
        nt = rng.randint(1, 4)
        nl = rng.randint(1, 3)
        fmt.append(QuantitySpec(name="q%d" % i, unit="u%d" % i, shape=rng.choice([(1, 1), (2, 1), (1, 3), (2, 3), (3, 2)]),
                                times=[float(t) for t in range(1, nt + 1)], locations=["l%d" % j for j in range(nl)]))
    return fmt


def mk_fmt_same(rng, n=None):
    """the HDF5 storage keeps one data type for all quantities: equal numbers of times and locations"""
    nt, nl = rng.randint(1, 4), rng.randint(1, 3)
    fmt = []
    for i in range(n or rng.randint(1, 4)):
        fmt.append(QuantitySpec(name="q%d" % i, unit="u%d" % i, shape=rng.choice([(1, 1), (2, 1), (1, 3), (2, 3), (3, 2)]),
                                times=[float(t) for t in range(1, nt + 1)], locations=["l%d" % j for j in range(nl)]))
    return fmt


def sid(level, i):
    return "L%02d_S%07d" % (level, i)


def same(a, b):
    a, b = np.asarray(a, dtype=float), np.asarray(b, dtype=float)
    return a.shape == b.shape and np.array_equal(a, b, equal_nan=True)


def close(a, b, rtol=1e-8, atol=1e-9):
    a, b = np.asarray(a, dtype=float), np.asarray(b, dtype=float)
    return a.shape == b.shape and np.allclose(a, b, rtol=rtol, atol=atol, equal_nan=True)


def stop(pool):
    p = getattr(pool, "_pool", None)
    if p is not None:
        try:
            p.terminate()
        except BaseException:
            pass
