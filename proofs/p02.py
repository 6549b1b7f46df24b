"""P02: the seed is the first word of the digest of the identifier, whatever runs the sample; one simulation call with it."""
from pydv.api import *
from proofs.poollib import *

FUNCTIONS = ["mlmc/sampling_pool.py:SamplingPool.compute_seed", "mlmc/sampling_pool.py:SamplingPool.calculate_sample", "mlmc/sampling_pool.py:OneProcessPool.schedule_sample",
             "mlmc/sampling_pool.py:ProcessPool.schedule_sample"]
TRUSTED = ["hashlib.md5 (uninterpreted function of the encoded text)", "multiprocessing pools run a submitted task once with the given arguments", "os/shutil (recorded, arbitrary answers)"]
ASSUMPTIONS = ["identifiers are ASCII"]


def seed_of(s):
    return WORD(str_term(s), z3.IntVal(0))


def seed():
    """the seed is a function of the identifier"""
    w, fs = pool_world()
    sp = w.load("mlmc.sampling_pool")
    i = fstr("sample_id")
    s = sp.SamplingPool.compute_seed(i)
    cover("seed")
    prove("seed is the first word of the digest", _z(s) == seed_of(i))


def calls(sim, i, seed):
    n = as_seq(sim.calls)
    prove("one simulation call", n.nt <= 1)
    if n.n:
        c, s = n.get(0)
        prove("seed of the call", _z(s) == seed)
        prove_is("configuration of the level", c, sim.config_dict)


def calculate():
    """one call per sample, with the seed of the identifier and the level's configuration"""
    w, fs = pool_world()
    fs.fail = True
    sp = w.load("mlmc.sampling_pool")
    i = fstr("sample_id")
    sim = LevelSim()
    sp.SamplingPool.calculate_sample(i, sim, work_dir=fstr("work_dir"))
    cover("calculated")
    calls(sim, i, seed_of(i))


def explicit():
    """a seed given explicitly is used unchanged"""
    w, fs = pool_world()
    sp = w.load("mlmc.sampling_pool")
    i = fstr("sample_id")
    sim = LevelSim()
    s = fint("seed", 0)
    sp.SamplingPool.calculate_sample(i, sim, work_dir=fstr("work_dir"), seed=s)
    cover("calculated")
    calls(sim, i, s.e)


def pools(cls):
    def h():
        w, fs = pool_world()
        sp = w.load("mlmc.sampling_pool")
        calc = CalcContract()
        sp.SamplingPool.calculate_sample = staticmethod(calc)
        files_contract(sp, fs)
        p = make_pool(sp, cls)
        i, sim = fstr("sample_id"), LevelSim()
        p.schedule_sample(i, sim)
        run_tasks(p)
        cover("scheduled")
        n = as_seq(calc.calls)
        prove("the sample is calculated once", n.nt == 1)
        j, s, wd, seed = n.get(0)
        prove("under its identifier", str_term(j) == i.e)
        prove_is("by its own level's simulation", s, sim)
        prove("with no other seed", z3.BoolVal(True) if seed is None else _z(seed) == seed_of(i))
    h.__name__ = cls
    h.__doc__ = "a sample handed to the pool is calculated with its own seed"
    return h


HARNESSES = [seed, calculate, explicit, pools("OneProcessPool"), pools("ProcessPool"), pools("ThreadPool")]
