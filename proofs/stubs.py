"""interface contracts (stand-ins for the collaborators of the function under proof)"""
import types
from pydv.api import *


def clock():
    f = [0]

    def pc():
        return freal("clock")
    return types.SimpleNamespace(perf_counter=pc, time=pc, sleep=lambda x: None)


class LevelSim(Base):
    def __init__(self, fine, coarse):
        self.fine = fine
        self.coarse = coarse


class Factory(Base):
    def __init__(self):
        pass

    def level_instance(self, fine, coarse):
        return LevelSim(fine, coarse)

    def calculate(self, *a):
        raise Unsupported("calculate is not called by the sampler")

    def result_format(self):
        return Opaque("format")


class Pool(Base):
    """contract of the pool: remembers what it was given; polling returns anything"""
    def __init__(self):
        self.log = PList()

    def schedule_sample(self, sample_id, level_sim):
        self.log.append((sample_id, level_sim))

    def get_finished(self):
        return Opaque("successful"), Opaque("failed"), fint("running", 0), Opaque("n_ops")

    def have_permanent_samples(self, ids):
        return None


class Storage(Base):
    def __init__(self, L, n0):
        self.L = L
        self.n0 = n0
        self.saved = PList()
        self.last = np.zeros(L)

    def save_global_data(self, level_parameters, result_format):
        return None

    def load_scheduled_samples(self):
        n0 = self.n0
        d = PDict()
        d.base = SymMap(_z(self.L), lambda j: SN(j), lambda j: flist(n0(j), lambda i: mk_fmt("L{:02d}_S{:07d}", [SN(j), SN(i)])))
        d.log = []
        return d

    def unfinished_ids(self):
        return Opaque("unfinished")

    def save_scheduled_samples(self, level_id, samples):
        self.saved.append((level_id, samples))

    def save_samples(self, *a):
        return None

    def save_n_ops(self, *a):
        return None

    def n_finished(self):
        self.last = farr("n_finished", self.L, kind="intfloat")
        return self.last.copy()


PARAM = z3.Function("level_parameters", I, Obj)


def setup(restart):
    w = make_world({"time": clock()})
    sm = w.load("mlmc.sampler")
    L = fint("L", 1)
    n0 = ffun("n0", I, I) if restart else (lambda j: 0)
    if restart:
        q = z3.Int("$q")
        C().assume(z3.ForAll([q], n0.raw(q) >= 0))
    st = Storage(L, n0)
    pool = Pool()
    params = flist(L, lambda j: SymObj(PARAM(_z(j)), label="level parameters"))
    s = sm.Sampler(st, pool, Factory(), params)
    return sm, s, st, pool, L, n0
