"""contracts for the proofs about quantities: a storage of arbitrary samples and quantities with arbitrary values on it"""
from pydv.api import *
from proofs.stubs import clock


class Store(Base):
    """the samples of any chunk: arbitrary, one array per chunk"""
    def __init__(self, M, parts=2):
        self.M, self.parts = M, parts
        c = C()
        self.N = fint("N", 0)
        self.val = c.fresh_fun("stored", [I, I, I], R)

    def sample_pairs_level(self, spec):
        return SArr([_z(self.M), self.N.e, self.parts], lambda idx: SNum(self.val(*[_z(x) for x in idx])), "float")

    def chunks(self, level_id=None):
        return SIter(Seq(fint("n_chunks", 1).e, lambda j: Spec(j)))

    def get_level_ids(self):
        return flist(fint("L", 1), lambda i: SN(_z(i)))


class Spec(Base):
    chunk_slice = None

    def __init__(self, chunk_id=None, level_id=None):
        self.chunk_id, self.level_id = SN(_z(chunk_id)) if chunk_id is not None else None, level_id


def load(models=None):
    w = make_world({"time": clock(), **(models or {})})
    return w, w.load("mlmc.quantity.quantity")


def arr3(name, M, N, parts=2):
    return farr(name, M, N, parts)


class Setup:
    """a storage and quantities a, b with the same number of components and arbitrary values"""
    def __init__(self, parts=2, scalar=False):
        self.w, self.qm = load()
        qm = self.qm
        self.M = 1 if scalar else fint("M", 1)
        self.st = Store(self.M, parts)
        qt = qm.qt
        self.qtype = qt.ScalarType() if scalar else qt.ArrayType((self.M,), qt.ScalarType())
        self.root = qm.QuantityStorage(self.st, self.qtype)
        self.N, self.parts = self.st.N, parts
        self.a = self.root
        A = farr("b", self.M, self.N, parts)
        self.B = A
        self.b = qm.Quantity(self.qtype, input_quantities=PList([self.root]), operation=lambda x: A.copy())
        self.spec = Spec(fint("chunk", 0), fint("level", 0))

    def idx(self):
        return sk("m", 0, self.M), sk("i", 0, self.N), sk("p", 0, self.parts)

    def va(self, m, i, p):
        return SN(self.st.val(_z(m), _z(i), _z(p)))

    def vb(self, m, i, p):
        return self.B.get((_z(m), _z(i), _z(p)))
