ID = "s07"; PROPERTY = "P06"
NEEDS = "samples saved in one batch in another order than that of their identifiers (finished out of order)"
BREAKS = "the stored identifiers are sorted, the stored results are not: the n-th result no longer belongs to the n-th identifier"
EDITS = [("mlmc/tool/hdf5.py", "        self._append_dataset(self.collected_ids_dset, samples[:, 0])\n", "        self._append_dataset(self.collected_ids_dset, np.sort(samples[:, 0]))\n")]
DEMO = """
import numpy as np, h5py
from mlmc.sample_storage_hdf import SampleStorageHDF
from mlmc.quantity.quantity_spec import QuantitySpec
s = SampleStorageHDF(os.path.abspath("s.h5"))
s.save_global_data(level_parameters=[[1.0]], result_format=[QuantitySpec(name="q", unit="m", shape=(1, 1), times=[1.0], locations=["a"])])
ids = ["L00_S0000003", "L00_S0000001", "L00_S0000002"]
s.save_samples({0: [(i, (np.array([float(i[-1])]), np.array([0.0]))) for i in ids]}, {})
with h5py.File("s.h5") as f:
    g = f["Levels/0"]
    got = [x[0].decode() if not isinstance(x, bytes) else x.decode() for x in g["collected_ids"][()]]
    vals = [float(np.ravel(v)[0]) for v in g["collected_values"][()]]
assert [float(i[-1]) for i in got] == vals, (got, vals)
"""
