ID = "s08"; PROPERTY = "P20"
NEEDS = "more than one poll with measured samples of one level in the HDF5 storage"
BREAKS = "the stored cost is that of the last batch only, not the total"
EDITS = [("mlmc/sample_storage_hdf.py", """                n_ops_saved[0] += time
                n_ops_saved[1] += n_samples
""", """                n_ops_saved[0] = max(n_ops_saved[0], time)
                n_ops_saved[1] = max(n_ops_saved[1], n_samples)
""")]
DEMO = """
import numpy as np
from mlmc.sample_storage_hdf import SampleStorageHDF
from mlmc.quantity.quantity_spec import QuantitySpec
s = SampleStorageHDF(os.path.abspath("s.h5"))
s.save_global_data(level_parameters=[[1.0]], result_format=[QuantitySpec(name="q", unit="m", shape=(1, 1), times=[1.0], locations=["a"])])
s.save_n_ops([(0, [10.0, 2])])
s.save_n_ops([(0, [2.0, 4])])
assert abs(s.get_n_ops()[0] - 2.0) < 1e-12, s.get_n_ops()
"""
