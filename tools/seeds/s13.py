ID = "s13"; PROPERTY = "P07"
NEEDS = "a hundredth level (or ten millions of samples): identifiers longer than twelve characters"
BREAKS = "stored scheduled and collected identifiers are cut to twelve characters, so different samples share an identifier and finished ones stay unfinished"
EDITS = [("mlmc/tool/hdf5.py", "                       'formats': ['S100']}\n", "                       'formats': ['S12']}  # L<level:02d>_S<sample:07d>\n")]
DEMO = """
import numpy as np
from mlmc.sample_storage_hdf import SampleStorageHDF
from mlmc.quantity.quantity_spec import QuantitySpec
s = SampleStorageHDF(os.path.abspath("s.h5"))
L = 102
s.save_global_data(level_parameters=[[1.0 / (i + 1)] for i in range(L)], result_format=[QuantitySpec(name="q", unit="m", shape=(1, 1), times=[1.0], locations=["a"])])
for l in (0, 101):
    ids = ["L{:02d}_S{:07d}".format(l, i) for i in range(15)]
    s.save_scheduled_samples(l, ids)
    assert s.load_scheduled_samples()[l] == ids, s.load_scheduled_samples()[l]
"""
