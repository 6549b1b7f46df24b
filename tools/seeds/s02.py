ID = "s02"; PROPERTY = "P09"
NEEDS = "a sample whose coarse value is NaN while its fine value is finite"
BREAKS = "only the fine part is tested for missing values, so a sample with a missing coarse value stays in the estimate"
EDITS = [("mlmc/quantity/quantity_estimate.py", "    mask = np.any(np.isnan(chunk), axis=0).any(axis=1)\n", "    mask = np.any(np.isnan(chunk[..., 0]), axis=0)\n")]
DEMO = """
import numpy as np
from mlmc.quantity.quantity_estimate import mask_nan_samples
c = np.arange(24.0).reshape(2, 6, 2)
c[1, 2, 1] = np.nan
d, n = mask_nan_samples(c)
assert n == 1 and d.shape == (2, 5, 2) and not np.isnan(d).any(), (n, d.shape)
"""
