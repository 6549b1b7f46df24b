ID = "s18"; PROPERTY = "P13"
NEEDS = "variances without a constant zeroth moment, the first one being the largest"
BREAKS = "the first moment is not taken into account in the estimated numbers of samples, the target variance is missed for it"
EDITS = [("mlmc/estimator.py", "    return np.max(n_samples_estimate_safe, axis=1).astype(int)\n", "    # The zeroth moment is constant\n    first = min(1, vars.shape[1] - 1)\n    return np.max(n_samples_estimate_safe[:, first:], axis=1).astype(int)\n")]
DEMO = """
import numpy as np
from mlmc.estimator import estimate_n_samples_for_target_variance
v = np.array([[9.0, 1.0], [4.0, 0.5], [1.0, 0.1]])
c = np.array([1.0, 3.0, 10.0])
both = estimate_n_samples_for_target_variance(0.01, v, c, 3)
one = estimate_n_samples_for_target_variance(0.01, v[:, :1], c, 3)
assert np.all(both >= one), (both, one)
"""
