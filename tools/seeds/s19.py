ID = "s19"; PROPERTY = "P15"
NEEDS = "a single level"
BREAKS = "with one level the coarsest step is used instead of the finest"
EDITS = [("mlmc/estimator.py", "    level_parameters = []\n    for i_level in range(n_levels):\n        if n_levels == 1:\n            level_param = 1\n        else:\n            level_param = i_level / (n_levels - 1)\n        level_parameters.append([step_range[0] ** (1 - level_param) * step_range[1] ** level_param])\n\n    return level_parameters\n\n\ndef determine_n_samples",
          "    level_parameters = []\n    for i_level in range(n_levels):\n        level_param = i_level / max(n_levels - 1, 1)\n        level_parameters.append([step_range[0] ** (1 - level_param) * step_range[1] ** level_param])\n\n    return level_parameters\n\n\ndef determine_n_samples")]
DEMO = """
import numpy as np
from mlmc.estimator import determine_level_parameters
for n in (1, 2, 3, 6):
    p = [x[0] for x in determine_level_parameters(n, [1.0, 0.01])]
    assert np.isclose(p[-1], 0.01), (n, p)
    assert n == 1 or np.isclose(p[0], 1.0), (n, p)
"""
