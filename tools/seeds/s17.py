ID = "s17"; PROPERTY = "P12"
NEEDS = "moments with a reference domain that does not start at zero and a domain of another width"
BREAKS = "the transformation back from the reference domain is shifted"
EDITS = [("mlmc/moments.py", "        return (value - self.ref_domain[0]) / self._linear_scale + self._linear_shift\n", "        return value / self._linear_scale + self._linear_shift - self.ref_domain[0]\n")]
DEMO = """
import numpy as np
from mlmc.moments import Legendre, Monomial, Fourier
for cls in (Legendre, Monomial, Fourier):
    for dom in ((0.0, 2.0), (1.0, 4.0), (-3.0, 5.0)):
        m = cls(3, dom)
        x = np.linspace(dom[0], dom[1], 5)
        assert np.allclose(m.inv_linear(m.linear(x)), x), (cls, dom, m.inv_linear(m.linear(x)))
"""
