ID = "K01-cached-factor"
PROP = "K01"
EDITS = [("enterprise/signals/utils.py", """                cf = sl.cho_factor(self)
                inv = sl.cho_solve(cf, np.identity(cf[0].shape[0]))
""", """                # the factor does not change unless the size does
                cf = getattr(self, "_cf", None)
                if cf is None or cf[0].shape != self.shape:
                    cf = self._cf = sl.cho_factor(self)
                inv = sl.cho_solve(cf, np.identity(cf[0].shape[0]))
""")]
NEEDS = "a dense kernel matrix that is inverted, then added to or overwritten, and inverted again"
BREAKS = "the second inverse and determinant are those of the earlier contents"
DEMO = """
from demolib import *
from enterprise.signals.utils import KernelMatrix
a = np.array([[2.0, 0.5], [0.5, 3.0]])
k = KernelMatrix(np.eye(3)).add(a, np.array([0, 1]))
k.inv()
k = k.add(np.ones(1), np.array([2]))
inv, ld = k.inv(logdet=True)
check(np.allclose(np.asarray(inv), np.linalg.inv(np.asarray(k))) and np.isclose(ld, np.linalg.slogdet(np.asarray(k))[1]), "inverse of earlier contents")
"""
