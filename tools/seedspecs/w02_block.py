ID = "W02-block-second-order"
PROP = "W02"
EDITS = [("enterprise/signals/signal_base.py", """        NX = X / self._nvec[:, None]
        for idx, block in zip(self._idxs, self._blocks):
            Xblock = X[idx, :]
            if len(idx) > 1:
                cf = sl.cho_factor(block + np.diag(self._nvec[idx]))
                NX[idx] = sl.cho_solve(cf, Xblock)
""", """        NX = X / self._nvec[:, None]
        cfs = {}
        for idx, block in zip(self._idxs, self._blocks):
            Xblock = X[idx, :]
            if len(idx) > 1:
                # equal blocks need only be factored once
                key = (len(idx), float(block[0, 0]), float(np.sum(self._nvec[idx])))
                if key not in cfs:
                    cfs[key] = sl.cho_factor(block + np.diag(self._nvec[idx]))
                NX[idx] = sl.cho_solve(cfs[key], Xblock)
""")]
NEEDS = "block ECORR, solve without left array, two epochs of one group whose variances are permutations of each other"
BREAKS = "a block is solved with the factor of another block with the same total variance"
DEMO = """
from demolib import *
from enterprise.signals import signal_base
n = np.array([1.0, 4.0, 4.0, 1.0])
b = signal_base.BlockMatrix([np.ones((2, 2)) * 3.0] * 2, [slice(0, 2), slice(2, 4)], n)
C = np.diag(n); C[:2, :2] += 3.0; C[2:, 2:] += 3.0
x = np.array([1.0, 2.0, 3.0, -1.0])
check(np.allclose(b.solve(x), np.linalg.solve(C, x)), "solve: %s instead of %s" % (b.solve(x), np.linalg.solve(C, x)))
"""
