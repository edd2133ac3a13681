ID = "K01-clique-contagion"
PROP = "K01"
EDITS = [("enterprise/signals/utils.py", """            self._cliques[idxs] = maxidx
            if len(allidx) > 1:
""", """            self._cliques[idxs] = maxidx
            if len(allidx) > 2:
""")]
NEEDS = "three dense blocks added to one kernel matrix, the third bridging the first two, which were separate"
BREAKS = "the clique labels of the bridged block are not merged, so the matrix is inverted in pieces that are not independent"
DEMO = """
from demolib import *
from enterprise.signals.utils import KernelMatrix
def spd(n, s):
    a = np.random.default_rng(s).normal(size=(n, n)); return a @ a.T + n * np.eye(n)
k = KernelMatrix(np.ones(6))
for i, idx in enumerate(([0, 1], [2, 3], [1, 2])):
    k = k.add(spd(2, i), np.array(idx))
lab = np.asarray(k._cliques)
for i in range(6):
    for j in range(6):
        if i != j and k[i, j] != 0:
            check(lab[i] == lab[j] and lab[i] >= 0, "coupled indices %d, %d carry labels %s, %s" % (i, j, lab[i], lab[j]))
"""
