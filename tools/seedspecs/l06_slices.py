ID = "L06-slices-assume-sorted"
PROP = "L06"
EDITS = [("enterprise/signals/utils.py", """def quant2ind(U, as_slice=False):
""", """def quant2ind(U, as_slice=True):
"""), ("enterprise/signals/utils.py", """        if epinds[-1] - epinds[0] + 1 != len(epinds) or not as_slice:
""", """        if not as_slice:
""")]
NEEDS = "TOAs that are not sorted, or epochs of several interleaved backends"
BREAKS = "epochs are taken as everything between their first and last TOA"
DEMO = """
from demolib import *
from enterprise.signals import utils
t = np.array([0.0, 1e6, 0.1, 1e6 + 0.2])
U, _ = utils.create_quantization_matrix(t, nmin=2)
got = [sorted(np.arange(4)[i].tolist()) for i in utils.quant2ind(U)]
check(got == [[0, 2], [1, 3]], str(got))
"""
