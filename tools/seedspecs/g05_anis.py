ID = "G05-anis-first-match"
PROP = "G05"
EDITS = [("enterprise/signals/utils.py", """    psr2_index = [ii for ii in range(len(psrs_pos)) if np.all(psrs_pos[ii] == pos2)][0]
""", """    psr2_index = [ii for ii in range(len(psrs_pos)) if psrs_pos[ii][2] == pos2[2]][0]
""")]
NEEDS = "an anisotropic correlation of an array in which two pulsars have the same declination"
BREAKS = "the correlation is that of the first pulsar at this declination"
DEMO = """
from demolib import *
from enterprise.signals import utils, anis_coefficients
def pos(t, f): return np.array([np.sin(t) * np.cos(f), np.sin(t) * np.sin(f), np.cos(t)])
P = [pos(1.0, 0.3), pos(2.0, 1.3), pos(1.0, 2.9)]
ang = np.array([[0.3, 1.0], [1.3, 2.0], [2.9, 1.0]])
B = np.array(anis_coefficients.anis_basis(ang, 1, nside=8))
got = utils.anis_orf(P[1], P[2], [0.2, 0.1, -0.3], anis_basis=B, psrs_pos=P, lmax=1)
want = np.dot([2 * np.sqrt(np.pi), 0.2, 0.1, -0.3], B[:, 1, 2])
check(np.isclose(got, want), "%s instead of %s" % (got, want))
"""
