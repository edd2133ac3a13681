ID = "I01-rotation-shortcut"
PROP = "I01"
EDITS = [("enterprise/signals/utils.py", """    t_offset = 55197.0  # MJD 2010/01/01

    if equatorial:
""", """    t_offset = 55197.0  # MJD 2010/01/01

    # nothing to rotate
    if offset is None and not np.any([np.any(a) for a in (x, y, z, dz)]):
        return planet

    if equatorial:
""")]
NEEDS = "a physical-ephemeris delay without frame drift and with a mass or orbit perturbation, evaluated more than once"
BREAKS = "the planet positions of the pulsar are changed in place by adding the perturbations to an unrotated view of them"
DEMO = """
from demolib import *
from enterprise.signals import deterministic_signals, signal_base, white_signals, parameter, utils
p = make_psr(2)
keep = p.planetssb.copy()
sig = deterministic_signals.PhysicalEphemerisSignal(frame_drift_rate=parameter.Constant(0.0)("frame_drift_rate"), jup_orb_elements=False, use_epoch_toas=False)
pta = signal_base.PTA([(sig + white_signals.MeasurementNoise(efac=parameter.Constant(1.0)))(p)])
d = {n: 1e-9 * (i + 1) for i, n in enumerate(pta.param_names)}
pta.get_lnlikelihood(d)
check(np.array_equal(keep, p.planetssb), "planet positions changed by an evaluation")
"""
