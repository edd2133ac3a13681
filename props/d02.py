"""D02: gravitational-wave waveform functions satisfy their defining relations."""
import mpmath
import numpy as np
import scipy.constants as sc
import scipy.integrate as si
from hypothesis import strategies as st

from pbt import gen
from pbt.core import Prop, Sub
from pbt.helpers import close, need

YR = 365.25 * 86400.0
TSUN = 1.3271244e20 / sc.c**3  # solar mass in seconds
MPC = 1e6 * sc.parsec / sc.c  # in seconds

# --------------------------------------------------------------------------- antenna patterns


def rotation(v):
    """Rotation matrix for a rotation vector."""
    a = np.linalg.norm(v)
    if a == 0:
        return np.eye(3)
    x, y, z = np.asarray(v) / a
    K = np.array([[0, -z, y], [z, 0, -x], [-y, x, 0]])
    return np.eye(3) + np.sin(a) * K + (1 - np.cos(a)) * (K @ K)


def unit(th, ph):
    return np.array([np.sin(th) * np.cos(ph), np.sin(th) * np.sin(ph), np.cos(th)])


ANGLE = st.floats(-3.2, 3.2)
POLAR = st.one_of(st.floats(0.0, 3.14159265), st.sampled_from([0.0, np.pi / 2, np.pi]))


@st.composite
def antenna_case(draw):
    pos, src = [draw(POLAR), draw(st.floats(-7, 7))], [draw(POLAR), draw(st.floats(-7, 7))]
    near = draw(st.sampled_from([None, None, None, "towards", "away"]))
    if near:  # a source close to the pulsar or to the opposite point of the sky
        d, a = 10.0 ** draw(st.floats(-3.3, -0.5)), draw(ANGLE)
        src = [pos[0] + d * np.cos(a), pos[1] + d * np.sin(a) / max(abs(np.sin(pos[0])), 0.05)]
        src = src if near == "towards" else [np.pi - src[0], src[1] + np.pi]
        src = [float(abs(src[0]) if abs(src[0]) <= np.pi else 2 * np.pi - abs(src[0])), float(src[1])]
    return dict(pos=pos, src=src, rot=[draw(ANGLE) for _ in range(3)])


def run_antenna(case):
    from enterprise.signals import utils

    pos, (th, ph) = unit(*case["pos"]), case["src"]
    fp, fc, mu = utils.create_gw_antenna_pattern(pos, th, ph)
    k = -unit(th, ph)
    c = k @ pos
    close(mu, -c, "cosine of the angle to the source", rtol=1e-12, scale=1.0)
    if 1 + c < 1e-7:  # closer than 0.03 degrees, where the patterns are quotients of rounding errors
        return {"nontrivial": False}
    m = np.array([np.sin(ph), -np.cos(ph), 0.0])
    n = np.cross(k, m)
    amp = 1.0 / (1 + c)
    close(fp, 0.5 * pos @ (np.outer(m, m) - np.outer(n, n)) @ pos * amp, "F+", rtol=1e-12, scale=amp)
    close(fc, 0.5 * pos @ (np.outer(m, n) + np.outer(n, m)) @ pos * amp, "Fx", rtol=1e-12, scale=amp)
    close(fp**2 + fc**2, (0.5 * (1 - c)) ** 2, "F+^2 + Fx^2", rtol=1e-11, scale=amp**2 + amp)
    # rotating pulsar and source together turns (F+, Fx) like a polarization
    R = rotation(case["rot"])
    s2 = R @ unit(th, ph)
    if np.hypot(s2[0], s2[1]) < 1e-6:
        return {"nontrivial": True}
    th2, ph2 = np.arccos(np.clip(s2[2], -1, 1)), np.arctan2(s2[1], s2[0])
    gp, gc, mu2 = utils.create_gw_antenna_pattern(R @ pos, th2, ph2)
    close(mu2, mu, "cosine of the angle after rotation", rtol=1e-7, scale=1.0)
    m2 = np.array([np.sin(ph2), -np.cos(ph2), 0.0])
    n2 = np.cross(-s2, m2)
    C, S = m2 @ R @ m, n2 @ R @ m  # the old axes seen from the new ones
    want = (C * C - S * S) * gp + 2 * C * S * gc, (C * C - S * S) * gc - 2 * C * S * gp
    tol = 1e-7 / max(np.hypot(s2[0], s2[1]), 1e-3)
    close(fp, want[0], "F+ under rotation", rtol=tol, scale=amp * (1 + amp))
    close(fc, want[1], "Fx under rotation", rtol=tol, scale=amp * (1 + amp))
    return {"nontrivial": True, "labels": ["nearly aligned"] if 1 + c < 1e-2 else ["nearly opposite"] if 1 - c < 1e-2 else []}


# --------------------------------------------------------------------------- evolution equations


def edot(F, mc, e):
    M = mc * TSUN
    return -304.0 / 15.0 / M * (2 * np.pi * M * F) ** (8.0 / 3) * e * (1 + 121.0 / 304.0 * e**2) * (1 - e**2) ** -2.5


def fdot(F, mc, e):
    M = mc * TSUN
    return 48.0 / (5 * np.pi * M**2) * (2 * np.pi * M * F) ** (11.0 / 3) * (1 + 73.0 / 24 * e**2 + 37.0 / 96 * e**4) * (1 - e**2) ** -3.5


def gdot(F, mc, q, e):
    x = (2 * np.pi * F * ((1 + q) ** 2 / q) ** 0.6 * mc * TSUN) ** (2.0 / 3)
    y = 1 - e**2
    return 6 * np.pi * F * x / y * (1 + x / (4 * y) * (26 - 15 * e**2))


@st.composite
def rates_case(draw):
    k = draw(st.integers(0, 3))  # 0: scalars, otherwise arrays of that size

    def val(s):
        return [draw(s) for _ in range(k)] if k else draw(s)

    return dict(
        F=val(st.floats(-9.5, -6)), mc=val(st.floats(6, 10.3)), q=val(st.floats(0.05, 1.0)), e=val(st.one_of(st.floats(0, 0.95), st.just(0.0))), dist=val(st.floats(-1, 4)), h0=draw(st.sampled_from([None, 1e-15, 3e-13]))
    )


def run_rates(case):
    from enterprise.signals import utils

    F, mc, q, e, dl = [np.array(x, float) if isinstance(x, list) else x for x in (case["F"], case["mc"], case["q"], case["e"], case["dist"])]
    F, mc, dl = 10.0**F, 10.0**mc, 10.0**dl

    def same(f, args, want, what):
        keep = [np.copy(a) for a in args if a is not None]
        got = f(*args)
        need(all(np.array_equal(a, b) for a, b in zip(keep, [a for a in args if a is not None])), "%s changed its arguments", what)
        close(got, want, what, rtol=1e-10)

    same(utils.get_edot, (F, mc, e), edot(F, mc, e), "de/dt")
    same(utils.get_Fdot, (F, mc, e), fdot(F, mc, e), "dF/dt")
    same(utils.get_gammadot, (F, mc, q, e), gdot(F, mc, q, e), "dgamma/dt")
    if not isinstance(case["F"], list):
        same(lambda *a: utils.get_coupled_ecc_eqns([F, e, 0.1, 0.2], 0.0, *a), (mc, q), np.array([fdot(F, mc, e), edot(F, mc, e), gdot(F, mc, q, e), 2 * np.pi * F]), "derivatives of F, e, gamma, phase")
        same(lambda *a: utils.get_coupled_constecc_eqns([F, 0.2], 0.0, *a), (mc, e), np.array([fdot(F, mc, e), 2 * np.pi * F]), "derivatives of F, phase")
    # amplitudes of the harmonics
    h0 = case["h0"]
    M, D, w = mc * TSUN, dl * MPC, 2 * np.pi * F
    strain = 2 * M ** (5.0 / 3) * w ** (2.0 / 3) / D if h0 is None else h0
    for n in (1, 2, 3, 7):
        J = [np.vectorize(lambda x, k=k: float(mpmath.besselj(n + k, n * x)))(np.asarray(e, float)) for k in (-2, -1, 0, 1, 2)]
        an = -0.5 * n * strain * (J[0] - 2 * e * J[1] + 2.0 / n * J[2] + 2 * e * J[3] - J[4])
        bn = -0.5 * n * strain * np.sqrt(1 - np.asarray(e) ** 2) * (J[0] - 2 * J[2] + J[4])
        cn = strain * J[2] / (n * w)
        for f, want, what in ((utils.get_an, an, "a"), (utils.get_bn, bn, "b"), (utils.get_cn, cn, "c")):
            keep = [np.copy(a) for a in (mc, dl, F, e)]
            got = f(n, mc, dl, h0, F, e)
            need(all(np.array_equal(a, b) for a, b in zip(keep, (mc, dl, F, e))), "%s_n changed its arguments", what)
            close(got, want, "%s_%d" % (what, n), rtol=1e-8, scale=n * strain * (1.0 if what != "c" else 1.0 / (n * n * w)) + 0 * np.asarray(want))
    return {"labels": ["arrays" if isinstance(case["F"], list) else "scalars"]}


# --------------------------------------------------------------------------- orbits


@st.composite
def orbit_case(draw):
    return dict(
        F=draw(st.floats(-9.3, -7.3)),
        evo=draw(st.floats(-6, -0.8)),  # relative change of the frequency during the span
        q=draw(st.floats(0.1, 1.0)),
        e=draw(st.one_of(st.floats(0.01, 0.9), st.sampled_from([0.0, 0.5]))),
        gamma=draw(st.floats(-4, 4)),
        phase=draw(st.floats(-7, 7)),
        span=draw(st.floats(1.0, 25.0)),
        n=draw(st.integers(2, 40)),
        start=draw(st.sampled_from([0.0, 4.6e9])),
        seed=draw(gen.SEEDS),
    )


def sigma(e):
    """Separation as a function of eccentricity along an orbit (Peters 1964)."""
    return e ** (12.0 / 19) / (1 - e**2) * (1 + 121.0 / 304 * e**2) ** (870.0 / 2299)


def run_orbit(case):
    from enterprise.signals import utils

    F0, q, e0 = 10 ** case["F"], case["q"], case["e"]
    T = case["span"] * YR
    mc = (10 ** case["evo"] / (fdot(F0, 1.0, e0) / F0 * T)) ** 0.6
    # stay well before the merger
    if max(fdot(F0, mc, e0) / F0, abs(edot(F0, mc, e0)), 0.0) * T > 0.2:
        return {"nontrivial": False, "labels": ["merging"]}
    rng = np.random.default_rng(case["seed"])
    t = case["start"] + np.sort(np.concatenate([[0.0], T * rng.uniform(size=case["n"])]))
    x = t - t[0]
    y = utils.solve_coupled_constecc_solution(F0, e0, case["phase"], mc, t)
    need(np.shape(y) == (len(t), 2), "shape %s", np.shape(y))
    k = fdot(1.0, mc, e0)  # dF/dt = k F^(11/3)
    z = 8.0 / 3 * k * F0 ** (8.0 / 3) * x
    Fx = F0 * np.exp(-3.0 / 8 * np.log1p(-z))
    ph = case["phase"] + 2 * np.pi * F0 * x * np.where(z > 1e-6, -np.expm1(5.0 / 8 * np.log1p(-z)) / np.where(z > 1e-6, z, 1) * 8.0 / 5, 1 + 3.0 / 16 * z)
    cyc = 2 * np.pi * F0 * T + 1
    close(y[:, 0], Fx, "orbital frequency at constant eccentricity", rtol=2e-5)
    close(y[:, 1], ph, "orbital phase at constant eccentricity", rtol=1e-6, scale=cyc)
    s = utils.solve_coupled_ecc_solution(F0, e0, case["gamma"], case["phase"], mc, q, t)
    need(np.shape(s) == (len(t), 4), "shape %s", np.shape(s))
    need(np.allclose(s[0], [F0, e0, case["gamma"], case["phase"]], rtol=1e-12, atol=0), "initial values %s", s[0])
    # independent integration in scaled variables
    ref = si.solve_ivp(
        lambda u, v: [fdot(v[0] * F0, mc, v[1]) / F0 * T, edot(v[0] * F0, mc, v[1]) * T, gdot(v[0] * F0, mc, q, v[1]) * T, 2 * np.pi * v[0] * F0 * T],
        (0, 1.0),
        [1.0, e0, case["gamma"], case["phase"]],
        method="DOP853",
        t_eval=np.minimum(x / T, 1.0),
        rtol=1e-11,
        atol=1e-12,
    ).y
    gscale = abs(case["gamma"]) + np.abs(ref[2] - case["gamma"]).max() + 1e-3
    close(s[:, 0], ref[0] * F0, "orbital frequency", rtol=2e-5)
    close(s[:, 1], ref[1], "eccentricity", rtol=1e-6, atol=1e-6)
    close(s[:, 2], ref[2], "angle of periastron", rtol=1e-6, scale=gscale)
    close(s[:, 3], ref[3], "orbital phase", rtol=1e-6, scale=cyc)
    if e0 > 0:
        close(s[:, 0], F0 * (sigma(e0) / sigma(s[:, 1])) ** 1.5, "conserved relation of frequency and eccentricity", rtol=3e-5 + 3e-6 / e0)
        close(s[1:, 1] <= e0 + 1e-7, np.ones(len(t) - 1), "eccentricity decreases")
    else:
        need(np.all(s[:, 1] == 0), "eccentricity of a circular orbit")
        close(s[:, 0], Fx, "circular orbit", rtol=2e-5)
    return {"nontrivial": bool(fdot(F0, mc, e0) / F0 * T > 1e-6), "labels": ["fast"] if fdot(F0, mc, e0) / F0 * T > 1e-3 else []}


# --------------------------------------------------------------------------- sums over harmonics


@st.composite
def wave_case(draw):
    return dict(
        nmax=draw(st.integers(2, 12)),
        mc=draw(st.floats(7, 10)),
        dl=draw(st.floats(0, 3)),
        h0=draw(st.sampled_from([None, None, 1e-14, 3e-15])),
        F=draw(st.floats(-9, -7)),
        e=draw(st.one_of(st.floats(0.0, 0.9), st.sampled_from([0.0, 0.3]))),
        n=draw(st.integers(1, 6)),
        l0=draw(st.floats(-7, 7)),
        gamma=draw(st.floats(-7, 7)),
        gdot=draw(st.sampled_from([0.0, 1e-3, 0.07, -0.05, 0.3])),  # relative to the orbital frequency
        inc=draw(st.one_of(st.floats(0, 3.2), st.sampled_from([0.0, np.pi / 2, np.pi]))),
        seed=draw(gen.SEEDS),
    )


def harmonic(n, strain, F, e, t, l0, gamma, gd, inc):
    w = 2 * np.pi * F
    J = [float(mpmath.besselj(n + k, n * e)) for k in (-2, -1, 0, 1, 2)]
    an = -0.5 * n * strain * (J[0] - 2 * e * J[1] + 2.0 / n * J[2] + 2 * e * J[3] - J[4])
    bn = -0.5 * n * strain * np.sqrt(1 - e * e) * (J[0] - 2 * J[2] + J[4])
    cn = strain * J[2] / (n * w)
    L, G = n * (l0 + w * t), 2 * (gamma + gd * t)
    # integrals over time of cos L cos G, sin L sin G, sin L cos G, cos L sin G
    wm, wp = n * w - 2 * gd, n * w + 2 * gd
    cc = 0.5 * (np.sin(L - G) / wm + np.sin(L + G) / wp)
    ss = 0.5 * (np.sin(L - G) / wm - np.sin(L + G) / wp)
    scos = -0.5 * (np.cos(L - G) / wm + np.cos(L + G) / wp)
    csin = -0.5 * (np.cos(L + G) / wp - np.cos(L - G) / wm)
    c = np.cos(inc)
    plus = -(1 + c * c) * (an * cc - bn * ss) + (1 - c * c) * cn * np.sin(L)
    cross = 2 * c * (an * csin + bn * scos)
    mag = (abs(an) + abs(bn)) * (1 / abs(wm) + 1 / abs(wp)) + abs(cn)
    return plus, cross, mag


def run_wave(case):
    from enterprise.signals import utils

    rng = np.random.default_rng(case["seed"])
    t = 10 * YR * rng.uniform(size=case["n"])
    F, e, mc, dl, h0, inc = 10 ** case["F"], case["e"], 10 ** case["mc"], 10 ** case["dl"], case["h0"], case["inc"]
    w = 2 * np.pi * F
    gd = case["gdot"] * w
    strain = 2 * (mc * TSUN) ** (5.0 / 3) * w ** (2.0 / 3) / (dl * MPC) if h0 is None else h0
    keep = t.copy()

    def full(nmax, **kw):
        a = dict(nmax=nmax, mc=mc, dl=dl, h0=h0, F=F, e=e, t=t, l0=case["l0"], gamma=case["gamma"], gammadot=gd, inc=inc)
        a.update(kw)
        sp, sx = utils.calculate_splus_scross(**a)
        need(np.shape(sp) == np.shape(sx) == np.shape(a["t"]), "shapes %s and %s", np.shape(sp), np.shape(sx))
        return np.asarray(sp), np.asarray(sx)

    sp, sx = full(case["nmax"])
    need(np.array_equal(t, keep), "the times were changed")
    parts = [harmonic(n, strain, F, e, t, case["l0"], case["gamma"], gd, inc) for n in range(1, case["nmax"])]
    mag = sum(p[2] for p in parts)
    if not parts:
        need(np.all(sp == 0) and np.all(sx == 0), "sum over no harmonics")
        return {"nontrivial": False}
    ph = 1e-9
    close(sp, sum(p[0] for p in parts), "s+", rtol=ph, scale=mag + 1e-290)
    close(sx, sum(p[1] for p in parts), "sx", rtol=ph, scale=mag + 1e-290)
    # one more harmonic adds its own term; each time is treated on its own; the distance enters as 1/distance
    one = harmonic(case["nmax"], strain, F, e, t, case["l0"], case["gamma"], gd, inc)
    a, b = full(case["nmax"] + 1)
    close(a - sp, one[0], "one more harmonic of s+", rtol=ph, scale=mag + one[2])
    close(b - sx, one[1], "one more harmonic of sx", rtol=ph, scale=mag + one[2])
    a, b = full(case["nmax"], t=t[:1])
    close(a, sp[:1], "s+ at one time", rtol=1e-10, scale=mag + 1e-290)
    if h0 is None:
        a, b = full(case["nmax"], dl=2 * dl)
        close(2 * a, sp, "s+ at twice the distance", rtol=1e-10, scale=mag + 1e-290)
        a, b = full(case["nmax"], h0=strain)
        close(a, sp, "s+ from the strain amplitude", rtol=1e-9, scale=mag + 1e-290)
        close(b, sx, "sx from the strain amplitude", rtol=1e-9, scale=mag + 1e-290)
    if e == 0 and case["nmax"] > 2:
        om = w + gd
        phi = 2 * (case["l0"] + case["gamma"] + om * t)
        c = np.cos(inc)
        close(sp, (1 + c * c) * strain * np.sin(phi) / (2 * om), "circular s+", rtol=1e-8, scale=mag + 1e-290)
        close(sx, 2 * c * strain * np.cos(phi) / (2 * om), "circular sx", rtol=1e-8, scale=mag + 1e-290)
    return {"labels": ["circular"] if e == 0 else []}


# --------------------------------------------------------------------------- Kepler orbit


@st.composite
def kepler_case(draw):
    return dict(e=draw(st.floats(0.0, 0.6)), F=draw(st.floats(-9, -7)), n=draw(st.integers(1, 5)), l0=draw(st.floats(-7, 7)), gamma=draw(st.floats(-7, 7)), inc=draw(st.floats(0, 3.2)), seed=draw(gen.SEEDS), mc=draw(st.floats(7, 10)), dl=draw(st.floats(0, 3)))


def run_kepler(case):
    """Without precession the sum of many harmonics is the change of the quadrupole moment on a Kepler orbit.

    The angle of periastron counts from the projected line of sight (Barack and Cutler 2004), X; Y is the line of nodes.
    """
    from enterprise.signals import utils

    rng = np.random.default_rng(case["seed"])
    e, F, c = case["e"], 10 ** case["F"], np.cos(case["inc"])
    w = 2 * np.pi * F
    t = 10 * YR * rng.uniform(size=case["n"])
    l = np.mod(case["l0"] + w * t, 2 * np.pi)
    E = l + e * np.sin(l)
    for _ in range(60):
        E = E - (E - e * np.sin(E) - l) / (1 - e * np.cos(E))
    Ed = w / (1 - e * np.cos(E))
    b = np.sqrt(1 - e * e)
    x, y = np.cos(E) - e, b * np.sin(E)
    xd, yd = -np.sin(E) * Ed, b * np.cos(E) * Ed
    cg, sg = np.cos(case["gamma"]), np.sin(case["gamma"])
    X, Y, Xd, Yd = cg * x - sg * y, sg * x + cg * y, cg * xd - sg * yd, sg * xd + cg * yd
    k = (10 ** case["mc"] * TSUN) ** (5.0 / 3) * w ** (-4.0 / 3) / (10 ** case["dl"] * MPC)
    sp, sx = utils.calculate_splus_scross(70, 10 ** case["mc"], 10 ** case["dl"], None, F, e, t, case["l0"], case["gamma"], 0.0, case["inc"])
    close(sp, k * (2 * Y * Yd - 2 * c * c * X * Xd), "s+ of a Kepler orbit", rtol=1e-6, scale=k * w)
    close(sx, 2 * k * c * (X * Yd + Y * Xd), "sx of a Kepler orbit", rtol=1e-6, scale=k * w)
    return {"nontrivial": e > 0.01}


PROP = Prop(
    "D02",
    "antenna patterns for random pulsars, sources and common rotations; evolution rates and harmonic amplitudes for scalars and arrays over the whole parameter space; "
    "orbit solutions against closed forms, an independent integrator and Peters' conserved relation; sums of 1-11 harmonics with precession against each harmonic's own integral, the circular "
    "closed form and the quadrupole of a Kepler orbit; non-trivial: not along the line of sight / evolving orbit / at least one harmonic / eccentric",
    [
        Sub("antenna", antenna_case, run_antenna, 8000, 300000),
        Sub("rates", rates_case, run_rates, 4000, 60000),
        Sub("orbit", orbit_case, run_orbit, 4000, 50000),
        Sub("harmonics", wave_case, run_wave, 6000, 80000),
        Sub("kepler", kepler_case, run_kepler, 4000, 80000),
    ],
    ["orbits that change by more than 20% during the data span are not generated", "make_ecc_interpolant needs libstempo's data file and is not covered"],
)
