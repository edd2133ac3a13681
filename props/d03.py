"""D03: solar-system ephemeris perturbations are the documented physical displacements."""
import os

import numpy as np
from hypothesis import strategies as st

from pbt import gen, models, synth
from pbt.core import Prop, Sub
from pbt.helpers import close, ll_tol, need

DAY = 86400.0
ECL = np.deg2rad(23.43704)  # obliquity
JUP, SAT = 0.0009547918983127075, 0.00028588567008942334  # masses in solar masses
SETS = ["setIII", "orbel", "orbel-v2"]
SIZES = dict(frame_drift_rate=1e-9, d_jupiter_mass=5e-11, d_saturn_mass=5e-11, d_uranus_mass=2e-10, d_neptune_mass=2e-10, jup_orb_elements=0.05, sat_orb_elements=0.5)
SCALARS = ["frame_drift_rate", "d_jupiter_mass", "d_saturn_mass", "d_uranus_mass", "d_neptune_mass"]
ORBS = ["jup_orb_elements", "sat_orb_elements"]
PLANET = dict(d_jupiter_mass=4, d_saturn_mass=5, d_uranus_mass=6, d_neptune_mass=7)
_DATA = {}


def orbit_data(model):
    if model not in _DATA:
        import enterprise

        d = os.path.join(enterprise.__path__[0], "datafiles", "ephemeris")
        _DATA[model] = [np.load(os.path.join(d, f % model)) for f in ("jupiter-%s-mjd.npy", "jupiter-%s-xyz-svd.npy", "saturn-%s-xyz-svd.npy")]
    return _DATA[model]


def about(axis, angles, v):
    """Rotate each row of v about a unit axis by its own angle."""
    k = np.asarray(axis)
    c, s = np.cos(angles)[:, None], np.sin(angles)[:, None]
    return v * c + np.cross(k, v) * s + (v @ k)[:, None] * k * (1 - c)


def displacement(toas, pl, par, orbits=None, equatorial=True):
    """Displacement of the Earth, in light-seconds."""
    mjd = toas / DAY
    earth = pl[:, 2, :3]
    pole = [0.0, -np.sin(ECL), np.cos(ECL)] if equatorial else [0.0, 0.0, 1.0]
    ang = par.get("frame_drift_rate", 0.0) * (mjd - 55197.0) / 365.25
    # differences of rotations without cancellation
    k = np.array(pole)
    d = np.cross(k, earth) * np.sin(ang)[:, None] - 2 * np.sin(ang / 2)[:, None] ** 2 * (earth - (earth @ k)[:, None] * k)
    for q, j in PLANET.items():
        d = d + par.get(q, 0.0) * pl[:, j, :3]
    for q, m, which in (("jup_orb_elements", JUP, 1), ("sat_orb_elements", SAT, 2)):
        c = par.get(q)
        if c is not None and np.any(c):
            times, tab = orbits[0], m * np.tensordot(np.asarray(c, float), orbits[which], axes=(0, 0))
            x = np.clip(mjd, times[0], times[-1])
            i = np.clip(np.searchsorted(times, x) - 1, 0, len(times) - 2)
            w = ((x - times[i]) / (times[i + 1] - times[i]))[:, None]
            d = d + (1 - w) * tab[i] + w * tab[i + 1]
    return d


def delay(toas, pl, pos_t, par, orbits=None, equatorial=True):
    return -np.sum(displacement(toas, pl, par, orbits, equatorial) * pos_t, axis=1)


def draw_par(draw, which):
    par = {}
    for q in which:
        s = SIZES[q]
        f = st.floats(-1, 1)
        par[q] = [s * draw(f) for _ in range(6)] if q in ORBS else s * draw(f)
    return par


# --------------------------------------------------------------------------- the delay function


@st.composite
def plain_case(draw):
    which = draw(st.lists(st.sampled_from(SCALARS + ORBS), unique=True, max_size=7))
    return dict(
        psr=draw(gen.psr_spec(orders=("sorted", "shuffled"))),
        par=draw_par(draw, which),
        orbits=draw(st.sampled_from(SETS + ["made up", "made up"])),
        equatorial=draw(st.sampled_from([True, True, False])),
        seed=draw(gen.SEEDS),
        k=draw(st.sampled_from([-1.0, 0.5, 3.0])),
        start=draw(st.sampled_from([0.0, -40000.0, 12000.0])),  # days: also far outside the tables
    )


def run_plain(case):
    from enterprise.signals import utils

    psr = synth.make_psr(case["psr"])
    rng = np.random.default_rng(case["seed"])
    if case["orbits"] == "made up":
        t = np.sort(rng.uniform(52800, 55800, 9))
        orb = [t, rng.normal(size=(6, 9, 3)), rng.normal(size=(6, 9, 3))]
    else:
        orb = orbit_data(case["orbits"])
        got = utils.get_planet_orbital_elements(case["orbits"])
        need(len(got) == 3 and all(np.array_equal(a, b) for a, b in zip(got, orb)), "orbital element tables of %s", case["orbits"])
    toas, pl, pos_t = psr.toas + case["start"] * DAY, psr.planetssb.copy(), psr.pos_t.copy()
    keep = [x.copy() for x in (toas, pl, pos_t, orb[0], orb[1], orb[2])]
    par = {k: np.array(v) if isinstance(v, list) else v for k, v in case["par"].items()}
    kw = dict(times=orb[0], jup_orbit=orb[1], sat_orbit=orb[2], equatorial=case["equatorial"])

    def f(p):
        return np.asarray(utils.physical_ephem_delay(toas, pl, pos_t, **p, **kw))

    got = f(par)
    want = delay(toas, pl, pos_t, par, orb, case["equatorial"])
    close(got, want, "ephemeris delay", rtol=1e-9, scale=np.abs(want), atol=2e-12)
    need(all(np.array_equal(a, b) for a, b in zip(keep, (toas, pl, pos_t, orb[0], orb[1], orb[2]))), "inputs changed")
    close(f({}), np.zeros(len(toas)), "unperturbed delay", atol=1e-12)
    zero = {k: 0 * v for k, v in par.items()}
    close(f(zero), np.zeros(len(toas)), "delay for zero perturbations", atol=1e-12)
    # linear in masses and orbital elements
    lin = {k: v for k, v in par.items() if k != "frame_drift_rate"}
    a, b = f(lin), f({k: case["k"] * v for k, v in lin.items()})
    close(b, case["k"] * a, "scaled masses and elements", rtol=1e-9, atol=2e-12)
    parts = sum((f({k: v}) for k, v in lin.items()), np.zeros(len(toas)))
    close(a, parts, "sum of the single perturbations", rtol=1e-9, atol=5e-12)
    if "frame_drift_rate" in par:
        # the drift is a rotation: no change of distance, no motion along the pole; seen from three directions
        z = par["frame_drift_rate"]
        d = -np.array([utils.physical_ephem_delay(toas, pl, np.broadcast_to(e, (len(toas), 3)), frame_drift_rate=z, equatorial=case["equatorial"]) for e in np.eye(3)]).T
        e = pl[:, 2, :3]
        close(np.linalg.norm(e + d, axis=1), np.linalg.norm(e, axis=1), "distance of the drifting Earth", rtol=1e-13)
        pole = [0.0, -np.sin(ECL), np.cos(ECL)] if case["equatorial"] else [0.0, 0.0, 1.0]
        close(d @ pole, np.zeros(len(toas)), "motion along the ecliptic pole", atol=1e-12)
    return {"nontrivial": bool(np.any(np.abs(want) > 1e-10)), "labels": sorted(par) + [case["orbits"]]}


# --------------------------------------------------------------------------- rotations


@st.composite
def rotate_case(draw):
    a = st.floats(-3, 3)
    return dict(seed=draw(gen.SEEDS), n=draw(st.integers(1, 6)), x=draw(a), y=draw(a), z=draw(a), dz=draw(st.sampled_from([0.0, 1e-3, -0.2])), offset=draw(st.sampled_from([None, [1.0, -2.0, 3.0]])), equatorial=draw(st.booleans()))


def run_rotate(case):
    from enterprise.signals import utils

    rng = np.random.default_rng(case["seed"])
    v = rng.normal(size=(case["n"], 3)) * 500
    mjd = rng.uniform(50000, 60000, case["n"])
    c, s = np.cos(ECL), np.sin(ECL)
    M = np.array([[1, 0, 0], [0, c, -s], [0, s, c]])
    close(utils.ecl2eq_vec(v), v @ M.T, "ecliptic to equatorial", rtol=1e-12, scale=1e3)
    close(utils.eq2ecl_vec(v), v @ M, "equatorial to ecliptic", rtol=1e-12, scale=1e3)
    close(utils.eq2ecl_vec(utils.ecl2eq_vec(v)), v, "round trip", rtol=1e-12, scale=1e3)
    zz = case["z"] + case["dz"] * (mjd - 55197.0) / 365.25
    ex, ey, ez = np.eye(3)
    n = case["n"]

    def rot(u):  # z first, then y, then x
        return about(ex, np.full(n, case["x"]), about(ey, np.full(n, case["y"]), about(ez, zz, u)))

    E = utils.euler_vec(zz, case["y"], case["x"], n)
    close(np.einsum("ijk,ik->ij", E, v), rot(v), "Euler rotation", rtol=1e-12, scale=1e3)
    keep = v.copy()
    got = utils.ss_framerotate(mjd, v, case["x"], case["y"], case["z"], case["dz"], offset=case["offset"], equatorial=case["equatorial"])
    off = 0.0 if case["offset"] is None else np.array(case["offset"])
    want = (rot(v @ M) + off) @ M.T if case["equatorial"] else rot(v) + off
    close(got, want, "rotated trajectory", rtol=1e-12, scale=1e3)
    need(np.array_equal(v, keep), "the trajectory was changed")
    return {}


# --------------------------------------------------------------------------- the signal


@st.composite
def signal_case(draw):
    n = draw(st.integers(1, 3))
    opts = {}
    for q in SCALARS + ORBS:
        opts[q] = draw(st.sampled_from(["default", "default", "off", "own", "class", "const"]))
    return dict(
        psrs=[draw(gen.psr_spec(index=i, nep=(4, 8), kmax=4)) for i in range(n)],
        opts=opts,
        model=draw(st.sampled_from(SETS)),
        name=draw(st.sampled_from(["", "", "eph"])),
        epoch=draw(st.booleans()),
        vs=draw(gen.SEEDS),
        steps=draw(st.lists(st.integers(0, 2), min_size=1, max_size=3)),
        tm=draw(st.booleans()),
        rn=draw(st.booleans()),
    )


def size_of(q):
    return 6 if q in ORBS else None


def pick(seed, q, name, k):
    s = SIZES[q]
    if q in ORBS:
        return np.array([s * (2 * models._u(seed, name, k, j) - 1) for j in range(6)])
    return s * (2 * models._u(seed, name, k) - 1)


DEFAULTS = dict(frame_drift_rate=True, d_jupiter_mass=True, d_saturn_mass=True, d_uranus_mass=True, d_neptune_mass=True, jup_orb_elements=True, sat_orb_elements=False)


def run_signal(case):
    from enterprise.signals import deterministic_signals, gp_signals, parameter, signal_base, utils, white_signals

    psrs = [synth.make_psr(s) for s in case["psrs"]]
    kw, own = {}, {}
    for q, how in case["opts"].items():
        if how == "off":
            kw[q] = False
        elif how == "own":
            own[q] = parameter.Uniform(-1, 1, size=size_of(q))("my_" + q)
            kw[q] = own[q]
        elif how == "class":
            kw[q] = parameter.Uniform(-1, 1, size=size_of(q))
        elif how == "const":
            kw[q] = parameter.Constant(pick(case["vs"], q, q, 77))
    sig = deterministic_signals.PhysicalEphemerisSignal(model=case["model"], use_epoch_toas=case["epoch"], name=case["name"], **kw)
    m = white_signals.MeasurementNoise(efac=parameter.Constant(1.1)) + sig
    if case["tm"]:
        m = m + gp_signals.TimingModel()
    if case["rn"]:
        m = m + gp_signals.FourierBasisGP(utils.powerlaw(log10_A=parameter.Constant(-13.0), gamma=parameter.Constant(3.0)), components=2)
    pta = signal_base.PTA([m(p) for p in psrs])
    # expected names, per pulsar and perturbation
    names, sizes = [], {}
    for p in psrs:
        d = {}
        for q, how in case["opts"].items():
            if how == "default" and DEFAULTS[q]:
                d[q] = q
            elif how == "own":
                d[q] = "my_" + q
            elif how == "class":
                d[q] = models.join(p.name, case["name"], q)
        names.append(d)
        sizes.update({v: size_of(q) for q, v in d.items()})
    got = {p.name: p.size for p in pta.params}
    need(got == sizes, "parameters %s instead of %s", sorted(got), sorted(sizes))
    # documented default priors: uniform drift and elements, normal mass deviations
    allp = {p.name: p for p in pta.params}
    for q, how in case["opts"].items():
        if how == "default" and DEFAULTS[q]:
            w, n = GP_DEFAULTS[q], size_of(q) or 1
            for u in (0.02, 0.6, 0.9995, 1.0005, 3.0):
                x = w * u * (1 if case["vs"] % 2 else -1)
                if q.startswith("d_"):
                    want = n * (-0.5 * u**2 - np.log(w) - 0.5 * np.log(2 * np.pi))
                else:
                    want = -n * np.log(2 * w) if u < 1 else -np.inf
                at = np.full(n, x) if size_of(q) else x
                lp = np.sum(allp[q].get_logpdf(at))
                need(lp == want or abs(lp - want) < 1e-9 * n * 30, "default prior of %s at %g widths: %r, expected %r", q, u, lp, want)
    rest = [dict(t="mn", sel="none", p={"efac": ["const", 1.1]})]
    if case["tm"]:
        rest.append(dict(t="tm", svd=False, normed=True))
    if case["rn"]:
        rest.append(dict(t="rn", name="rn", combine=True, sel="none", spec="powerlaw", nc=2, T=None, p={"log10_A": ["const", -13.0], "gamma": ["const", 3.0]}))
    orb = orbit_data(case["model"])
    before = [(p.toas.copy(), p.planetssb.copy(), p.pos_t.copy()) for p in psrs]
    moved = False
    for k in case["steps"]:
        theta = {}
        for d in names:
            for q, nm in d.items():
                theta[nm] = pick(case["vs"], q, nm, k)
        got = pta.get_delay(theta)
        ref = models.RefModel({"signals": rest}, psrs, {})
        for i, p in enumerate(psrs):
            par = {q: theta[nm] for q, nm in names[i].items()}
            par.update({q: pick(case["vs"], q, q, 77) for q, how in case["opts"].items() if how == "const"})
            want = delay(p.toas, p.planetssb, p.pos_t, par, orb)
            moved = moved or np.any(np.abs(want) > 1e-10)
            # within an epoch everything moves by less than a part in a million
            close(got[i], want, "delay of %s" % p.name, rtol=1e-9 if not case["epoch"] else 1e-6, scale=np.max(np.abs(want)), atol=5e-12)
            if case["epoch"]:
                for g in models.ref_epochs(p.toas, np.ones(len(p.toas), bool), nmin=1):
                    need(np.ptp(np.asarray(got[i])[g]) == 0, "different delays within an epoch")
            ref.parts[i].r = p.residuals - np.asarray(got[i])
        ref.r = np.concatenate([q.r for q in ref.parts])
        val, scale, _ = ref.loglike()
        lnl = pta.get_lnlikelihood(theta)
        need(abs(lnl - val) <= 3 * ll_tol(ref) * scale, "log-likelihood %r, expected %r", lnl, val)
    need(all(np.array_equal(a, b) for p, old in zip(psrs, before) for a, b in zip((p.toas, p.planetssb, p.pos_t), old)), "the pulsar was changed")
    return {"nontrivial": bool(moved), "labels": ["epochs" if case["epoch"] else "all TOAs", case["model"]] + sorted({"%s" % h for h in case["opts"].values()})}


# --------------------------------------------------------------------------- the Gaussian process


GP_DEFAULTS = dict(frame_drift_rate=1e-9, d_jupiter_mass=1.54976690e-11, d_saturn_mass=8.17306184e-12, d_uranus_mass=5.71923361e-11, d_neptune_mass=7.96103855e-11, jup_orb_elements=0.05, sat_orb_elements=0.5)


@st.composite
def gp_case(draw):
    n = draw(st.integers(1, 3))
    sig = {}
    for q in SCALARS + ORBS:
        k = draw(st.sampled_from(["default", "default", "off", "value"]))
        if k != "default":
            sig[q] = None if k == "off" else SIZES[q] * 10 ** draw(st.floats(-1.5, 1.5))
    return dict(psrs=[draw(gen.psr_spec(index=i, nep=(4, 8), orders=("sorted", "shuffled"))) for i in range(n)], sig=sig, model=draw(st.sampled_from(SETS)), tm=draw(st.booleans()), coef=draw(st.booleans()), vs=draw(gen.SEEDS))


def run_gp(case):
    from enterprise.signals import gp_signals, parameter, signal_base, utils, white_signals

    psrs = [synth.make_psr(s) for s in case["psrs"]]
    sig = dict(GP_DEFAULTS, **case["sig"])
    if not any(sig.values()):
        return {"nontrivial": False}
    orb = orbit_data(case["model"])
    cols, sd = [], []
    for q in SCALARS + ORBS:
        if sig[q]:
            for j in range(6 if q in ORBS else 1):
                unit = np.eye(6)[j] if q in ORBS else 1.0
                cols.append((q, unit))
                sd.append(sig[q])
    sd = np.array(sd)
    eph = gp_signals.FourierBasisCommonGP_physicalephem(model=case["model"], coefficients=case["coef"], **case["sig"])
    m = white_signals.MeasurementNoise(efac=parameter.Constant(1.0)) + eph
    rest = [dict(t="mn", sel="none", p={"efac": ["const", 1.0]})]
    if case["tm"]:
        m = m + gp_signals.MarginalizingTimingModel()
        rest.append(dict(t="mtm", svd=False, normed=True))
    pta = signal_base.PTA([m(p) for p in psrs])
    want = []
    for p in psrs:
        W = np.empty((len(p.toas), len(cols)))
        for j, (q, u) in enumerate(cols):
            # small perturbation, then rescaled (the drift is not exactly linear)
            W[:, j] = delay(p.toas, p.planetssb, p.pos_t, {q: np.asarray(u) * 1e-5}, orb) / 1e-5
        want.append(W)
    ref = models.RefModel({"signals": rest}, psrs, {})
    if case["coef"]:
        need(len(pta.params) == len(psrs) and all(q.size == len(cols) for q in pta.params), "coefficient parameters %s", [(q.name, q.size) for q in pta.params])
        rng = np.random.default_rng(case["vs"])
        theta = {"%s_phys_ephem_gp_coefficients" % p.name: sd * rng.normal(size=len(cols)) for p in psrs}
        need(set(theta) == {q.name for q in pta.params}, "coefficient names %s", pta.param_names)
        got = pta.get_delay(theta)
        for i, p in enumerate(psrs):
            c = theta["%s_phys_ephem_gp_coefficients" % p.name]
            w = want[i] @ c
            got[i] = np.asarray(got[i], float)
            close(got[i], w, "delay of %s" % p.name, rtol=1e-9, scale=np.abs(want[i]) @ np.abs(c), atol=1e-7 * np.sum(np.abs(c)))
            ref.parts[i].r = p.residuals - got[i]
    else:
        need(len(pta.params) == 0, "parameters %s", pta.param_names)
        theta = {}
        T = pta.get_basis(theta)
        for i, p in enumerate(psrs):
            close(T[i], want[i], "basis of %s" % p.name, rtol=1e-8, scale=np.max(np.abs(want[i]), axis=0) + 0 * want[i], atol=1e-7)
        phi = pta.get_phi(theta)
        phi = np.asarray(phi.toarray() if hasattr(phi, "toarray") else phi, float) if not isinstance(phi, list) else np.diag(np.concatenate([np.asarray(x, float) for x in phi]))
        if phi.ndim == 1:
            phi = np.diag(phi)
        n = len(psrs)
        G = np.ones((n, n)) + 1e-5 * np.eye(n)
        close(phi, np.kron(G, np.diag(sd**2)), "prior", rtol=1e-9, scale=np.kron(np.ones((n, n)), np.outer(sd, sd)))
        for i in range(n):
            for j in range(n):
                a, b = slice(ref.off[i], ref.off[i + 1]), slice(ref.off[j], ref.off[j + 1])
                ref.C[a, b] += G[i, j] * (np.asarray(T[i]) * sd**2) @ np.asarray(T[j]).T  # the columns carry rounding of 1e-8
    ref.r = np.concatenate([q.r for q in ref.parts])
    val, scale, cond = ref.loglike()
    if cond < 1e10:
        for meth in ("cliques", "sparse"):
            lnl = pta.get_lnlikelihood(theta, phiinv_method=meth)
            need(abs(lnl - val) <= (1e-7 + 1e-15 * cond) * scale, "%s: log-likelihood %r, expected %r", meth, lnl, val)
    return {"labels": ["coefficients" if case["coef"] else "marginalized", "columns=%d" % len(cols)]}


PROP = Prop(
    "D03",
    "the delay function over random pulsars, orbits (the three bundled tables and made-up ones) and perturbations of every kind, alone and together; rotations by all Euler angles; the signal with "
    "every parameter free, renamed, per pulsar, constant or off, with and without epoch averaging, at 1-3 points; the Gaussian-process form with all choices of widths, marginalized or explicit; "
    "non-trivial: a perturbation above 0.1 ns",
    [
        Sub("function", plain_case, run_plain, 4000, 100000),
        Sub("rotations", rotate_case, run_rotate, 2000, 80000),
        Sub("signal", signal_case, run_signal, 3000, 60000),
        Sub("large", lambda: gen.bigger(signal_case()), run_signal, 200, 6000),
        Sub("gp", gp_case, run_gp, 2500, 40000),
    ],
    ["epoch averaging needs TOAs in time order", "basis columns are finite differences in the library (step 1e-5): they are compared with the same differences at a relative 1e-7 of an AU"],
)
