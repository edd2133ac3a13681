"""D01: deterministic signals apply their waveform to exactly the selected TOAs."""
import numpy as np
from hypothesis import strategies as st

from pbt import gen, models, synth
from pbt.core import Prop, Sub
from pbt.helpers import close, dense, need

DAY, YR = 86400.0, 365.25 * 86400.0
RANGES = {
    "amp": (-6.5, -5.0),
    "phase": (0.0, 6.3),
    "fgw": (-8.5, -7.0),
    "tmid": (53000.0, 55500.0),
    "ltau": (1.0, 3.0),
    "idx": (-2.0, 4.0),
    "slope": (-3.0, 3.0),
    "coef": (-1e-6, 1e-6),
    "log10_h": (-15.0, -12.0),
    "t0": (52800.0, 55800.0),
    "gwphi": (0.0, 6.28),
    "gwpol": (0.0, 3.14),
    "cos_gwtheta": (-0.99, 0.99),
}

# plain waveforms: what a user would write; the reference calls them itself on the rows of a group


def w_sine(toas, amp=-6.0, phase=0.0, fgw=-8.0):
    return 10**amp * np.sin(2 * np.pi * 10**fgw * toas + phase)


def w_dip(toas, freqs, amp=-6.0, tmid=54000.0, ltau=2.0, idx=2.0):
    x = toas - tmid * DAY
    return np.where(x > 0, -(10**amp) * np.exp(-np.clip(x, 0, None) / (DAY * 10**ltau)), 0.0) * (1400.0 / freqs) ** idx


def w_ramp(toas, amp=-6.0, slope=1.0):  # relative to the first TOA of the group
    return 10**amp * slope * (toas - toas.min()) / YR if len(toas) else np.zeros(0)


def w_err(toaerrs, residuals, slope=1.0):
    return slope * toaerrs + 0.01 * slope * residuals


def w_poly(toas, coef=None):
    x = (toas - 54000.0 * DAY) / YR
    return coef[0] + coef[1] * x + coef[2] * x**2


def w_parallax(toas, pos_t, pos, amp=-6.0):
    return 10**amp * ((pos_t @ np.array([1.0, 2.0, 3.0])) * np.cos(2 * np.pi * toas / YR) + pos[2])


def w_tag(toas, backend_flags, telescope, amp=-6.0):
    return 10**amp * np.array([len(str(b)) + 0.1 * len(str(t)) for b, t in zip(backend_flags, telescope)])


def w_planet(planetssb, toas, pos, amp=-6.0):  # attributes with more than two dimensions
    return 10**amp * 1e-3 * (planetssb[:, 2, :3] @ pos + 0.1 * planetssb[:, 4, 3])


def w_sky(sunssb, theta, phi, pdist, Mmat, amp=-6.0, slope=1.0):
    return 10**amp * (1e-3 * sunssb[:, 0] * np.cos(phi) + sunssb[:, 1] * 1e-3 * np.sin(theta) + slope * Mmat[:, 0] / pdist[0])


WAVES = {
    "planet": (w_planet, ["amp"]),
    "sky": (w_sky, ["amp", "slope"]),
    "sine": (w_sine, ["amp", "phase", "fgw"]),
    "dip": (w_dip, ["amp", "tmid", "ltau", "idx"]),
    "ramp": (w_ramp, ["amp", "slope"]),
    "err": (w_err, ["slope"]),
    "poly": (w_poly, ["coef"]),
    "parallax": (w_parallax, ["amp"]),
    "tag": (w_tag, ["amp"]),
    "bwm": (None, ["log10_h", "t0", "gwphi", "gwpol", "cos_gwtheta"]),
}
DATA = ("planetssb", "sunssb", "Mmat", "toas", "freqs", "toaerrs", "residuals", "pos_t", "backend_flags", "telescope")


def value(seed, key, name, k=0):
    lo, hi = RANGES[key]
    if key == "coef":
        return np.array([lo + (hi - lo) * models._u(seed, name, k, j) for j in range(3)])
    return float(lo + (hi - lo) * models._u(seed, name, k))


@st.composite
def signal(draw, k, npsr):
    w = draw(st.sampled_from(["sine", "dip", "ramp", "err", "poly", "parallax", "tag", "planet", "sky", "bwm", "bwm"]))
    p = {}
    for q in WAVES[w][1]:
        how = draw(st.sampled_from(["free", "free", "free", "const", "later", "global", "default"]))
        if q == "coef" and how in ("later", "default"):
            how = "free"
        if how == "default" and (w == "bwm" and q == "log10_h"):
            how = "const"
        p[q] = [how, draw(st.integers(0, 20))] if how == "const" else [how]
    s = dict(wave=w, p=p, sel=draw(gen.selection(overlap=False)), name=draw(st.sampled_from(["w%d" % k, "w%d" % k, "some_wave%d" % k])) if k else draw(st.sampled_from(["w0", ""])))
    if npsr > 1 and draw(st.integers(0, 4)) == 0:
        s["only"] = sorted(draw(st.sets(st.integers(0, npsr - 1), min_size=1)))
    return s


@st.composite
def case(draw):
    n = draw(st.integers(1, 3))
    psrs = [draw(gen.psr_spec(index=i, nep=(4, 9), orders=("sorted", "shuffled"))) for i in range(n)]
    return dict(
        psrs=psrs,
        signals=[draw(signal(k, n)) for k in range(draw(st.integers(1, 4)))],
        vs=draw(gen.SEEDS),
        steps=draw(st.lists(st.tuples(st.sampled_from(["dict", "dict", "vector"]), st.integers(0, 3)).map(list), min_size=1, max_size=4)),
        consts=draw(st.lists(st.integers(0, 1), min_size=4, max_size=4)),
        chol=draw(st.booleans()),
    )


DEFAULT = dict(amp=-6.0, phase=0.0, fgw=-8.0, tmid=54000.0, ltau=2.0, idx=2.0, slope=1.0, cos_gwtheta=0.0, gwphi=0.0, gwpol=0.0, t0=55000)


def build(case, psrs):
    from enterprise.signals import deterministic_signals, parameter, signal_base, utils, white_signals

    shared = {}

    def param(q, v):
        U = parameter.Uniform(-1e5, 1e5, size=3 if q == "coef" else None)
        if v[0] == "const":
            return parameter.Constant(value(case["vs"], q, "const_" + q, v[1]))
        if v[0] == "later":
            return parameter.Constant()
        if v[0] == "global":
            shared.setdefault(q, U("all_" + q))
            return shared[q]
        return U

    metas = [white_signals.MeasurementNoise(efac=parameter.Constant(1.0), name="wn")]
    for s in case["signals"]:
        fn = utils.bwm_delay if s["wave"] == "bwm" else parameter.Function
        kw = {q: param(q, v) for q, v in s["p"].items() if v[0] != "default"}
        wf = fn(**kw) if s["wave"] == "bwm" else parameter.Function(WAVES[s["wave"]][0], **kw)
        metas.append(deterministic_signals.Deterministic(wf, selection=models.real_selection(s["sel"]), name=s["name"]))
    scs = []
    for i, psr in enumerate(psrs):
        parts = [metas[0]] + [m for m, s in zip(metas[1:], case["signals"]) if i in s.get("only", [i])]
        scs.append((models.add_all(parts) if len(parts) > 1 else signal_base.SignalCollection(parts))(psr))
    return signal_base.PTA(scs, lnlikelihood=signal_base.LogLikelihoodDenseCholesky if case["chol"] else signal_base.LogLikelihood)


def names_and_values(case, psrs):
    """Expected varying parameters (name -> kind) and constants to be set later."""
    free, later = {}, {}
    for s in case["signals"]:
        for i, psr in enumerate(psrs):
            if i not in s.get("only", [i]):
                continue
            for key in models.ref_selection(s["sel"], psr):
                for q, v in s["p"].items():
                    full = models.join(psr.name, s["name"], key, q)
                    if v[0] == "free":
                        free[full] = q
                    elif v[0] == "later":
                        later[full] = q
                    elif v[0] == "global":
                        free["all_" + q] = q
    return free, later


def reference(case, psrs, vals):
    out = []
    for i, psr in enumerate(psrs):
        tot = np.zeros(len(psr.toas))
        mag = np.zeros(len(psr.toas))
        for s in case["signals"]:
            if i not in s.get("only", [i]):
                continue
            for key, mask in models.ref_selection(s["sel"], psr).items():
                kw = {}
                for q, v in s["p"].items():
                    if v[0] == "const":
                        kw[q] = value(case["vs"], q, "const_" + q, v[1])
                    elif v[0] == "default":
                        kw[q] = DEFAULT[q]
                    else:
                        kw[q] = vals["all_" + q if v[0] == "global" else models.join(psr.name, s["name"], key, q)]
                if s["wave"] == "bwm":
                    d = models.ref_bwm(psr.toas[mask], psr.pos, kw["log10_h"], kw["t0"], kw["gwphi"], kw["gwpol"], kw["cos_gwtheta"])
                    w = 10.0 ** kw["log10_h"] * np.abs(psr.toas[mask] - kw["t0"] * DAY)
                else:
                    f = WAVES[s["wave"]][0]
                    args = {a: (getattr(psr, a)[mask] if a in DATA else getattr(psr, a)) for a in f.__code__.co_varnames[: f.__code__.co_argcount] if a in DATA or a in ("pos", "theta", "phi", "pdist")}
                    d = f(**args, **kw)
                    w = np.abs(d)
                tot[mask] += d
                mag[mask] += w
        out.append((tot, mag))
    return out


def run(case):
    psrs = [synth.make_psr(s) for s in case["psrs"]]
    pta = build(case, psrs)
    free, later = names_and_values(case, psrs)
    sizes = {p.name: p.size for p in pta.params}
    need(sizes == {n: 3 if q == "coef" else None for n, q in free.items()}, "parameters %s instead of %s", sorted(sizes), sorted(free))
    dflt = None
    hit = False
    for k, (how, pick) in enumerate(case["steps"]):
        if k == 0 or case["consts"][k]:
            dflt = {n: value(case["vs"], q, n, 90 + k) for n, q in later.items()}
            if dflt:
                pta.set_default_params(dflt)
        theta = {n: value(case["vs"], q, n, pick) for n, q in free.items()}
        x = np.hstack([np.zeros(0)] + [np.atleast_1d(theta[p.name]) for p in pta.params]) if how == "vector" else theta
        ref = reference(case, psrs, dict(dflt, **theta))
        got = pta.get_delay(theta)
        need(len(got) == len(psrs), "%d delays for %d pulsars", len(got), len(psrs))
        resid = []
        for i, psr in enumerate(psrs):
            d = np.broadcast_to(np.asarray(got[i], float), psr.toas.shape)
            close(d, ref[i][0], "delay of %s" % psr.name, rtol=1e-10, scale=ref[i][1] + 1e-300)
            need(np.all(d[ref[i][1] == 0] == 0), "delay of TOAs outside all groups is not zero")
            hit = hit or np.any(ref[i][0] != 0)
            resid.append((psr.residuals - ref[i][0]) / psr.toaerrs)
        want = sum(-0.5 * r @ r - np.sum(np.log(p.toaerrs)) for r, p in zip(resid, psrs))
        lnl = float(pta.get_lnlikelihood(x))
        scale = sum(r @ r + 30 * len(r) + np.sum((m / p.toaerrs) ** 2) for r, p, (_, m) in zip(resid, psrs, ref))
        need(abs(lnl - want) <= 1e-9 * scale, "log-likelihood %r, expected %r from the residuals minus the delays", lnl, want)
    labels = sorted({s["wave"] for s in case["signals"]} | {str(s["sel"] if isinstance(s["sel"], str) else s["sel"][0]) for s in case["signals"]})
    return {"nontrivial": bool(hit), "labels": labels}


# --------------------------------------------------------------------------- the memory burst


@st.composite
def bwm_case(draw):
    return dict(
        seed=draw(gen.SEEDS),
        n=draw(st.integers(2, 12)),
        log10_h=draw(st.floats(-18, -10)),
        t0=draw(st.one_of(st.floats(52900, 54600), st.integers(0, 11))),  # an integer: exactly at that TOA
        gwphi=draw(st.floats(-7, 7)),
        gwpol=draw(st.floats(-7, 7)),
        cos_gwtheta=draw(st.one_of(st.floats(-1, 1), st.sampled_from([-1.0, 0.0, 1.0]))),
        custom=draw(st.booleans()),
        turn=draw(st.floats(-4, 4)),
    )


def run_bwm(case):
    from enterprise.signals import utils

    rng = np.random.default_rng(case["seed"])
    toas = rng.permutation(53000 * DAY + 1500 * DAY * rng.uniform(size=case["n"]))
    pos = rng.normal(size=3)
    pos /= np.linalg.norm(pos)
    at = isinstance(case["t0"], int)
    t0 = toas[case["t0"] % case["n"]] / DAY if at else case["t0"]
    kw = dict(log10_h=case["log10_h"], cos_gwtheta=case["cos_gwtheta"], gwphi=case["gwphi"], gwpol=case["gwpol"], t0=t0)
    th, ph, psi = np.arccos(kw["cos_gwtheta"]), kw["gwphi"], kw["gwpol"]
    khat = -np.array([np.sin(th) * np.cos(ph), np.sin(th) * np.sin(ph), np.cos(th)])
    if 1 + khat @ pos < 1e-4:
        return {"nontrivial": False, "labels": ["along the line of sight"]}
    keep = toas.copy(), pos.copy()
    got = np.asarray(utils.bwm_delay(toas, pos, **kw))
    need(got.shape == toas.shape and np.array_equal(toas, keep[0]) and np.array_equal(pos, keep[1]), "inputs changed or wrong shape %s", got.shape)
    # polarization tensors projected on the pulsar
    m = np.array([np.sin(ph), -np.cos(ph), 0])
    n = np.cross(khat, m)  # right-handed triad m, n, propagation direction
    ep, ec = np.outer(m, m) - np.outer(n, n), np.outer(m, n) + np.outer(n, m)
    A = 0.5 * pos @ (np.cos(2 * psi) * ep + np.sin(2 * psi) * ec) @ pos / (1 + khat @ pos)
    dt = toas - t0 * DAY
    h = 10.0 ** kw["log10_h"]
    close(got, np.where(dt > 0, A * h * dt, 0.0), "memory burst", rtol=1e-8, scale=h * np.abs(dt) * (1 + 1 / (1 + khat @ pos)) + h * 1e-5)
    need(np.all(got[dt < -1e-4] == 0), "delay before the burst")
    # amplitude scales the delay, quarter turn of the polarization flips it, common rotation about z leaves it
    a = utils.bwm_delay(toas, pos, **dict(kw, log10_h=kw["log10_h"] + 2))
    close(a, 100 * got, "hundred-fold amplitude", rtol=1e-11)
    b = utils.bwm_delay(toas, pos, **dict(kw, gwpol=psi + np.pi / 2))
    S = h * np.abs(dt) * (1 + 1 / (1 + khat @ pos))
    close(b, -got, "polarization turned by 90 degrees", rtol=1e-10, scale=S)
    c, s = np.cos(case["turn"]), np.sin(case["turn"])
    R = np.array([[c, -s, 0], [s, c, 0], [0, 0, 1]])
    d = utils.bwm_delay(toas, R @ pos, **dict(kw, gwphi=ph + case["turn"]))
    close(d, got, "common rotation", rtol=1e-8, scale=S)
    if case["custom"]:
        seen = []

        def pattern(p, theta, phi):
            seen.append((np.array(p), theta, phi))
            return 2.0 + theta, 3.0 - phi

        e = utils.bwm_delay(toas, pos, antenna_pattern_fn=pattern, **kw)
        A2 = np.cos(2 * psi) * (2.0 + th) + np.sin(2 * psi) * (3.0 - ph)
        close(e, np.where(dt > 0, A2 * h * dt, 0.0), "memory burst with a user's antenna pattern", rtol=1e-9, scale=20 * h * np.abs(dt) + h * 1e-5)
        need(len(seen) >= 1 and np.array_equal(seen[0][0], pos), "the antenna pattern was not asked for the pulsar position")
    return {"nontrivial": bool(np.any(dt > 0) and np.any(dt <= 0)), "labels": ["burst at a TOA"] if at else []}


PROP = Prop(
    "D01",
    "arrays of 1-3 pulsars (sorted or shuffled TOAs) with 1-4 deterministic signals of eight waveforms using every kind of per-TOA data, every selection, free, constant, deferred, default and "
    "array-wide parameters, evaluated at a history of 1-4 points; the memory burst over its whole parameter space, epochs exactly at a TOA included; non-trivial: some delay differs from zero / TOAs before and after the burst",
    [Sub("delays", case, run, 3000, 100000), Sub("large", lambda: gen.bigger(case()), run, 600, 20000), Sub("burst", bwm_case, run_bwm, 4000, 150000)],
    ["selections whose groups overlap are excluded (the definition by the group of a TOA has no meaning then)", "sources within 0.8 degrees of the pulsar direction are excluded from the burst comparison"],
)
