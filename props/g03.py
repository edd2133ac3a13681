"""G03: Fourier bases contain the documented functions of time, frequency and position."""
import numpy as np
from hypothesis import strategies as st
from scipy import stats

from pbt import gen, synth
from pbt.core import Prop, Sub
from pbt.helpers import close, need

DAY = 86400.0
YR = 365.25 * DAY
TN = np.sqrt(12.0) * np.pi / (1400.0**2 * 2.41e-4)


@st.composite
def case(draw):
    kind = draw(st.sampled_from(["red", "red", "dm", "dm_tn", "chromatic", "env", "ephem", "general", "general"]))
    c = dict(
        kind=kind,
        n=draw(st.sampled_from([2, 4, 5, 6, 8, 12, 150])),
        start=draw(st.floats(46000, 60000)),
        span=draw(st.floats(0.5, 25)),
        order=draw(st.sampled_from(["sorted", "shuffled"])),
        seed=draw(gen.SEEDS),
        how=draw(st.sampled_from(["call", "call", "function", "mask"])),
        nmodes=draw(st.sampled_from([1, 2, 3, 5, 10, 40, None])),
        T=draw(st.one_of(st.none(), st.floats(0.3, 40))),
    )
    if kind != "ephem":
        grid = draw(st.sampled_from(["plain", "plain", "log", "fmin", "fmax", "both", "logboth", "modes"]))
        c["grid"] = grid
        c["f"] = sorted([draw(st.floats(-9.3, -6.5)), draw(st.floats(-9.3, -6.5))])
        c["modes"] = [draw(st.floats(-9.5, -6.5)) for _ in range(draw(st.integers(1, 5)))]
        c["aslist"] = draw(st.booleans())
    if kind in ("dm", "dm_tn"):
        c["fref"] = draw(st.sampled_from([None, 1400, 1000.0, 327.5]))
    if kind in ("dm_tn", "chromatic"):
        c["idx"] = draw(st.sampled_from([None, 2, 4, 4.4, 0, -1.5, 2.0]))
    if kind == "env":
        c["env"] = [draw(st.one_of(st.none(), st.floats(-9, -4))), draw(st.one_of(st.none(), st.floats(1, 3.5))), draw(st.one_of(st.none(), st.floats(-0.2, 1.2)))]
    if kind == "general":
        c["idx"] = draw(st.sampled_from([None, None, 2, 4, 0, 3.3]))
        c["tndm"] = draw(st.booleans())
        c["flagname"] = draw(st.sampled_from([None, "fe", "B"]))
        c["flagval"] = draw(st.sampled_from([None, "a", "b", "zz"]))
        c["psrTspan"] = draw(st.booleans())
    if kind in ("red", "dm", "dm_tn", "general"):
        c["pshift"] = draw(st.sampled_from([False, False, True]))
    if kind in ("red", "general"):
        c["pseed"] = draw(st.sampled_from([None, None, 0, 1, 17, 12345]))
    return c


def make(c):
    rng = np.random.default_rng([c["seed"], 21])
    p = synth.SynthPulsar()
    n = c["n"]
    t = (c["start"] + c["span"] * 365.25 * np.sort(rng.uniform(0, 1, n))) * DAY
    p.toas = t if c["order"] == "sorted" else t[rng.permutation(n)]
    p.freqs = rng.uniform(100, 10000, n)
    v = rng.normal(size=3)
    p.pos = v / np.linalg.norm(v)
    p.flags = {k: np.array(rng.choice(["a", "b", "ab"], n), dtype="U8") for k in ("fe", "B", "group")}
    p.name = "J0000+0000"
    return p, rng


def arguments(c):
    kw = {}
    if c["nmodes"] is not None:
        kw["nmodes"] = c["nmodes"]
    if c["T"] is not None:
        kw["Tspan"] = c["T"] * YR
    g = c.get("grid", "plain")
    if g in ("log", "logboth"):
        kw["logf"] = True
    if g in ("fmin", "both", "logboth"):
        kw["fmin"] = 10.0 ** c["f"][0]
    if g in ("fmax", "both", "logboth"):
        kw["fmax"] = 10.0 ** c["f"][1]
    if g == "modes":
        m = [10.0**x for x in c["modes"]]
        kw["modes"] = m if c["aslist"] else np.array(m)
    for k in ("fref", "idx", "tndm", "flagname", "flagval", "psrTspan", "pshift", "pseed"):
        if c.get(k) is not None:
            kw[k] = c[k]
    if c["kind"] == "env":
        for k, v in zip(("log10_Amp", "log10_Q"), c["env"]):
            if v is not None:
                kw[k] = v
        if c["env"][2] is not None:
            kw["t0"] = (c["start"] + c["env"][2] * c["span"] * 365.25) * DAY
    return kw


def frequencies(c, toas, kw):
    T = kw.get("Tspan", toas.max() - toas.min())
    n = kw.get("nmodes", 30)
    if "modes" in kw:
        return np.array(kw["modes"], float)
    if not kw.get("logf") and "fmin" not in kw and "fmax" not in kw:
        return np.array([(k + 1) / T for k in range(n)])
    lo, hi = kw.get("fmin", 1 / T), kw.get("fmax", n / T)
    x = np.array([k / (n - 1) if n > 1 else 0.0 for k in range(n)])
    return lo * (hi / lo) ** x if kw.get("logf") else lo + (hi - lo) * x


def factor(c, p, kw):
    """The documented factor of each TOA."""
    k = c["kind"]
    nu = p.freqs
    if k == "dm":
        return (kw.get("fref", 1400) / nu) ** 2
    if k == "dm_tn":
        return (kw.get("fref", 1400) / nu) ** kw.get("idx", 2) * TN
    if k == "chromatic":
        return (1400.0 / nu) ** kw.get("idx", 4)
    if k == "env":
        Q = 10.0 ** kw.get("log10_Q", np.log10(300.0)) * DAY
        return 10.0 ** kw.get("log10_Amp", -7) * np.exp(-0.5 * ((p.toas - kw.get("t0", 53000 * DAY)) / Q) ** 2)
    if k == "general":
        out = np.ones(len(nu))
        if kw.get("idx"):
            out = (1400.0 / nu) ** kw["idx"] * (TN if kw.get("tndm") else 1.0)
        if kw.get("flagval"):
            out = out * (p.flags[kw.get("flagname", "group")] == kw["flagval"])
        return out
    return np.ones(len(nu))


def run(c):
    from enterprise.signals import gp_bases

    p, rng = make(c)
    kw = arguments(c)
    func = getattr(gp_bases, "createfourierdesignmatrix_" + c["kind"])
    how = c["how"] if not (c["kind"] == "general" and c["how"] == "mask") else "function"
    mask = None
    if how == "mask":
        mask = rng.uniform(size=c["n"]) < 0.6
        mask[rng.integers(c["n"], size=2)] = True
        if mask.sum() < 2:
            mask[:] = True
    q = p
    if mask is not None:
        q = synth.SynthPulsar()
        q.toas, q.freqs, q.pos, q.flags = p.toas[mask], p.freqs[mask], p.pos, p.flags
    if c["kind"] == "general" and kw.get("flagval") and kw.get("psrTspan") is False:
        sel = q.toas[q.flags[kw.get("flagname", "group")] == kw["flagval"]]
        if len(sel) < 2 or sel.max() == sel.min():
            return {"nontrivial": False, "labels": ["no span"]}
        ref_kw = dict(kw, Tspan=sel.max() - sel.min())
    else:
        ref_kw = kw
    f = frequencies(c, q.toas, ref_kw)
    attrs = {"red": ["toas"], "env": ["toas"], "ephem": ["toas", "pos"], "general": ["toas", "freqs", "flags"]}.get(c["kind"], ["toas", "freqs"])

    def get():
        if how == "call":
            return func(*[getattr(p, a) for a in attrs], **kw)
        obj = func(**kw)("basis", psr=p)
        return obj(mask=mask) if mask is not None else obj()

    toas0, freqs0 = p.toas.copy(), p.freqs.copy()
    np.random.seed(c["seed"] % 2**32)
    F, Ff = get()
    F, Ff = np.array(F), np.array(Ff)
    per = 6 if c["kind"] == "ephem" else 2
    need(F.shape == (len(q.toas), per * len(f)) and Ff.shape == (per * len(f),), "basis of shape %s with %s frequencies for %d modes", F.shape, Ff.shape, len(f))
    close(Ff, np.repeat(f, per), "column frequencies", rtol=1e-12, atol=1e-14 * np.max(f))
    arg = 2 * np.pi * q.toas[:, None] * f[None, :]
    tol = 1e-13 * np.max(np.abs(arg)) + 1e-12
    fac = factor(c, q, kw)[:, None]
    shifted = bool(kw.get("pshift")) or kw.get("pseed") is not None
    if c["kind"] == "ephem":
        want = np.stack([np.sin(arg)[:, :, None] * q.pos, np.cos(arg)[:, :, None] * q.pos], axis=2).reshape(len(q.toas), -1)
        close(F, want, "ephemeris basis", atol=tol * 10)
    else:
        phase = np.zeros(len(f))
        rows = np.flatnonzero(np.abs(fac[:, 0]) > 0)
        if shifted and len(rows):
            i = rows[0]
            s, co = F[i, ::2] / fac[i, 0], F[i, 1::2] / fac[i, 0]
            close(s**2 + co**2, np.ones(len(f)), "squared sine plus squared cosine of one frequency", atol=1e-9)
            phase = np.arctan2(s, co) - arg[i]
        scale = np.max(np.abs(fac)) if np.max(np.abs(fac)) > 0 else 1.0
        for nm, col, wave in (("sine", F[:, ::2], np.sin), ("cosine", F[:, 1::2], np.cos)):
            close(col, wave(arg + phase) * fac, nm + " columns", atol=(tol * 10 + 1e-11) * np.abs(fac) + 1e-300, scale=None)
    need(np.array_equal(p.toas, toas0) and np.array_equal(p.freqs, freqs0), "the basis changed its inputs")
    labels = [c["kind"], how, c.get("grid", "plain")]
    if shifted:
        labels.append("shifted")
        # reproducible: from the seed whatever the generator's state, or from the generator's state
        np.random.seed((c["seed"] + (1 if kw.get("pseed") is not None else 0)) % 2**32)
        again = np.array(get()[0])
        need(np.array_equal(again, F), "the same seed gives different phase shifts")
        if len(f) >= 2 and np.any(fac):
            if kw.get("pseed") is not None:
                kw["pseed"] += 1
            other = np.array(get()[0])
            need(not np.allclose(other, F, atol=1e-6 * np.max(np.abs(F)), rtol=0), "another seed or generator state gives the same phase shifts")
    return {"nontrivial": len(f) > 1, "labels": labels}


# --------------------------------------------------------------------------- distribution of the phase shifts


@st.composite
def phase_case(draw):
    return dict(kind=draw(st.sampled_from(["red", "dm", "dm_tn", "general"])), seed=draw(gen.SEEDS), pseed=draw(st.one_of(st.none(), st.integers(0, 10**6))), start=draw(st.floats(46000, 60000)))


def run_phase(c):
    from enterprise.signals import gp_bases

    m = 300
    toas = (c["start"] + np.array([0.0, 400.0, 1000.0])) * DAY
    func = getattr(gp_bases, "createfourierdesignmatrix_" + c["kind"])
    kw = dict(nmodes=m, pshift=True)
    extra = {"red": [], "dm": [np.full(3, 1400.0)], "dm_tn": [np.full(3, 1400.0)], "general": [np.full(3, 1400.0), {}]}[c["kind"]]
    np.random.seed(c["seed"] % 2**32)
    out = []
    for shift in (0.0, 1000.0 * DAY):  # two pulsars with different first TOAs
        if c["kind"] in ("red", "general") and c["pseed"] is not None:
            kw["pseed"] = c["pseed"]
        F, Ff = func(toas + shift, *extra, **kw)
        f = Ff[::2]
        ph = np.mod(np.arctan2(F[0, ::2], F[0, 1::2]) - 2 * np.pi * f * (toas[0] + shift), 2 * np.pi)
        d, pv = stats.kstest(ph / (2 * np.pi), "uniform")
        need(pv > 1e-10, "phase shifts are not uniform over the circle (KS distance %.3f)", d)
        out.append(ph)
    r = np.corrcoef(np.cos(out[0]), np.cos(out[1]))[0, 1] * np.sqrt(m)
    need(abs(r) < 6.5, "two pulsars get the same phase shifts")
    return {"nontrivial": True, "labels": [c["kind"], "seed" if "pseed" in kw else "state"]}


# --------------------------------------------------------------------------- linear interpolation between nodes


@st.composite
def interp_case(draw):
    return dict(
        n=draw(st.sampled_from([1, 2, 3, 5, 10, 40, 200])),
        start=draw(st.integers(46000, 60000)),
        days=draw(st.sampled_from([None, 1, 2, 7, 30, 30, 31, 100, 365])),
        cells=draw(st.integers(0, 60)),  # length of the data in steps
        at=draw(st.sampled_from(["nodes", "anywhere", "both"])),
        order=draw(st.sampled_from(["sorted", "shuffled"])),
        seed=draw(gen.SEEDS),
    )


def run_interp(c):
    from enterprise.signals import utils

    rng = np.random.default_rng([c["seed"], 23])
    dt = 30 * 86400 if c["days"] is None else c["days"] * 86400
    # (binary fractions of a second, so that TOAs can sit exactly on the nodes)
    u = np.concatenate([[0.0, c["cells"]], rng.integers(0, c["cells"] + 1, c["n"]) if c["at"] == "nodes" else rng.uniform(0, c["cells"], c["n"])])
    if c["at"] == "both":
        u[: len(u) // 2] = np.round(u[: len(u) // 2])
        u[:2] = 0.0, c["cells"]
    if c["n"] == 1:
        u = u[:1]
    toas = c["start"] * DAY + np.round(u * dt * 64) / 64
    toas = np.sort(toas) if c["order"] == "sorted" else rng.permutation(toas)
    keep = toas.copy()
    M, x = utils.linear_interp_basis(toas) if c["days"] is None else utils.linear_interp_basis(toas, dt=dt)
    need(np.array_equal(toas, keep), "linear_interp_basis changes the TOAs")
    M, x = np.array(M), np.array(x)
    need(M.shape == (len(toas), len(x)), "basis of shape %s for %d TOAs and %d nodes", M.shape, len(toas), len(x))
    w = {}  # node -> column, by definition
    k = np.floor((toas - toas.min()) / dt)
    frac = (toas - toas.min() - k * dt) / dt
    for i in range(len(toas)):
        for node, val in ((k[i], 1 - frac[i]), (k[i] + 1, frac[i])):
            if val > 0:
                w.setdefault(node, np.zeros(len(toas)))[i] += val
    nodes = sorted(w)
    need(len(x) == len(nodes) and np.allclose(x, toas.min() + np.array(nodes) * dt, rtol=0, atol=1e-3), "nodes at steps %s, expected %s", (x - toas.min()) / dt, nodes)
    want = np.array([w[q] for q in nodes]).T
    need(np.allclose(M, want, rtol=0, atol=1e-9), "interpolation weights differ by %.3g", np.max(np.abs(M - want)))
    return {"nontrivial": len(nodes) > 2, "labels": [c["at"], c["order"], "gaps" if len(nodes) < c["cells"] else "no gaps"]}


# --------------------------------------------------------------------------- Fourier processes built on shifted bases


@st.composite
def signal_case(draw):
    def gp():
        g = dict(
            common=draw(st.sampled_from([False, False, True])),
            ncomp=draw(st.sampled_from([1, 2, 3, 5])),
            T=draw(st.sampled_from([None, 3.0, 11.0])),
            grid=draw(st.sampled_from(["plain", "plain", "log", "fmin", "fmax", "modes"])),
            pshift=draw(st.sampled_from([False, True])),
            pseed=draw(st.sampled_from([None, 0, 1, 7, 7, 8])),
            combine=draw(st.booleans()),
            select=draw(st.booleans()),
            coeffs=draw(st.sampled_from([False, False, True])),
            amp=draw(st.floats(-15, -12)),
            gamma=draw(st.floats(0, 6)),
        )
        if g["common"]:
            g["select"] = False
            if g["coeffs"] and g["T"] is None:
                g["T"] = 5.0
        return g

    n = draw(st.integers(1, 3))
    return dict(psrs=draw(gen.psr_specs((1, 2), nep=(3, 5))), gps=[gp() for _ in range(n)], seed=draw(gen.SEEDS), twin=draw(st.booleans()))


def run_signals(c):
    from enterprise.signals import gp_signals, parameter, selections, signal_base, utils, white_signals

    psrs = [synth.make_psr(s) for s in c["psrs"]]
    gps = [dict(g) for g in c["gps"]]
    if c["twin"]:
        gps.append(dict(gps[0], amp=gps[0]["amp"] + 0.3, pseed=gps[0]["pseed"]))
    rng = np.random.default_rng([c["seed"], 29])
    np.random.seed(c["seed"] % 2**32)
    classes, kws = [], []
    for i, g in enumerate(gps):
        kw = dict(components=g["ncomp"], pshift=g["pshift"], pseed=g["pseed"])
        if g["T"] is not None:
            kw["Tspan"] = g["T"] * YR
        if g["grid"] == "log":
            kw["logf"] = True
        elif g["grid"] == "fmin":
            kw["fmin"] = 3e-9
        elif g["grid"] == "fmax":
            kw["fmax"] = 4e-8
        elif g["grid"] == "modes":
            kw["modes"] = [10 ** (-8.5 + 0.2 * j) for j in range(g["ncomp"])]
        kws.append(dict(kw))
        pl = utils.powerlaw(log10_A=parameter.Constant(g["amp"]), gamma=parameter.Constant(g["gamma"]))
        kw.update(coefficients=g["coeffs"], combine=g["combine"], name="gp%d" % i)
        if g["common"]:
            classes.append(gp_signals.FourierBasisCommonGP(pl, utils.hd_orf(), **kw))
        else:
            if g["select"]:
                kw["selection"] = selections.Selection(selections.by_backend)
            classes.append(gp_signals.FourierBasisGP(pl, **kw))
    model = white_signals.MeasurementNoise(efac=parameter.Constant(1.0))
    for k in classes:
        model = model + k
    pta = signal_base.PTA([model(p) for p in psrs])
    span = max(p.toas.max() for p in psrs) - min(p.toas.min() for p in psrs)
    params = {q.name: (rng.normal(size=q.size) if q.size else rng.normal()) * 1e-7 for q in pta.params}
    shifted, nontrivial = False, False

    def block(g, kw, toas, T):
        f = frequencies({}, toas, dict({"nmodes": g["ncomp"], "Tspan": T}, **{k: v for k, v in kw.items() if k in ("logf", "fmin", "fmax", "modes")}))
        a = 2 * np.pi * toas[:, None] * f[None, :]
        A = 10 ** (2 * g["amp"]) / 12 / np.pi**2 * (1 / YR) ** (g["gamma"] - 3)
        fe = np.repeat(f, 2)
        return f, a, A * fe ** -g["gamma"] * np.diff(np.concatenate(([0], fe[::2]))).repeat(2)

    for ip, (p, sc) in enumerate(zip(psrs, pta)):
        want_delay = np.zeros(len(p.toas))
        want = np.zeros((len(p.toas), len(p.toas)))
        scale = 0.0
        for i, (g, kw) in enumerate(zip(gps, kws)):
            sig = [s for s in sc.signals if s.name.endswith("_gp%d" % i) or s.signal_id == "gp%d" % i]
            need(len(sig) == 1, "signal gp%d not found", i)
            sig = sig[0]
            groups = {k: p.backend_flags == k for k in sorted(set(p.backend_flags))} if g["select"] else {"": np.ones(len(p.toas), bool)}
            if any(np.ptp(p.toas[m]) < 30 * DAY for m in groups.values()) and g["T"] is None and g["grid"] != "modes":
                return {"nontrivial": False, "labels": ["no span"]}
            if g["coeffs"]:
                # the basis of explicit coefficients shows through the delay they cause
                names = [q.name for q in sig.params if q.name.endswith("coefficients")]
                need(len(names) == len(groups), "coefficients %s for %d groups", names, len(groups))
                cols, flat = [], []
                for nm in names:
                    need(params[nm].shape == (2 * g["ncomp"],), "%s has shape %s", nm, params[nm].shape)
                    for j in range(2 * g["ncomp"]):
                        q = dict(params, **{x: np.zeros(2 * g["ncomp"]) for x in names})
                        q[nm][j] = 1.0
                        cols.append(np.array(sig.get_delay(q)))
                B = np.array(cols).T
                close(sig.get_delay(params), B @ np.concatenate([params[nm] for nm in names]), "delay of the coefficients", atol=1e-18)
            else:
                B = np.array(sig.get_basis(params))
            need(B.shape == (len(p.toas), 2 * g["ncomp"] * len(groups)), "basis of gp%d has shape %s", i, B.shape)
            for k, (label, m) in enumerate(groups.items()):
                b = B[:, 2 * g["ncomp"] * k : 2 * g["ncomp"] * (k + 1)]
                need(not np.any(b[~m]), "basis of %s touches other TOAs", label)
                b, toas = b[m], p.toas[m]
                T = kw.get("Tspan", span if g["common"] else np.ptp(toas) if g["grid"] != "modes" else 1.0)
                f, a, phi = block(g, kw, toas, T)
                if np.any(np.diff(f) <= 0):
                    return {"nontrivial": False, "labels": ["falling frequencies"]}
                tol = 1e-12 * np.max(np.abs(a)) + 1e-10
                s, co = b[0, ::2], b[0, 1::2]
                close(s**2 + co**2, np.ones(len(f)), "squared sine plus squared cosine", atol=1e-9)
                phase = np.arctan2(s, co) - a[0]
                close(b[:, ::2], np.sin(a + phase), "sine columns of gp%d %s" % (i, label), rtol=0, atol=tol)
                close(b[:, 1::2], np.cos(a + phase), "cosine columns of gp%d %s" % (i, label), rtol=0, atol=tol)
                if g["pseed"] is None and not g["pshift"]:
                    need(np.max(np.abs(b[0, ::2] - np.sin(a[0]))) <= tol, "phase shift without being asked for")
                else:
                    shifted = True
                    need(np.max(np.abs(np.stack([s - np.sin(a[0]), co - np.cos(a[0])]))) > 1e-5, "gp%d %s: no phase shift", i, label)
                if g["pseed"] is not None:
                    np.random.seed(int(rng.integers(2**31)))
                    ref = utils.createfourierdesignmatrix_red(toas, nmodes=g["ncomp"], **dict({"Tspan": T}, **{x: v for x, v in kw.items() if x != "components"}))[0]
                    need(np.max(np.abs(ref - b)) <= tol, "gp%d %s: not the basis of its seed", i, label)
                if not g["coeffs"]:
                    want[np.ix_(m, m)] += (np.cos(a[:, None, :] - a[None, :, :]) * phi[::2]).sum(axis=2)
                    scale += phi[::2].sum()
            if g["coeffs"]:
                want_delay += np.array(sig.get_delay(params))
        # whatever the shifts, whichever columns are shared: the covariance of stationary processes
        TT = pta.get_basis(params)[ip]
        phi = pta.get_phi(params)
        if TT is not None:
            n0 = sum(0 if b is None else b.shape[1] for b in pta.get_basis(params)[:ip])
            ph = np.asarray(phi[ip]) if isinstance(phi, list) else np.asarray(phi)[n0 : n0 + TT.shape[1], n0 : n0 + TT.shape[1]]
            ph = np.diag(ph) if ph.ndim == 1 else ph
            close(TT @ ph @ TT.T, want, "covariance of the processes", rtol=0, atol=1e-7 * scale)
            nontrivial = nontrivial or shifted
        else:
            need(scale == 0, "no basis at all")
        close(np.broadcast_to(pta.get_delay(params)[ip], p.toas.shape), want_delay, "delay", atol=1e-18)
        nontrivial = nontrivial or (shifted and np.any(want_delay))
    before = pta.get_basis(params), pta.get_lnlikelihood(params)
    np.random.seed(int(rng.integers(2**31)))
    after = pta.get_basis(params), pta.get_lnlikelihood(params)
    need(all((a is None and b is None) or np.array_equal(a, b) for a, b in zip(before[0], after[0])), "the basis changes between calls")
    need(before[1] == after[1], "the likelihood changes between calls")
    lab = sorted({("common" if g["common"] else "selected" if g["select"] else "private") + (" seed" if g["pseed"] is not None else " shift" if g["pshift"] else "") for g in gps})
    return {"nontrivial": bool(nontrivial), "labels": lab + (["coefficients"] if any(g["coeffs"] for g in gps) else [])}


PROP = Prop(
    "G03",
    "random TOAs, radio frequencies, positions, flags, mode counts, spans, grids, indices, envelopes and seeds for the seven bases, called directly, as a "
    "function of a pulsar and under a mask; columns compared with the written-out functions; interpolation weights on equally spaced nodes; non-trivial: at least two frequencies",
    [Sub("bases", case, run, 25000, 800000), Sub("phases", phase_case, run_phase, 1000, 10000), Sub("interpolation", interp_case, run_interp, 3000, 100000), Sub("signals", signal_case, run_signals, 3000, 100000)],
    ["phase shifts are compared through what they do to the columns, not with a particular random generator"],
)
