"""Hypothesis strategies for pulsar specs and model specs (plain JSON-able data; see models.py)."""
from hypothesis import strategies as st

from . import models

SELS = ["none", "backend", "half", "fe", "band", "tel"]
SEEDS = st.integers(0, 10**6)


@st.composite
def psr_spec(draw, index=0, nep=(3, 7), kmax=3, orders=("sorted",), ntm=(2, 5)):
    k = draw(st.integers(*nep))
    return dict(
        seed=draw(SEEDS),
        name="J%04d%s%04d" % (1000 + 7 * index, "+" if index % 2 else "-", 100 * index),
        nep=k,
        kmax=draw(st.integers(1, kmax)),
        span_yr=draw(st.sampled_from([3.0, 4.0, 6.5])),
        start=draw(st.integers(0, 20)),
        singles=draw(st.booleans()),
        order=draw(st.sampled_from(list(orders))),
        nback=draw(st.integers(1, 3)),
        ntm=draw(st.integers(min(ntm[0], k - 1), min(ntm[1], k - 1))),  # full rank
        tm_scaled=draw(st.booleans()),
        res_scale=draw(st.sampled_from([0.3, 2.0, 20.0])),
        tied=draw(st.integers(0, 3)) == 0,
        errexp=draw(st.sampled_from([-6] * 5 + [-8, -7, -5])),
    )


@st.composite
def psr_specs(draw, n=(1, 3), **kw):
    k = draw(st.integers(*n)) if isinstance(n, tuple) else n
    return [draw(psr_spec(index=i, **kw)) for i in range(k)]


@st.composite
def large(draw, many=(6, 10, 16, 24, 32), **kw):
    """Pulsars and a model with many pulsars, or with many frequencies and nodes on one to three pulsars."""
    first = draw(psr_spec(nep=(3, 6), ntm=(2, 3)))
    arrays = draw(st.booleans())
    n = draw(st.sampled_from(list(many))) if arrays else draw(st.integers(1, 3))
    if not arrays:
        first["nep"] = draw(st.sampled_from([12, 25, 40, 60]))
    rest = draw(psr_specs(n=min(2, n - 1), nep=(3, 6), ntm=(2, 3))) if n > 1 else []
    psrs = []
    for i in range(n):
        s = dict(first if i == 0 or not rest else rest[i % len(rest)])
        s.update(seed=(s["seed"] + 101 * i) % 10**6, name="J%04d%s%04d" % (1000 + 7 * i, "+" if i % 2 else "-", 100 * i))
        if not arrays:
            s["nep"] = first["nep"]
        psrs.append(s)
    m = draw(model(n, **kw))
    nc = draw(st.sampled_from([1, 2, 3] if n > 12 else [3, 6, 10] if arrays else [8, 16, 30]))
    for s in m["signals"]:
        if "nc" in s and not s.get("modes") and s["spec"] in ("powerlaw", "turnover"):
            s["nc"] = nc
        if "nn" in s and not arrays:
            s["nn"], s["step"] = 12, 200 * 86400.0
    return psrs, m


@st.composite
def bigger(draw, base):
    """A case of the given strategy with many more TOAs, epochs, backends and basis functions."""
    c = draw(base)
    psrs = c["psrs"] if "psrs" in c else [c["psr"]]
    nep, kmax = draw(st.sampled_from([[12, 12], [24, 3], [40, 1], [70, 2], [130, 1]]))
    nback = draw(st.sampled_from([2, 5, 7]))
    for s in psrs:
        s.update(nep=nep, kmax=kmax, nback=nback)
    nc = draw(st.sampled_from([5, 11, 20]))
    model = c.get("model")
    for s in model["signals"] if isinstance(model, dict) else []:
        if "nc" in s and not s.get("modes") and s.get("spec") in ("powerlaw", "turnover"):
            s["nc"] = nc
    return c


@st.composite
def pspec(draw, pname, kinds=("free", "free", "free", "const", "later"), size=None):
    """How one parameter is given to the signal."""
    k = draw(st.sampled_from(list(kinds)))
    if size and k == "later":
        k = "free"
    if k == "const":
        v = models.value_for("x_" + pname, size, draw(st.integers(0, 50)), 99)
        return ["const", v.tolist() if size else v]
    return [k]


FREE = ("free",)
MIX = ("free", "free", "free", "const", "later")


@st.composite
def gp_freq(draw, T=None, sel="none", fancy=True):
    """Frequency-grid options of a Fourier signal."""
    d = dict(nc=draw(st.integers(1, 4)))
    d["T"] = draw(st.sampled_from([5.0, 7.0])) if T is None else T
    if not fancy:
        return d
    mode = draw(st.sampled_from(["std", "std", "std", "std", "logf", "range", "modes"]))
    if mode == "logf":
        d["logf"] = True
    elif mode == "range":
        d.update(fmin=3e-9, fmax=4e-8)
    elif mode == "modes":
        k = draw(st.integers(1, 3))
        d.update(nc=k, modes=[round(draw(st.floats(3e-9, 6e-8)), 12) * (1 + 0.01 * i) for i in range(k)])
        d["modes"] = sorted(d["modes"])
    return d


SPECTRA = ("powerlaw", "powerlaw", "turnover", "free", "tproc", "nested")


@st.composite
def spectrum(draw, nc, kinds=MIX, allowed=SPECTRA):
    sp = draw(st.sampled_from(list(allowed)))
    if sp == "free" and nc < 2:
        sp = "powerlaw"
    if sp == "tproc" and nc < 2:
        sp = "powerlaw"
    P = {}
    if sp == "psr":
        return sp, {"log10_sigma": draw(pspec("log10_sigma", kinds))}
    if sp != "free":
        P["log10_A"] = draw(pspec("log10_A", kinds))
        P["gamma"] = draw(pspec("gamma", kinds))
    if sp == "nested":
        P["phase"] = draw(pspec("phase", kinds))
    if sp == "turnover":
        P["lf0"] = draw(pspec("lf0", kinds))
    if sp == "free":
        P["log10_rho"] = draw(pspec("log10_rho", kinds, size=nc))
    if sp == "tproc":
        P["alphas"] = draw(pspec("alphas", kinds, size=nc))
    return sp, P


CB_LISTS = [["ASP"], ["PUPPI", "430"], ["CHIME", "NRT"], "GUPPI", ["PKS"], ["nowhere"], None, ["ASP", "GASP", "GUPPI", "PUPPI", "YUPPI"]]


@st.composite
def selection(draw, plain=tuple(SELS), custom=True, overlap=True):
    """A selection: by name, or [kind, setting] for the configurable ones."""
    if not custom or draw(st.integers(0, 2)) == 0:
        return draw(st.sampled_from(list(plain)))
    k = draw(st.sampled_from(["ngb", "cb", "cb", "cbd", "cbd", "fband", "idx"]))
    if k == "ngb":
        return ["ngb", None]
    if k == "cb":
        return ["cb", draw(st.sampled_from(CB_LISTS))]
    if k == "cbd":
        opts = [None, ["ASP", "CHIME"], "PUPPI", {"backend": None}, {"backend": ["ASP", "PKS"]}, {"fe": None}, {"B": ["0CM"]}, {"fe": "430"}, {"B": ["20CM", "10"]}, {"B": None}]
        if overlap:
            opts += [{"fe": ["wide"], "B": None}, {"backend": ["ASP"], "group": None}]
        return ["cbd", draw(st.sampled_from(opts))]
    if k == "fband":
        opts = [None, {"low": [0, 1000], "high": [1000, 5000]}, {"mid": [1300.0, 1430.0]}]
        if overlap:
            opts.append({"a": [0, 1500], "b": [700, 4000]})
        return ["fband", draw(st.sampled_from(opts))]
    return ["idx", [draw(st.sampled_from(["pick", "x_y"])), sorted(draw(st.sets(st.integers(0, 12), min_size=1, max_size=6)))]]


@st.composite
def white(draw, kinds=MIX, sels=SELS, ecorr=True):
    sigs = []
    sel = draw(st.sampled_from(sels))
    P = {"efac": draw(pspec("efac", kinds))}
    if draw(st.booleans()):
        P["log10_t2equad"] = draw(pspec("log10_t2equad", kinds))
    sigs.append(dict(t="mn", sel=sel, p=P))
    if draw(st.integers(0, 3)) == 0:
        sigs.append(dict(t="tneq", sel=draw(st.sampled_from(sels)), p={"log10_tnequad": draw(pspec("log10_tnequad", kinds))}))
    if ecorr:
        e = draw(st.sampled_from(["no", "kernel", "kernel", "gp"]))
        if e != "no":
            sel = draw(st.sampled_from(sels))
            p = {"log10_ecorr": draw(pspec("log10_ecorr", kinds))}
            if e == "kernel":
                sigs.append(
                    dict(t="ecorr", sel=sel, p=p, method=draw(st.sampled_from(["sherman-morrison", "fast-sherman-morrison", "sparse", "block"])))
                )
            else:
                sigs.append(dict(t="ecgp", sel=sel, p=p))
    return sigs


@st.composite
def timing(draw, kinds=("tm", "tm", "mtm", "mtm", "no")):
    t = draw(st.sampled_from(list(kinds)))
    if t == "no":
        return []
    svd = draw(st.booleans())
    return [dict(t=t, svd=svd, normed=True if svd else draw(st.sampled_from([True, True, False])))]


def node_grid(draw):
    nn = draw(st.integers(2, 4))
    return dict(tref=(52990.0) * 86400.0, step=float(draw(st.sampled_from([400, 700]))) * 86400.0, nn=nn)


@st.composite
def private_gps(draw, n=(0, 2), kinds=MIX, combine=st.booleans(), T=None, grid=None, allowed=("rn", "rn", "rn", "dmgp", "chrom", "kern", "ikern")):
    sigs = []
    for k in range(draw(st.integers(*n))):
        t = draw(st.sampled_from(list(allowed)))
        name = t + str(k)
        comb = draw(combine)
        if t in ("rn", "dmgp", "chrom"):
            sel = "none" if t == "chrom" else draw(st.sampled_from(["none", "none", "none", "backend", "half"]))
            fr = draw(gp_freq(T=T))
            if sel == "none" and draw(st.integers(0, 4)) == 0:
                fr["T"] = None  # the data's own time span
            sp, P = draw(spectrum(fr["nc"], kinds, SPECTRA + ("psr",)))
            if t == "chrom":
                P["idx"] = draw(pspec("idx", kinds))
            sigs.append(dict(t=t, name=name, combine=comb, sel=sel, spec=sp, p=P, **fr))
        elif t == "kern":
            P = {q: draw(pspec(q, kinds)) for q in ("log10_sigma", "log10_lam")}
            sigs.append(dict(t=t, name=name, combine=comb, dt_days=draw(st.sampled_from([300.0, 500.0])), p=P))
        else:
            P = {q: draw(pspec(q, kinds)) for q in ("log10_sigma", "log10_lam")}
            sigs.append(dict(t=t, name=name, combine=comb, p=P, **(grid or node_grid(draw))))
    return sigs


@st.composite
def deterministic(draw, n=(0, 1), kinds=MIX):
    sigs = []
    for k in range(draw(st.integers(*n))):
        t = draw(st.sampled_from(["det", "det", "bwm"]))
        names = ["log10_amp", "phase"] if t == "det" else ["log10_h", "t0", "gwphi", "gwpol", "cos_gwtheta"]
        s = dict(t=t, name=t + str(k), p={q: draw(pspec(q, kinds)) for q in names})
        if t == "det":
            s["sel"] = draw(st.sampled_from(SELS))
        sigs.append(s)
    return sigs


@st.composite
def common(draw, npsr, n=(0, 2), kinds=("free", "free", "const", "later"), combine=st.booleans(), T=None, grid=None, subsets=True, allowed=("crn", "crn", "crn", "ckern", "ephgp")):
    sigs = []
    for k in range(draw(st.integers(*n))):
        t = draw(st.sampled_from(list(allowed)))
        name = "c%d%s" % (k, t)
        orf = draw(st.sampled_from(["hd", "dipole", "monopole"]))
        if t == "crn":
            fr = draw(gp_freq(T=T))
            sp, P = draw(spectrum(fr["nc"], kinds))
            s = dict(t=t, name=name, combine=draw(combine), orf=orf, spec=sp, p=P, **fr)
        elif t == "ckern":
            P = {q: draw(pspec(q, kinds)) for q in ("log10_sigma", "log10_lam")}
            s = dict(t=t, name=name, combine=draw(combine), orf=orf, p=P, **(grid or node_grid(draw)))
        else:
            P = {q: draw(pspec(q, kinds)) for q in ("log10_A", "gamma")}
            s = dict(t=t, name=name, combine=True, spec="powerlaw6", nc=draw(st.integers(1, 2)), T=draw(st.sampled_from([5.0, 7.0])), p=P)
        if subsets and npsr > 1 and draw(st.integers(0, 3)) == 0:
            s["only"] = sorted(draw(st.sets(st.integers(0, npsr - 1), min_size=1)))
        sigs.append(s)
    return sigs


@st.composite
def model(draw, npsr, kinds=MIX, gps=(0, 2), dets=(0, 1), commons=(0, 2), combine=st.booleans(), share_T=True, ecorr=True, tms=("tm", "tm", "mtm", "mtm", "no"), subsets=True, shuffle=True, gp_allowed=("rn", "rn", "rn", "dmgp", "chrom", "kern", "ikern"), common_allowed=("crn", "crn", "crn", "ckern", "ephgp"), samegrid=False):
    """samegrid: all Fourier signals on one frequency grid, all node kernels on one node grid (columns coincide)."""
    T = draw(st.sampled_from([5.0, 7.0])) if samegrid or (share_T and draw(st.booleans())) else None
    grid = node_grid(draw) if samegrid or (share_T and draw(st.booleans())) else None
    sigs = draw(white(kinds, ecorr=ecorr)) + draw(timing(tms))
    sigs += draw(private_gps(gps, kinds, combine, T, grid, allowed=gp_allowed)) + draw(deterministic(dets, kinds))
    sigs += draw(common(npsr, commons, tuple(k for k in kinds), combine, T, grid, subsets, allowed=common_allowed)) if commons[1] else []
    if len(sigs) > 2 and subsets and npsr > 1 and draw(st.integers(0, 4)) == 0:
        # a private signal present in some pulsars only
        k = draw(st.integers(1, len(sigs) - 1))
        if "only" not in sigs[k]:
            sigs[k]["only"] = sorted(draw(st.sets(st.integers(0, npsr - 1), min_size=1)))
    if samegrid:
        nc = draw(st.integers(1, 3))
        for s in sigs:
            if s["t"] in ("rn", "crn", "dmgp") and s["spec"] not in ("free", "tproc"):
                for k in ("logf", "fmin", "fmax", "modes"):
                    s.pop(k, None)
                s["T"] = T
                if s["t"] != "rn" or draw(st.booleans()):
                    s["nc"] = nc
    if shuffle:
        order = draw(st.permutations(list(range(len(sigs)))))
        sigs = [sigs[i] for i in order]
    share(draw, sigs)
    return {"signals": sigs}


def share(draw, sigs):
    """Sometimes let two signals use one instantiated parameter."""
    if draw(st.integers(0, 3)) != 0:
        return
    cands = [(s, q) for s in sigs for q, v in s.get("p", {}).items() if q in ("log10_A", "gamma") and v[0] == "free"]
    if len(cands) >= 2:
        q = draw(st.sampled_from(["log10_A", "gamma"]))
        for s, qq in cands:
            if qq == q:
                s["p"][q] = ["shared", "shr_" + q]
    # any parameter given as an object: one for all pulsars and selection groups
    names = sorted({q for s in sigs for q, v in s.get("p", {}).items() if v[0] == "free" and q not in ("log10_rho", "alphas")})
    if names and draw(st.booleans()):
        q = draw(st.sampled_from(names))
        for s in sigs:
            if s.get("p", {}).get(q, [""])[0] == "free":
                s["p"][q] = ["shared", "shr_" + q]


class Defaults(object):
    """Constants set after construction: values on demand, remembering the names that were needed."""

    def __init__(self, seed, pick=0):
        self.seed, self.pick, self.names = seed, pick, set()

    def __getitem__(self, name):
        self.names.add(name)
        return models.value_for(name, None, self.seed, self.pick)

    def dict(self):
        return {n: self[n] for n in sorted(self.names)}


def has_common(sigs):
    return any(s["t"] in ("crn", "ckern", "ephgp") for s in sigs)


def partition_ok(model, npsr):
    """The documented domain of the partition inverse: every common signal in all pulsars, same (diagonal-prior) basis."""
    cs = [s for s in model["signals"] if s["t"] in ("crn", "ckern", "ephgp")]
    cs2 = [s for s in cs if len(s.get("only", range(npsr))) > 1]
    if not cs2:
        return True
    if any(s["t"] == "ckern" for s in cs2):
        return False
    if len(cs2) == 1:
        # private dense priors must not touch the common columns
        return not any(s["t"] in ("ikern",) and s["combine"] and cs2[0]["t"] == "ckern" for s in model["signals"])
    key = [(s["t"], s["nc"], s["T"], s.get("logf"), s.get("fmin"), s.get("fmax"), tuple(s.get("modes") or []), s.get("combine"), tuple(s.get("only", range(npsr)))) for s in cs2]
    return len(set(key)) == 1 and all(s.get("combine") for s in cs2)
