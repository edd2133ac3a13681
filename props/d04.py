"""D04: the wideband timing model is the exact joint likelihood of TOAs and DMs."""
import numpy as np
from hypothesis import strategies as st

from pbt import gen, models, synth
from pbt.core import Prop, Sub
from pbt.helpers import PHICOND_MAX, close, ll_tol, need

DAY, K = 86400.0, 2.41e-4
RNG = dict(dmefac=(0.4, 2.5), log10_dmequad=(-4.5, -3.0), dmjump=(-3e-3, 3e-3))
KINDS = ("free", "free", "const", "later", "shared")


@st.composite
def dmspec(draw, large=False):
    return dict(
        n=draw(st.integers(8, 14) if large else st.integers(1, 4)),
        edge=draw(st.booleans()),  # interval borders exactly at observing times
        shuffled=draw(st.booleans()),
        contiguous=draw(st.booleans()),
        dm=draw(st.sampled_from([2.6, 13.3, 71.0, 297.5])),
        err=draw(st.sampled_from([-3.0, -4.0, -5.0])),
        tied=draw(st.booleans()),
        at=draw(st.integers(0, 5)),
        seed=draw(gen.SEEDS),
    )


def add_dm(psr, w):
    """DM measurements with intervals [R1, R2) and one timing-model column per interval."""
    rng = np.random.default_rng([w["seed"], len(psr.toas)])
    n = len(psr.toas)
    psr.dm = w["dm"]
    dm = w["dm"] + 3 * 10 ** w["err"] * rng.normal(size=n)
    err = 10 ** (w["err"] + (0.0 if w["tied"] else rng.uniform(-0.5, 0.5, n))) * np.ones(n)
    psr.flags["pp_dm"] = np.array(["%.12f" % x for x in dm])
    psr.flags["pp_dme"] = np.array(["%.6e" % x for x in err])
    mjd = psr.stoas / DAY
    s = np.sort(mjd)
    gaps = [i for i in range(1, n) if s[i] - s[i - 1] > 1.0]
    cut = sorted(int(x) for x in rng.permutation(gaps)[: w["n"] - 1]) if gaps else []
    lo = [s[0] if w["edge"] else s[0] - 0.5] + [s[i] if w["edge"] else 0.5 * (s[i] + s[i - 1]) for i in cut]
    hi = [lo[k + 1] if w["contiguous"] else s[i - 1] + 0.25 for k, i in enumerate(cut)] + [s[-1] + 0.5]
    order = rng.permutation(len(lo)) if w["shuffled"] else np.arange(len(lo))
    psr.dmx, cols, pars = {}, [], []
    for j, i in enumerate(order):
        key = "DMX_%04d" % (j + 1)
        psr.dmx[key] = dict(DMX=float(2 * 10 ** w["err"] * rng.normal()), DMXerr=1e-4, DMXR1=float(lo[i]), DMXR2=float(hi[i]), DMXEP=float(0.5 * (lo[i] + hi[i])), fit=True)
        cols.append(((lo[i] <= mjd) & (mjd < hi[i])) / (K * psr.freqs**2))
        pars.append(key)
    # the columns of the intervals anywhere among the others
    at = min(w["at"], psr.Mmat.shape[1])
    psr.Mmat = np.hstack([psr.Mmat[:, :at], np.array(cols).T, psr.Mmat[:, at:]])
    psr.fitpars = psr.fitpars[:at] + pars + psr.fitpars[at:]
    if "DM1" in psr.fitpars:  # degenerate with the intervals
        keep = [k for k, p in enumerate(psr.fitpars) if p != "DM1"]
        psr.Mmat, psr.fitpars = psr.Mmat[:, keep], [psr.fitpars[k] for k in keep]
    return psr


@st.composite
def case(draw, large=False):
    n = draw(st.integers(1, 2 if large else 3))
    psrs = [draw(gen.psr_spec(index=i, nep=(5, 9), orders=("sorted", "shuffled"), ntm=(1, 3))) for i in range(n)]
    m = draw(gen.model(n, gps=(0, 2), commons=(0, 1), tms=("no",), gp_allowed=("rn", "rn", "dmgp", "kern"), subsets=False))
    k = lambda: [draw(st.sampled_from(KINDS)), draw(st.integers(0, 9))]
    return dict(
        psrs=psrs,
        dms=[draw(dmspec(large)) for _ in range(n)],
        model=m,
        sel=draw(st.sampled_from(gen.SELS)),
        jsel=draw(st.sampled_from(gen.SELS[1:])),
        dmefac=k(),
        log10_dmequad=draw(st.sampled_from([None, 1])) and k(),
        dmjump=draw(st.sampled_from([None, 1, 1])) and k(),
        ref=draw(st.sampled_from([None, None, 0, 1])),
        name=draw(st.sampled_from([None, "wbtm"])),
        at=draw(st.integers(0, 5)),
        vs=draw(gen.SEEDS),
        steps=draw(st.lists(st.tuples(st.integers(0, 2), st.booleans()).map(list), min_size=1, max_size=3)),
    )


def val(seed, q, name, k):
    lo, hi = RNG[q]
    return float(lo + (hi - lo) * models._u(seed, name, k))


def run(case):
    from enterprise.signals import gp_signals, parameter, signal_base

    psrs = [add_dm(synth.make_psr(s), w) for s, w in zip(case["psrs"], case["dms"])]
    shared = {}
    models._SHARED.clear()

    def how(q):
        k = case[q]
        if k is None:
            return None
        if k[0] == "const":
            return parameter.Constant(val(case["vs"], q, "c_" + q, k[1]))
        if k[0] == "later":
            return parameter.Constant()
        if k[0] == "shared":
            return shared.setdefault(q, parameter.Uniform(-100, 100)("all_" + q))
        return parameter.Uniform(-100, 100)

    labels_all = sorted(set().union(*[set(models.ref_selection(case["jsel"], p)) for p in psrs]))
    ref_label = None if case["ref"] is None else labels_all[case["ref"] % len(labels_all)]
    kw = {} if case["name"] is None else {"name": case["name"]}
    wb = gp_signals.WidebandTimingModel(
        dmefac=how("dmefac"), log10_dmequad=how("log10_dmequad"), dmjump=how("dmjump"), selection=models.real_selection(case["sel"]), dmjump_selection=models.real_selection(case["jsel"]), dmjump_ref=ref_label, **kw
    )
    metas = [models.real_signal(s) for s in case["model"]["signals"]]
    at = min(case["at"], len(metas))
    coll = models.add_all(metas[:at] + [wb] + metas[at:])
    pta = signal_base.PTA([coll(p) for p in psrs])

    # names of the DM parameters
    free, later = {}, {}
    names = []
    for p in psrs:
        d = {}
        for q, sel in (("dmefac", case["sel"]), ("log10_dmequad", case["sel"]), ("dmjump", case["jsel"])):
            if case[q] is None:
                continue
            for key, mask in models.ref_selection(sel, p).items():
                nm = models.join(p.name, key, q)
                if q == "dmjump" and ref_label is not None and key == ref_label:
                    d[q, key] = (mask, 0.0)
                elif case[q][0] == "const":
                    d[q, key] = (mask, val(case["vs"], q, "c_" + q, case[q][1]))
                else:
                    if case[q][0] == "later":
                        later[nm] = q
                    elif case[q][0] == "shared":
                        nm = "all_" + q
                        free[nm] = q
                    else:
                        free[nm] = q
                    d[q, key] = (mask, nm)
        names.append(d)
    got = set(pta.param_names)
    mine = {x for x in got if x.endswith(("dmefac", "dmequad", "dmjump"))}
    need(mine == set(free), "DM parameters %s instead of %s", sorted(mine), sorted(free))
    dflt = None
    done = False
    for step, (pick, renew) in enumerate(case["steps"]):
        theta = {p.name: val(case["vs"], free[p.name], p.name, pick) if p.name in free else models.value_for(p.name, p.size, case["vs"], pick) for p in pta.params}
        defaults = gen.Defaults(case["vs"], 7)
        ref = models.RefModel(case["model"], psrs, theta, defaults)
        if dflt is None or renew:
            dflt = {n: val(case["vs"], q, n, 50 + step) for n, q in later.items()}
            if dflt or defaults.names:
                pta.set_default_params(dict(defaults.dict(), **dflt))
        look = dict(dflt, **theta)
        # extended data: residuals and DM measurements relative to the reference DM of their interval
        N = ref.off[-1]
        C = np.zeros((2 * N, 2 * N))
        C[:N, :N] = ref.C
        y = np.concatenate([ref.r, np.zeros(N)])
        Ms, kdm = [], 0
        worst = 1.0
        for i, (p, d) in enumerate(zip(psrs, names)):
            rows = slice(ref.off[i], ref.off[i + 1])
            n = len(p.toas)
            dm, err = p.flags["pp_dm"].astype(float), p.flags["pp_dme"].astype(float)
            efac, eq2, jump = np.zeros(n), np.zeros(n), np.zeros(n)
            for (q, key), (mask, v) in d.items():
                v = look[v] if isinstance(v, str) else v
                if q == "dmefac":
                    efac[mask] += v
                elif q == "log10_dmequad":
                    eq2[mask] += 10.0 ** (2 * v)
                else:
                    jump[mask] += v
            dme = efac * np.sqrt(err**2 + eq2)
            dmj = dm + jump
            mjd = p.stoas / DAY
            mean, mde, base = np.zeros(n), np.zeros(n), np.zeros(n)
            chi2m = 0.0
            for key, x in p.dmx.items():
                w = (x["DMXR1"] <= mjd) & (mjd < x["DMXR2"])
                base[w] = p.dm + x["DMX"]
                s = 1 / np.sum(dme[w] ** -2.0)
                mean[w], mde[w] = np.sum(dmj[w] / dme[w] ** 2) * s, np.sqrt(s)
                chi2m += (mean[w][0] - base[w][0]) ** 2 / s
                col = np.zeros((2 * N, 1))
                col[rows, 0] = w / (K * p.freqs**2)
                col[N + ref.off[i] : N + ref.off[i + 1], 0] = w
                Ms.append(col)
                kdm += 1
            for j, fp in enumerate(p.fitpars):
                if not fp.startswith("DMX_"):
                    col = np.zeros((2 * N, 1))
                    col[rows, 0] = p.Mmat[:, j]
                    Ms.append(col)
            y[N + ref.off[i] : N + ref.off[i + 1]] = dmj - base
            C[N + ref.off[i] : N + ref.off[i + 1], N + ref.off[i] : N + ref.off[i + 1]] = np.diag(dme**2)
            worst = max(worst, abs(p.dm) / dme.min())
            sig = pta.signals[p.name + "_" + (case["name"] or "wideband_timing_model")]
            sc = np.abs(dm) + np.abs(p.dm)
            close(sig.get_dm(theta), dmj, "DM measurements of %s" % p.name, rtol=1e-13, scale=sc)
            close(sig.get_dme(theta), dme, "DM errors of %s" % p.name, rtol=1e-11)
            close(sig.get_mean_dm(theta), mean, "mean DM of %s" % p.name, rtol=1e-13 * n, scale=sc)
            close(sig.get_mean_dme(theta), mde, "error of the mean DM of %s" % p.name, rtol=1e-11)
            close(sig.get_delta_dm(theta), dmj - base, "DM differences of %s" % p.name, rtol=1e-13, scale=sc)
            close(sig.get_delta_dm(theta, use_mean_dm=True), mean - base, "mean DM differences of %s" % p.name, rtol=1e-13 * n, scale=sc)
            chi2 = np.sum(((dmj - base) / dme) ** 2)
            close(sig.get_dm_chi2(theta), chi2, "DM chi-square", rtol=1e-9, atol=1e-12 * sc.max() / dme.min() * np.sqrt(chi2 * n))
            close(sig.get_dm_chi2(theta, use_mean_dm=True), chi2m, "mean DM chi-square", rtol=1e-9, atol=1e-12 * sc.max() / mde.min() * np.sqrt((chi2m + 1e-6) * n))
            dl = (mean - base) / (K * p.freqs**2)
            close(pta.get_delay(theta)[i] - ref.parts[i].delay, dl, "DM delay", rtol=1e-9, scale=sc / (K * p.freqs**2) * 1e-4 + np.abs(ref.parts[i].delay))
        # put DM measurements on the scale of the TOA errors
        u = 1e-6
        sdm = np.concatenate([np.ones(N), u / np.sqrt(np.diag(C)[N:])])
        Cs, ys, M = C * np.outer(sdm, sdm), y * sdm, np.hstack(Ms) * sdm[:, None]
        ext = models.RefModel.__new__(models.RefModel)
        ext.C, ext.r, ext.M, ext.parts, ext.pos = Cs, ys, M, ref.parts, ref.pos
        v, scale, cond = ext.loglike()
        v += np.sum(np.log(sdm)) + 0.5 * kdm * np.log(models.IMPROPER)
        if cond > 1e10 or ref.phicond() > PHICOND_MAX:
            continue
        done = True
        scale += abs(np.sum(np.log(sdm)))
        # rounding of mean DM enters the residuals
        tol = 3 * ll_tol(ref) * scale + 1e-13 * worst * scale
        meths = ["cliques", "sparse"] + (["partition"] if gen.partition_ok(case["model"], len(psrs)) else [])
        for meth in meths:
            try:
                lnl = pta.get_lnlikelihood(theta, phiinv_method=meth)
            except NotImplementedError:
                continue
            need(abs(lnl - v) <= tol, "%s: log-likelihood %r, joint density of TOAs and DMs %r (tolerance %r)", meth, float(lnl), v, tol)
    lab = ["jumps" if case["dmjump"] else "no jumps", "equad" if case["log10_dmequad"] else "no equad", "reference jump" if ref_label else "", "sel " + case["sel"]] + sorted({s["t"] for s in case["model"]["signals"]})
    return {"nontrivial": done, "labels": [x for x in lab if x]}


# --------------------------------------------------------------------------- refusals


@st.composite
def refuse_case(draw):
    return dict(psr=draw(gen.psr_spec(nep=(5, 8), ntm=(1, 3))), dms=dict(draw(dmspec()), n=draw(st.integers(2, 4)), contiguous=True), what=draw(st.sampled_from(["none", "gap", "overlap", "shift", "fit", "DM", "jump"])), which=draw(st.integers(0, 3)))


def run_refuse(case):
    from enterprise.signals import gp_signals, parameter, signal_base, white_signals

    psr = add_dm(synth.make_psr(case["psr"]), case["dms"])
    keys = sorted(psr.dmx, key=lambda k: psr.dmx[k]["DMXR1"])
    mjd = psr.stoas / DAY
    what = case["what"]
    kw = dict(dmjump=None)
    if what == "gap":
        psr.dmx[keys[0]]["DMXR1"] = float(np.sort(mjd)[0]) + 1e-3
        if case["which"] % 2:
            psr.dmx[keys[0]]["DMXR2"] = psr.dmx[keys[0]]["DMXR1"]
    elif what == "overlap" and len(keys) > 1:
        psr.dmx[keys[0]]["DMXR2"] = psr.dmx[keys[1]]["DMXR1"] + 1.0
    elif what == "shift" and len(keys) > 1:  # one TOA without an interval, another one with two
        first = np.sort(mjd)
        psr.dmx[keys[0]]["DMXR1"] = 0.5 * (first[0] + first[1])
        second = np.sort(mjd[(mjd >= psr.dmx[keys[1]]["DMXR1"])])
        nlost = np.sum(mjd < psr.dmx[keys[0]]["DMXR1"])
        psr.dmx[keys[0]]["DMXR2"] = 0.5 * (second[nlost - 1] + second[nlost]) if len(second) > nlost else second[-1] + 0.1
    elif what == "fit":
        psr.dmx[keys[case["which"] % len(keys)]]["fit"] = False
    elif what == "DM":
        psr.fitpars = psr.fitpars + ["DM"]
        psr.Mmat = np.hstack([psr.Mmat, (1 / (K * psr.freqs**2))[:, None]])
    elif what == "jump":
        kw = {}  # one jump for all TOAs
    counts = sum(((x["DMXR1"] <= mjd) & (mjd < x["DMXR2"])).astype(int) for x in psr.dmx.values())
    bad = bool(np.any(counts != 1)) or what in ("fit", "DM", "jump")
    m = white_signals.MeasurementNoise(efac=parameter.Constant(1.0)) + gp_signals.WidebandTimingModel(dmefac=parameter.Constant(1.0), log10_dmequad=None, **kw)
    try:
        pta = signal_base.PTA([m(psr)])
        lnl = pta.get_lnlikelihood({})
        refused = False
    except ValueError:
        refused = True
    need(refused == bad, "a model with %s (TOAs in %s intervals) was %s", what, sorted(set(counts)), "refused" if refused else "accepted")
    if not bad:
        need(np.isfinite(lnl), "log-likelihood %r", lnl)
    return {"nontrivial": bad, "labels": [what]}


PROP = Prop(
    "D04",
    "arrays of 1-3 pulsars with wideband DM measurements (DM 2.6-300, errors 1e-5.5 to 1e-2.5), 1-4 DMX intervals in any order with borders between or exactly at observing times, DM error scaling, added "
    "noise and jumps by every selection (free, constant, deferred, shared, reference jump), together with random white-noise, ECORR, Gaussian-process, deterministic and common signals, at 1-3 points: likelihood "
    "against an extended dense Gaussian of residuals and DM measurements with flat DM and timing directions, and all summary quantities; models outside the domain must be refused; non-trivial: likelihood compared / refused",
    [Sub("joint", case, run, 4000, 100000), Sub("large", lambda: gen.bigger(case(large=True)), run, 300, 10000), Sub("refusals", refuse_case, run_refuse, 1500, 40000)],
    ["the design-matrix column of an interval is its dispersion delay per unit DM", "selections of DM error parameters cover all TOAs"],
)
