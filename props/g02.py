"""G02: explicit coefficients and marginalized coefficients describe the same model."""
import numpy as np
import scipy.linalg as sl
from hypothesis import strategies as st

from pbt import gen, models, synth
from pbt.core import Prop, Sub
from pbt.helpers import PHICOND_MAX, Case, close, labels, ll_tol, lnl, methods_for, need

PRIVATE = ("rn", "dmgp", "chrom", "kern", "ikern", "ecgp", "tm")


@st.composite
def case(draw, npsr=(1, 2), gps=(1, 3), commons=(0, 1), **kw):
    psrs = draw(gen.psr_specs(npsr, nep=(3, 6)))
    m = draw(gen.model(len(psrs), gps=gps, commons=commons, tms=("tm", "mtm", "no"), **kw))
    for s in m["signals"]:
        if s["t"] == "chrom" and s["p"]["idx"][0] == "later":
            s["p"]["idx"] = ["free"]  # coefficients need a basis that can be built at once
    cands = [i for i, s in enumerate(m["signals"]) if s["t"] in PRIVATE]
    coef = sorted(draw(st.sets(st.sampled_from(cands), min_size=1, max_size=2))) if cands else []
    return dict(psrs=psrs, model=m, vs=draw(gen.SEEDS), coef=coef, steps=draw(st.lists(st.tuples(st.integers(0, 2), st.sampled_from([0.0, 1.0, 1.0, 10.0])).map(list), min_size=1, max_size=3)))


def coef_names(psr, sig):
    """Names and sizes of the coefficient vectors of one signal in one pulsar, in the order of the basis."""
    keys = sorted(models.ref_selection(sig.get("sel", "none"), psr)) if sig["t"] != "tm" else [""]
    name = {"tm": "linear_timing_model", "ecgp": "basis_ecorr"}.get(sig["t"], sig.get("name"))
    return [models.join(psr.name, name, k, "coefficients") for k in keys]


def explicit_blocks(case, c, ref):
    """Basis (all TOAs x all coefficients), prior covariance (None: improper), names and slices of the explicit coefficients."""
    N = ref.off[-1]
    T, Phi, names, sizes, improper = [], [], [], [], 0
    for i, (psr, part) in enumerate(zip(c.psrs, ref.parts)):
        rows = slice(ref.off[i], ref.off[i + 1])
        for j in case["coef"]:
            sig = case["model"]["signals"][j]
            if i not in sig.get("only", [i]):
                continue
            if sig["t"] == "tm":
                blocks = [(part.M, np.zeros((part.M.shape[1],) * 2))]
                improper += part.M.shape[1]
            else:
                blocks = [(t, p) for s, t, p in part.gps if s is sig]
                n = len(coef_names(psr, sig))
                if len(blocks) == 1 and n > 1:
                    t, p = blocks[0]
                    w = t.shape[1] // n
                    blocks = [(t[:, a * w : (a + 1) * w], p[a * w : (a + 1) * w, a * w : (a + 1) * w]) for a in range(n)]
            for nm, (t, p) in zip(coef_names(psr, sig), blocks):
                full = np.zeros((N, t.shape[1]))
                full[rows] = t
                T.append(full)
                Phi.append((p, sig["t"] == "tm"))
                names.append(nm)
                sizes.append(t.shape[1])
    return T, Phi, names, sizes, improper


def run(case):
    if not case["coef"]:
        return {"nontrivial": False, "labels": ["nothing explicit"]}
    sigs = case["model"]["signals"]
    marg = Case(case)
    rest_model = {"signals": [s for i, s in enumerate(sigs) if i not in case["coef"]]}
    expl_model = {"signals": [dict(s, coef=True) if i in case["coef"] else s for i, s in enumerate(sigs)]}
    expl = models.Built(expl_model, marg.psrs).pta
    if marg.defaults.names:
        expl.set_default_params(marg.defaults.dict())
    T, Phi, names, sizes, improper = explicit_blocks(case, marg, marg.ref)
    if not names or 0 in sizes:
        return {"nontrivial": False, "labels": ["nothing explicit"]}
    off = np.concatenate([[0], np.cumsum(sizes)]).astype(int)
    free = {p.name: p.size for p in marg.pta.params}
    got = {p.name: p.size for p in expl.params}
    need({k: v for k, v in got.items() if k not in free} == dict(zip(names, sizes)), "coefficient parameters %s instead of %s", {k: v for k, v in got.items() if k not in free}, dict(zip(names, sizes)))
    need(set(free) <= set(got), "parameters %s lost", sorted(set(free) - set(got)))
    by_name = {p.name: p for p in expl.params}
    rng = np.random.default_rng([case["vs"], 17])
    nontrivial, seen = False, set()
    for pick, amp in case["steps"]:
        theta = models.values_for(marg.pta, case["vs"], pick)
        ref = models.RefModel(case["model"], marg.psrs, theta, marg.defaults)
        rest = models.RefModel(rest_model, marg.psrs, theta, marg.defaults)
        T, Phi, _, _, _ = explicit_blocks(case, marg, ref)
        B = np.hstack(T)
        # conditional distribution of the coefficients: everything else marginalized
        u = 1e-6
        L = sl.cholesky(rest.C / u**2, lower=True)
        cs = np.sqrt((B**2).sum(axis=0))
        if np.any(cs == 0):
            return {"nontrivial": False, "labels": ["empty column"]}
        W = sl.solve_triangular(L, B / cs, lower=True)
        w = sl.solve_triangular(L, rest.r / u, lower=True)
        if rest.M.shape[1]:
            Q = np.linalg.qr(sl.solve_triangular(L, rest.M / np.sqrt((rest.M**2).sum(axis=0)), lower=True))[0]
            W, w = W - Q @ (Q.T @ W), w - Q @ (Q.T @ w)
        n = B.shape[1]
        prec = W.T @ W
        worst = 1.0
        for k, (P, flat) in enumerate(Phi):
            s = slice(off[k], off[k + 1])
            if not flat:
                d = np.sqrt(np.diag(P))
                S = P / np.outer(d, d)
                worst = max(worst, np.linalg.cond(S))
                d = d * cs[s] / u
                prec[s, s] += np.linalg.inv(S) / np.outer(d, d)
        e = np.sqrt(np.diag(prec))
        E = prec / np.outer(e, e)
        cond = np.linalg.cond(E)
        val, scale, ccond = ref.loglike()
        rcond = rest.loglike()[2]
        if not cond < 1e8 or max(ccond, rcond) > 1e11 or max(ref.phicond(), worst) > PHICOND_MAX:
            continue
        LE = sl.cholesky(E, lower=True)
        mu = sl.cho_solve((LE, True), W.T @ w / e)
        z = rng.normal(size=n) * amp
        cc = (mu + sl.solve_triangular(LE.T, z, lower=False)) / e * u / cs
        lncond = -0.5 * z @ z - 0.5 * n * np.log(2 * np.pi) + np.sum(np.log(np.diag(LE))) + np.sum(np.log(e * cs / u))
        params = dict(theta)
        for k, nm in enumerate(names):
            params[nm] = cc[off[k] : off[k + 1]].copy()
        # delay: everything else plus basis times coefficients
        delay = np.concatenate([np.broadcast_to(np.asarray(d, float), (len(p.toas),)) for d, p in zip(expl.get_delay(params), marg.psrs)])
        other = np.concatenate([p.delay for p in rest.parts])
        want = other + B @ cc
        close(delay, want, "delay", rtol=1e-9, scale=np.abs(other) + np.abs(B) @ np.abs(cc) + 1e-12)
        # log-prior of the coefficients
        lnprior = 0.0
        for k, (P, flat) in enumerate(Phi):
            x = cc[off[k] : off[k + 1]]
            if flat:
                one = 0.0
            else:
                d = np.sqrt(np.diag(P))
                S = P / np.outer(d, d)
                one = -0.5 * (x / d) @ np.linalg.solve(S, x / d) - 0.5 * np.linalg.slogdet(S)[1] - np.sum(np.log(d)) - 0.5 * len(x) * np.log(2 * np.pi)
            got1 = by_name[names[k]].get_logpdf(params=params)
            mag = abs(one) + 20.0 * len(x) + (0 if flat else (x / d) @ np.linalg.solve(S, x / d))
            need(np.ndim(got1) == 0 and abs(got1 - one) <= 1e-9 * worst * mag, "log-prior of %s is %r instead of %r", names[k], got1, one)
            if not flat:
                got2 = by_name[names[k]].get_pdf(params=params)
                need(abs(np.log(got2) - one) <= 1e-9 * worst * mag if 1e-290 < got2 < 1e290 else abs(one) > 600, "prior of %s is %r, logarithm should be %r", names[k], got2, one)
            lnprior += one
        flat = np.concatenate([np.zeros(0)] + [np.atleast_1d(theta[k]) for k in free])
        flatprior = -np.log(200.0) * len(flat) if np.all(np.abs(flat) <= 100) else -np.inf
        tot = expl.get_lnprior(params)
        magp = abs(lnprior) + abs(flatprior) + 50.0 * n
        need(tot == flatprior if np.isinf(flatprior) else abs(tot - lnprior - flatprior) <= 1e-9 * worst * magp, "get_lnprior is %r instead of %r", tot, lnprior + flatprior)
        # joint density = marginal likelihood x conditional density
        tol = max(1e-9 * cond, 3 * ll_tol(ref), 3 * ll_tol(rest), 1e-9 * worst)
        margin = val + 0.5 * improper * np.log(2 * np.pi * models.IMPROPER)
        for meth in methods_for(dict(case, model=expl_model)):
            lc = lnl(expl, params, meth)
            if lc is None:
                continue
            joint = lc + lnprior
            big = scale + abs(lc) + abs(lnprior) + abs(lncond) + z @ z
            need(abs(joint - lncond - margin) <= tol * big, "%s: joint density over conditional density gives %r, marginalized reference %r", meth, joint - lncond, margin)
            lm = lnl(marg.pta, theta, meth)
            need(abs(joint - lncond - lm - 0.5 * improper * np.log(2 * np.pi * models.IMPROPER)) <= 2 * tol * big, "%s: joint density over conditional density gives %r, marginalized model %r", meth, joint - lncond, lm)
        if all(v > 1 for v in sizes) and all(v is None or v > 1 for v in free.values()):
            xs = np.hstack([np.atleast_1d(params[p.name]) for p in expl.params])
            a, b = expl.get_lnlikelihood(xs), expl.get_lnlikelihood(params)
            need(abs(a - b) <= 1e-12 * abs(b), "vector and dictionary of parameters disagree: %r and %r", a, b)
        seen.add((pick, amp))
        nontrivial = True
    return {"nontrivial": nontrivial, "labels": labels(case) + ["explicit " + sigs[i]["t"] for i in case["coef"]] + (["several points"] if len(seen) > 1 else []) + ([] if nontrivial else ["ill-conditioned"])}


# --------------------------------------------------------------------------- common processes


@st.composite
def common_case(draw):
    psrs = draw(gen.psr_specs((1, 3), nep=(3, 6)))
    m = draw(gen.model(len(psrs), gps=(0, 2), commons=(1, 2), tms=("tm", "mtm", "no"), common_allowed=("crn",)))
    cs = [i for i, s in enumerate(m["signals"]) if s["t"] == "crn"]
    return dict(psrs=psrs, model=m, vs=draw(gen.SEEDS), coef=draw(st.sampled_from(cs)), kind=draw(st.sampled_from(["own", "vector"])), steps=draw(st.lists(st.integers(0, 2), min_size=1, max_size=3)))


def run_common(case):
    sigs = case["model"]["signals"]
    sig = sigs[case["coef"]]
    expl_model = {"signals": [dict(s, coef=case["kind"]) if i == case["coef"] else s for i, s in enumerate(sigs)]}
    marg = Case(case)
    b = models.Built(expl_model, marg.psrs)
    if marg.defaults.names:
        b.pta.set_default_params(marg.defaults.dict())
    rest_model = {"signals": [s for i, s in enumerate(sigs) if i != case["coef"]]}
    who = [i for i in range(len(marg.psrs)) if i in sig.get("only", [i])]
    names = {i: sig["name"] + "_vec" if case["kind"] == "vector" else marg.psrs[i].name + "_" + sig["name"] + "_coefficients" for i in who}
    got = {p.name: p.size for p in b.pta.params}
    free = {p.name: p.size for p in marg.pta.params}
    want = {n: 2 * sig["nc"] for n in names.values()}
    need({k: v for k, v in got.items() if k not in free} == want, "coefficient parameters %s instead of %s", {k: v for k, v in got.items() if k not in free}, want)
    rng = np.random.default_rng([case["vs"], 18])
    for pick in case["steps"]:
        theta = models.values_for(marg.pta, case["vs"], pick)
        rest = models.RefModel(rest_model, marg.psrs, theta, marg.defaults)
        params = {k: v for k, v in theta.items() if k in got}
        for n in sorted(set(names.values())):
            params[n] = 1e-6 * rng.normal(size=2 * sig["nc"])
        delay = b.pta.get_delay(params)
        for i, (psr, part) in enumerate(zip(marg.psrs, rest.parts)):
            d = np.broadcast_to(np.asarray(delay[i], float), (len(psr.toas),))
            add = models.ref_fourier(psr.toas, sig)[0] @ params[names[i]] if i in names else 0.0
            close(d, part.delay + add, "delay of %s" % psr.name, rtol=1e-9, scale=np.abs(part.delay) + 1e-5)
            part.r = part.r - add
        rest.r = np.concatenate([p.r for p in rest.parts])
        val, scale, cond = rest.loglike()
        if cond > 1e11 or rest.phicond() > PHICOND_MAX:
            continue
        for meth in ("cliques", "sparse"):
            v = lnl(b.pta, params, meth)
            need(v is not None and abs(v - val) <= 3 * ll_tol(rest) * scale, "%s: log-likelihood %r, reference %r", meth, v, val)
    return {"labels": labels(case) + [case["kind"]]}


# --------------------------------------------------------------------------- bases whose frequencies have parameters


@st.composite
def moving_case(draw):
    step = st.fixed_dictionaries(
        dict(
            q=st.sampled_from(["pdf", "logpdf", "lnprior", "delay", "ll"]),
            stretch=st.sampled_from([None, None, 0.7, 1.0, 1.6]),
            amp=st.sampled_from([None, None, -14.0, -13.0]),
            coef=st.sampled_from([None, None, 0, 1, 2]),
        )
    )
    return dict(
        psr=draw(gen.psr_spec(nep=(4, 7))),
        sel=draw(st.sampled_from(["none", "none", "backend", "half"])),
        nf=draw(st.integers(1, 4)),
        dense=draw(st.booleans()),
        two=draw(st.booleans()),
        steps=draw(st.lists(step, min_size=2, max_size=7)),
    )


def run_moving(case):
    from enterprise.signals import gp_signals, parameter, selections, signal_base, white_signals

    nf = case["nf"]

    def raw_basis(toas, stretch):
        f = np.repeat(np.arange(1, nf + 1) / (stretch * 1.3e8), 2)
        F = np.cos(2 * np.pi * f * toas[:, None] + np.tile([0.0, -np.pi / 2], nf))
        return F, f

    def raw_prior(f, log10_A):
        p = 10.0 ** (2 * log10_A) * (f * 1e8) ** -2.0
        if case["dense"]:
            g = np.exp(-np.abs(np.arange(len(f))[:, None] - np.arange(len(f))) * f[0] * 1e8)
            return g * np.sqrt(np.outer(p, p))
        return p

    @parameter.function
    def basis(toas, stretch=1.0):
        return raw_basis(toas, stretch)

    @parameter.function
    def prior(f, log10_A=-13.0):
        return raw_prior(f, log10_A)

    psr = synth.make_psr(case["psr"])
    sel = {"none": selections.no_selection, "backend": selections.by_backend, "half": selections.cut_half}[case["sel"]]
    U = parameter.Uniform
    model = white_signals.MeasurementNoise(efac=parameter.Constant(1.1))
    gps = ["g", "h"] if case["two"] else ["g"]
    for nm in gps:
        model = model + gp_signals.BasisGP(prior(log10_A=U(-16, -12)), basis(stretch=U(0.5, 2)), selection=selections.Selection(sel), coefficients=True, name=nm)
    pta = signal_base.PTA([model(psr)])
    pars = {p.name: p for p in pta.params}
    masks = {k: m for k, m in models.ref_selection(case["sel"], psr).items()}
    x, rng = {}, np.random.default_rng(case["psr"]["seed"])
    pre = {(g, k): models.join(psr.name, g, k) for g in gps for k in masks}
    for b in pre.values():
        x.update({b + "_stretch": 1.0, b + "_log10_A": -13.0, b + "_coefficients": 1e-7 * rng.normal(size=2 * nf)})
    need(set(pars) == set(x), "parameters %s instead of %s", sorted(pars), sorted(x))
    lists = [rng.normal(size=2 * nf) * 1e-7 for _ in range(3)]
    for n, stp in enumerate(case["steps"]):
        b = sorted(pre.values())[n % len(pre)]
        x = dict(x)
        if stp["stretch"]:
            x[b + "_stretch"] = stp["stretch"]
        if stp["amp"]:
            x[b + "_log10_A"] = stp["amp"]
        if stp["coef"] is not None:
            x[b + "_coefficients"] = lists[stp["coef"]].copy()
        want, delay = {}, np.zeros(len(psr.toas))
        for (g, k), q in pre.items():
            F, f = raw_basis(psr.toas[masks[k]], x[q + "_stretch"])
            P = raw_prior(f, x[q + "_log10_A"])
            P = P if P.ndim == 2 else np.diag(P)
            c = x[q + "_coefficients"]
            d = np.sqrt(np.diag(P))
            S = P / np.outer(d, d)
            want[q] = -0.5 * (c / d) @ np.linalg.solve(S, c / d) - 0.5 * np.linalg.slogdet(S)[1] - np.sum(np.log(d)) - 0.5 * len(c) * np.log(2 * np.pi)
            delay[masks[k]] += F @ c
        if stp["q"] in ("pdf", "logpdf"):
            for q, w in want.items():
                p = pars[q + "_coefficients"]
                got = p.get_logpdf(params=x) if stp["q"] == "logpdf" else p.get_pdf(params=x)
                if stp["q"] == "pdf":
                    if abs(w) > 600:
                        continue
                    got = np.log(got)
                need(abs(got - w) <= 1e-8 * (100 + abs(w)), "step %d: log-prior of the coefficients of %s is %r instead of %r", n, q, got, w)
        elif stp["q"] == "lnprior":
            w = sum(want.values()) + sum(np.log(1 / 1.5) + np.log(1 / 4.0) for _ in want)
            got = pta.get_lnprior(x)
            need(abs(got - w) <= 1e-8 * (100 + sum(abs(v) for v in want.values())), "step %d: get_lnprior is %r instead of %r", n, got, w)
        elif stp["q"] == "delay":
            close(np.asarray(pta.get_delay(x)[0]), delay, "step %d: delay" % n, rtol=1e-9, scale=1e-6)
        else:
            r, s = psr.residuals - delay, 1.1 * psr.toaerrs
            w = -0.5 * np.sum((r / s) ** 2) - np.sum(np.log(s))  # (without 2 pi, as everywhere in the library)
            got = pta.get_lnlikelihood(x)
            need(abs(got - w) <= 1e-8 * (100 + abs(w) + np.sum((r / s) ** 2)), "step %d: log-likelihood %r instead of %r", n, got, w)
    return {"nontrivial": any(t["stretch"] for t in case["steps"]), "labels": [case["sel"], "dense" if case["dense"] else "diagonal"] + sorted({t["q"] for t in case["steps"]})}


PROP = Prop(
    "G02",
    "random models in which one or two of the Gaussian processes (any basis, diagonal or dense prior, selections, varying chromatic index, timing model, basis ECORR) have explicit coefficients, "
    "evaluated at 1-3 points: delays, coefficient priors and the ratio of joint to conditional density against an independent dense computation and against the marginalized model; "
    "non-trivial: at least one well-conditioned point with explicit coefficients",
    [
        Sub("single", lambda: case((1, 1), commons=(0, 0)), run, 1200, 40000),
        Sub("array", lambda: case((2, 3), commons=(0, 2)), run, 700, 25000),
        Sub("common", common_case, run_common, 500, 20000),
        Sub("moving", moving_case, run_moving, 1500, 50000),
        Sub("large", lambda: gen.bigger(case((1, 2), commons=(0, 1))), run, 300, 12000),
    ],
    ["bases with columns of zeros and empty coefficient vectors are not generated", "the prior of explicit coefficients of common processes is not implemented in the library: only their delay and likelihood are checked"],
)
