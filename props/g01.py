"""G01: conditional coefficients have the exact conditional mean and covariance."""
import numpy as np
import scipy.linalg as sl
from hypothesis import strategies as st
from scipy import stats

from pbt import gen
from pbt.core import HarnessError, Prop, Sub
from pbt.helpers import Case, close, labels, methods_for, need

DRAWS = 150
P_MIN = 1e-11


@st.composite
def case(draw, npsr=(1, 3), gps=(0, 3), commons=(0, 2), **kw):
    psrs = draw(gen.psr_specs(npsr, nep=(3, 5)))
    # distinct columns, as the documentation asks: no sharing, or signals that do not share
    m = draw(gen.model(len(psrs), gps=gps, commons=commons, combine=st.just(False), tms=("tm", "tm", "no"), **kw))
    eph = [s for s in m["signals"] if s["t"] == "ephgp"]
    m["signals"] = [s for s in m["signals"] if s["t"] != "ephgp" or s is eph[0]]
    return dict(
        psrs=psrs,
        model=m,
        vs=draw(gen.SEEDS),
        method=draw(st.sampled_from(["cliques", "sparse", "partition", "default"])),
        sparse=draw(st.booleans()),
        n=draw(st.sampled_from([1, 1, 2, 3])),
        tmpar=draw(st.integers(-2, 6)),
        distribution=draw(st.integers(0, 5)) == 0,
    )


def signal_id(sig):
    if sig["t"] == "tm":
        return "linear_timing_model" + ("_svd" if sig["svd"] else "")
    return "basis_ecorr" if sig["t"] == "ecgp" else sig["name"]


class Conditional(object):
    """Joint conditional distribution of all coefficients, written out densely."""

    def __init__(self, c):
        ref, model = c.ref, c.case["model"]
        N = ref.off[-1]
        self.distinct = True
        cols, names, priors = [], [], []  # one block per (pulsar, signal)
        where = {}
        for i, (psr, part) in enumerate(zip(c.psrs, ref.parts)):
            s = slice(ref.off[i], ref.off[i + 1])
            merged = {}  # one coefficient vector per signal: the groups of a selection side by side
            for sig, T, Phi in part.gps:
                merged.setdefault(id(sig), (sig, [], []))
                merged[id(sig)][1].append(T)
                merged[id(sig)][2].append(Phi)
            blocks = [(sig, np.hstack(T), sl.block_diag(*Phi), None) for sig, T, Phi in merged.values()]
            blocks += [(sig, T, Phi, k) for k, (sig, T, Phi) in part.commons.items()]
            if part.M.shape[1]:
                tm = [sig for sig in model["signals"] if sig["t"] == "tm" and i in sig.get("only", [i])][0]
                blocks.append((tm, part.M, np.eye(part.M.shape[1]) * 1e40, None))
            for sig, T, Phi, k in blocks:
                full = np.zeros((N, T.shape[1]))
                full[s] = T
                cols.append(full)
                names.append(psr.name + "_" + signal_id(sig))
                priors.append(Phi)
                if k is not None:
                    where.setdefault(k, []).append((len(cols) - 1, i))
            # the quantization basis has no combine option: its columns must be distinct from the others
            seen = {}
            for b, (sig, T, Phi, k) in enumerate(blocks):
                for col in T.T:
                    seen.setdefault(col.tobytes(), set()).add((b, sig["t"]))
            self.distinct &= all(len(v) == 1 or all(t != "ecgp" for _, t in v) for v in seen.values())
        self.names = names
        self.sizes = [t.shape[1] for t in cols]
        self.T = np.hstack(cols) if cols else np.zeros((N, 0))
        off = np.concatenate([[0], np.cumsum(self.sizes)]).astype(int)
        self.off = off
        n = off[-1]
        Phi = np.zeros((n, n))
        for b, P in enumerate(priors):
            Phi[off[b] : off[b + 1], off[b] : off[b + 1]] = P
        from pbt import models

        for k, who in where.items():
            sig = ref.parts[who[0][1]].commons[k][0]
            P = ref.parts[who[0][1]].commons[k][2]
            for b1, i in who:
                for b2, j in who:
                    g = models.ref_orf(sig["orf"], ref.pos[i], ref.pos[j], i == j)
                    Phi[off[b1] : off[b1 + 1], off[b2] : off[b2 + 1]] = g * P
        self.n = n
        if n == 0:
            return
        d = np.sqrt(np.diag(Phi))
        L = sl.cholesky(ref.white, lower=True)
        W = sl.solve_triangular(L, self.T, lower=True)
        w = sl.solve_triangular(L, ref.r, lower=True)
        # Sigma in units of the prior widths, with the inverse taken where it is well scaled
        S = Phi / np.outer(d, d)
        self.prior_cond = np.linalg.cond(S)
        Sigma = W.T @ W + np.linalg.inv(S) / np.outer(d, d)
        Sigma = (Sigma + Sigma.T) / 2
        e = np.sqrt(np.diag(Sigma))
        self.raw_cond = np.linalg.cond(Sigma)
        self.e, E = e, Sigma / np.outer(e, e)
        self.cond = np.linalg.cond(E)
        if not np.isfinite(self.cond) or self.cond > 1e9:
            self.mean = None
            return
        self.L = sl.cholesky(E, lower=True)
        y = sl.cho_solve((self.L, True), W.T @ w / e)
        self.mean = y / e
        self.size = np.linalg.norm(y) + np.linalg.norm(sl.solve_triangular(self.L, W.T @ w / e, lower=True)) + 1.0

    def whiten(self, b):
        """Differences in units of the conditional standard deviations, decorrelated."""
        return self.L.T @ ((b - self.mean).T * self.e[:, None] if b.ndim > 1 else (b - self.mean) * self.e)


def joined(cond, d, what, suffix):
    want = {n + suffix for n in cond.names}
    got = {k for k in d if k in want or k not in d.get("__params__", {})}
    need(want <= set(d), "%s: missing %s", what, sorted(want - set(d)))
    out = []
    for n, s in zip(cond.names, cond.sizes):
        v = np.asarray(d[n + suffix])
        need(v.shape == (s,), "%s: %s has shape %s instead of (%d,)", what, n, v.shape, s)
        out.append(v)
    return np.concatenate(out) if out else np.zeros(0)


def check_mean(cond, b, what, extra=1.0):
    z = cond.whiten(b)
    tol = 1e-12 * max(cond.cond, cond.prior_cond, 1e4) * extra * cond.size
    need(np.all(np.isfinite(z)), "%s is not finite", what)
    need(np.max(np.abs(z)) <= tol + 1e-7, "%s is %.3g conditional standard deviations off", what, np.max(np.abs(z)))


def check_draws(cond, B, what):
    z = cond.whiten(B)  # coefficients x draws
    k, n = z.shape
    for i in range(k):
        p = stats.kstest(z[i], "norm")[1]
        need(p > P_MIN, "%s: decorrelated component %d does not have unit variance and zero mean (p=%.1e, mean %.3g, variance %.3g)", what, i, p, z[i].mean(), z[i].var())
    x = np.sum(z**2)
    p = min(stats.chi2.cdf(x, k * n), stats.chi2.sf(x, k * n))
    need(p > P_MIN, "%s: %d draws of %d coefficients have total variance %.4g times the conditional one", what, n, k, x / k / n)
    R = (z @ z.T) / n - np.eye(k)
    need(np.max(np.abs(R) * np.sqrt(n)) < 11, "%s: the conditional covariance is wrong (largest excess %.1f sigma)", what, np.max(np.abs(R)) * np.sqrt(n))


def prepare(case):
    c = Case(case)
    sigs = c.built.model["signals"]
    if any(s["t"] not in ("mn", "tneq", "wn", "ecorr", "det", "bwm") for s in sigs) and any(np.any(np.diag(p.K + np.diag(p.nvar)) <= 0) for p in c.ref.parts):
        raise HarnessError("no noise")
    return c, Conditional(c)


def run(case):
    """ConditionalGP."""
    from enterprise.signals import utils

    c, cond = prepare(case)
    if cond.n == 0 or not cond.distinct:
        return {"nontrivial": False, "labels": ["no basis" if cond.n == 0 else "columns not distinct"]}
    if cond.mean is None or cond.prior_cond > 1e7:
        return {"nontrivial": False, "labels": ["ill-conditioned"]}
    kw = {}
    if case["method"] != "default":
        if case["method"] not in methods_for(case):
            return {"nontrivial": False, "labels": ["partition outside its domain"]}
        kw["phiinv_method"] = case["method"]
    tm = [s for s in case["model"]["signals"] if s["t"] == "tm" and s.get("excl") is None]
    tmpar = None
    if case["tmpar"] >= 0 and tm and len(c.psrs) == 1:
        pars = list(c.psrs[0].fitpars)
        tmpar = pars[case["tmpar"] % len(pars)]
        kw.update(tm_params=[tmpar], psr=c.psrs[0])
    gp = utils.ConditionalGP(c.pta, **kw)
    p0 = {k: np.array(v, copy=True) for k, v in c.params.items()}
    mean = gp.get_mean_coefficients(c.params)
    b = joined(cond, mean, "mean coefficients", "_coefficients")
    check_mean(cond, b, "the mean of the coefficients")
    proc = gp.get_mean_processes(c.params)
    need(set(cond.names) <= set(proc), "mean processes: missing %s", sorted(set(cond.names) - set(proc)))
    expected = {n + "_coefficients" for n in cond.names}
    if tmpar:
        key = c.psrs[0].name + "_" + tmpar
        j = list(c.psrs[0].fitpars).index(tmpar)
        tmname = c.psrs[0].name + "_" + signal_id(tm[0])
        close(mean[key + "_coefficients"], mean[tmname + "_coefficients"][j], "coefficient of timing parameter %s" % tmpar, rtol=1e-12)
        expected.add(key + "_coefficients")
        M = cond.T[:, cond.off[cond.names.index(tmname)] : cond.off[cond.names.index(tmname) + 1]]
        close(proc[key], M[:, j] * mean[key + "_coefficients"], "process of timing parameter %s" % tmpar, rtol=1e-9, atol=1e-9 * np.max(np.abs(M[:, j] * mean[key + "_coefficients"])))
    need(set(mean) == expected, "mean coefficients under %s instead of %s", sorted(mean), sorted(expected))
    pieces = list(c.ref.off)
    for k, n in enumerate(cond.names):
        T = cond.T[:, cond.off[k] : cond.off[k + 1]]
        i = [i for i, p in enumerate(c.psrs) if p.name == n.split("_")[0]][0]
        T = T[pieces[i] : pieces[i + 1]]
        want = T @ b[cond.off[k] : cond.off[k + 1]]
        close(proc[n], want, "mean process of %s" % n, rtol=0, atol=1e-9 * (np.abs(T) @ np.abs(b[cond.off[k] : cond.off[k + 1]])).max(initial=0) + 1e-30)
    np.random.seed(case["vs"] % 2**32)
    n = DRAWS if case["distribution"] else case["n"]
    draws = gp.sample_coefficients(c.params, n=n)
    need(len(draws) == n, "%d draws instead of %d", len(draws), n)
    for d in draws[:3]:
        need(set(d) == expected, "draws under %s", sorted(d))
    B = np.array([joined(cond, d, "draw", "_coefficients") for d in draws])
    # any single draw lies within a few standard deviations
    z = cond.whiten(B)
    need(np.all(np.abs(z) < 9), "a draw is %.1f conditional standard deviations from the mean", np.max(np.abs(z)))
    if n > 1:
        need(not np.array_equal(B[0], B[1]), "two draws are equal")
    if case["distribution"]:
        check_draws(cond, B, "sample_coefficients")
    np.random.seed(case["vs"] % 2**32)
    procs = gp.sample_processes(c.params, n=n if case["distribution"] else 1)
    if case["distribution"]:
        # projections of the processes: means and variances of T b
        cov = np.linalg.solve(cond.L.T, np.linalg.solve(cond.L, np.eye(cond.n)).T * 0 + np.linalg.solve(cond.L, np.eye(cond.n)))
        cov = cov / np.outer(cond.e, cond.e)
        for k, nm in enumerate(cond.names):
            s = slice(cond.off[k], cond.off[k + 1])
            i = [i for i, p in enumerate(c.psrs) if p.name == nm.split("_")[0]][0]
            T = cond.T[pieces[i] : pieces[i + 1], s]
            if T.shape[1] == 0:
                continue
            P = np.array([d[nm] for d in procs])
            sd = np.sqrt(np.maximum(np.einsum("ij,jk,ik->i", T, cov[s, s], T), 0))
            rows = sd > 1e-6 * np.max(sd, initial=1e-300)
            zz = (P - T @ cond.mean[s])[:, rows] / sd[rows]
            if cond.cond < 1e6:
                for q in range(zz.shape[1]):
                    pv = stats.kstest(zz[:, q], "norm")[1]
                    need(pv > P_MIN, "sample_processes of %s does not have the conditional distribution (p=%.1e)", nm, pv)
    need(set(p0) == set(c.params) and all(np.array_equal(p0[k], c.params[k]) for k in p0), "the parameters were changed")
    lab = labels(case) + [case["method"]] + (["distribution"] if case["distribution"] else []) + (["timing parameter"] if tmpar else [])
    return {"nontrivial": len(cond.names) > 1 or case["distribution"], "labels": lab}


def run_get(case):
    """get_coefficients."""
    from enterprise.signals import utils

    c, cond = prepare(case)
    if cond.n == 0 or not cond.distinct:
        return {"nontrivial": False, "labels": ["no basis" if cond.n == 0 else "columns not distinct"]}
    if cond.mean is None or cond.prior_cond > 1e7 or cond.raw_cond > 1e12:
        return {"nontrivial": False, "labels": ["ill-conditioned"]}
    kw = {}
    if case["method"] != "default":
        if case["method"] not in methods_for(case):
            return {"nontrivial": False, "labels": ["partition outside its domain"]}
        kw["phiinv_method"] = case["method"]
    if case["sparse"]:
        kw["common_sparse"] = True
    extra = max(1.0, cond.raw_cond / cond.cond)
    mean = utils.get_coefficients(c.pta, dict(c.params), variance=False, **kw)
    names = {n + "_coefficients" for n in cond.names}
    need(set(mean) == names | set(c.params), "get_coefficients returns %s", sorted(set(mean) ^ (names | set(c.params))))
    need(all(np.array_equal(mean[k], c.params[k]) for k in c.params), "get_coefficients changed parameter values")
    check_mean(cond, joined(cond, mean, "get_coefficients", "_coefficients"), "the mean of get_coefficients", extra)
    np.random.seed(case["vs"] % 2**32)
    n = DRAWS if case["distribution"] else case["n"]
    draws = utils.get_coefficients(c.pta, dict(c.params), n=n, **kw)
    if n == 1:
        need(isinstance(draws, dict), "one draw must be a dictionary")
        draws = [draws]
    need(len(draws) == n, "%d draws instead of %d", len(draws), n)
    for d in draws[:3]:
        need(set(d) == names | set(c.params), "draw has %s", sorted(d))
    B = np.array([joined(cond, d, "draw", "_coefficients") for d in draws])
    z = cond.whiten(B)
    if 1e-13 * extra * cond.cond < 1e-3:
        need(np.all(np.abs(z) < 9), "a draw is %.1f conditional standard deviations from the mean", np.max(np.abs(z)))
        if case["distribution"]:
            check_draws(cond, B, "get_coefficients")
    if n > 1:
        need(not np.array_equal(B[0], B[1]), "two draws are equal")
    lab = labels(case) + [case["method"], "sparse" if case["sparse"] else "dense"] + (["distribution"] if case["distribution"] else [])
    return {"nontrivial": len(cond.names) > 1 or case["distribution"], "labels": lab}


# --------------------------------------------------------------------------- next to processes with explicit coefficients


@st.composite
def beside_case(draw):
    """Other signals conditioned on explicit coefficients: the model in which those are a given delay."""
    n = draw(st.integers(1, 3))
    pos = [draw(st.integers(0, 3)) for _ in range(draw(st.integers(1, 2)))]
    return dict(
        psrs=draw(gen.psr_specs((n, n), nep=(4, 6))),
        pos=pos,
        nc=draw(st.integers(1, 2)),
        red=draw(st.booleans()),
        tm=draw(st.booleans()),
        common=draw(st.sampled_from(["no", "no", "gw", "explicit"])),
        sel=draw(st.booleans()),
        seed=draw(gen.SEEDS),
        sparse=draw(st.booleans()),
        method=draw(st.sampled_from(["cliques", "sparse"])),
        n=draw(st.integers(1, 2)),
    )


def run_beside(case):
    from enterprise.signals import deterministic_signals, gp_signals, parameter, selections, signal_base, utils, white_signals
    from pbt import synth

    psrs = [synth.make_psr(s) for s in case["psrs"]]
    nc = case["nc"]

    @parameter.function
    def given(toas, c=None, k=0):
        x = (toas - 4.58e9) / 1e8
        j = np.arange(1, nc + 1) + 0.37 * k
        F = np.hstack([np.sin(np.outer(x, j)), np.cos(np.outer(x, j))])
        return F @ np.asarray(c)

    @parameter.function
    def basis(toas, k=0):
        x = (toas - 4.58e9) / 1e8
        j = np.arange(1, nc + 1) + 0.37 * k
        return np.hstack([np.sin(np.outer(x, j)), np.cos(np.outer(x, j))]), np.tile(j, 2) * 1e-8

    def model(explicit):
        S = selections.Selection(selections.by_backend if case["sel"] else selections.no_selection)
        pl = lambda: utils.powerlaw(log10_A=parameter.Constant(-13.0), gamma=parameter.Constant(3.0))
        sigs = [white_signals.MeasurementNoise(efac=parameter.Constant(1.1))]
        if case["red"]:
            sigs.append(gp_signals.FourierBasisGP(pl(), components=2, Tspan=2.3e8, combine=False, name="red"))
        if case["tm"]:
            sigs.append(gp_signals.TimingModel())
        if case["common"] == "gw":
            sigs.append(gp_signals.FourierBasisCommonGP(pl(), utils.hd_orf(), components=2, Tspan=2.1e8, combine=False, name="gw"))
        for q, where in enumerate(case["pos"]):
            nm = "ex%d" % q
            if case["common"] == "explicit" and q == 0:
                one = gp_signals.BasisCommonGP(pl(), basis(k=q + 1), utils.hd_orf(), coefficients=True, name=nm)
                other = deterministic_signals.Deterministic(given(c=parameter.Uniform(-1, 1, size=2 * nc), k=q + 1), name=nm)
            else:
                one = gp_signals.BasisGP(pl(), basis(k=q + 1), coefficients=True, selection=S, name=nm)
                other = deterministic_signals.Deterministic(given(c=parameter.Uniform(-1, 1, size=2 * nc), k=q + 1), selection=S, name=nm)
            sigs.insert(where % (len(sigs) + 1), one if explicit else other)
        m = sigs[0]
        for s in sigs[1:]:
            m = m + s
        return signal_base.PTA([m(p) for p in psrs])

    a, b = model(True), model(False)
    rng = np.random.default_rng(case["seed"])
    pa, pb = {}, {}
    names = sorted(n for n in a.param_names)
    for n in sorted({p.name for p in a.params}):
        if n.endswith("_coefficients"):
            v = 1e-6 * rng.normal(size=2 * nc)
            pa[n] = v
            pb[n[: -len("_coefficients")] + "_c"] = v.copy()
    need(set(pb) == {p.name for p in b.params}, "parameters %s, with given delays %s", names, sorted(pb))
    kw = {"phiinv_method": case["method"]}
    lab = [case["common"]] + (["selection"] if case["sel"] else [])
    if not (case["red"] or case["tm"] or case["common"] == "gw"):
        return {"nontrivial": False, "labels": lab}
    A, B = utils.ConditionalGP(a, **kw), utils.ConditionalGP(b, **kw)

    def equal(x, y, what, own=()):
        need(set(x) - set(own) == set(y) - set(pb), "%s: %s, with given delays %s", what, sorted(set(x) - set(own)), sorted(set(y) - set(pb)))
        for k in set(y) - set(pb):
            scale = np.max(np.abs(y[k]), initial=0)
            close(x[k], y[k], "%s: %s" % (what, k), rtol=1e-7, atol=1e-7 * scale)

    equal(A.get_mean_coefficients(pa), B.get_mean_coefficients(pb), "mean coefficients")
    equal(A.get_mean_processes(pa), B.get_mean_processes(pb), "mean processes")
    for f in ("sample_coefficients", "sample_processes"):
        np.random.seed(case["seed"] % 2**32)
        x = getattr(A, f)(pa, n=case["n"])
        np.random.seed(case["seed"] % 2**32)
        y = getattr(B, f)(pb, n=case["n"])
        need(len(x) == len(y), "%s: %d draws", f, len(x))
        for u, v in zip(x, y):
            equal(u, v, f)
    for variance in (False, True):
        np.random.seed(case["seed"] % 2**32)
        x = utils.get_coefficients(a, dict(pa), variance=variance, common_sparse=case["sparse"], **kw)
        np.random.seed(case["seed"] % 2**32)
        y = utils.get_coefficients(b, dict(pb), variance=variance, common_sparse=case["sparse"], **kw)
        for n in pa:
            need(np.array_equal(x[n], pa[n]), "get_coefficients changed the given %s", n)
        equal(x, y, "get_coefficients", own=pa)
    return {"nontrivial": True, "labels": lab}


PROP = Prop(
    "G01",
    "random models with distinct columns over 1-3 pulsars (signals missing from some, pulsars without bases), all prior inversions, sparse and dense; "
    "means in units of the conditional standard deviations, and for one case in six %d draws, decorrelated with an independent dense conditional "
    "covariance and tested for unit normality; non-trivial: several signals or a tested distribution" % DRAWS,
    [
        Sub("conditional", lambda: case(), run, 900, 40000),
        Sub("correlated", lambda: case((2, 3), commons=(1, 2), dets=(0, 0)), run, 700, 30000),
        Sub("get", lambda: case((1, 3)), run_get, 900, 40000),
        Sub("get_correlated", lambda: case((2, 3), commons=(1, 2), dets=(0, 0)), run_get, 700, 30000),
        Sub("large", lambda: gen.bigger(case((1, 2), commons=(0, 1))), run, 300, 12000),
        Sub("get_large", lambda: gen.bigger(case((1, 2), commons=(0, 1))), run_get, 300, 12000),
        Sub("beside", beside_case, run_beside, 600, 20000),
    ],
    ["covariances are tested statistically with p > 1e-11", "cases whose scaled normal matrix has condition above 1e9 are skipped (get_coefficients: unscaled above 1e12)"],
)
