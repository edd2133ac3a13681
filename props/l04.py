"""L04: sharing equal basis columns between signals does not change the model."""
import copy

import numpy as np
from hypothesis import strategies as st

from pbt import gen, models, synth
from pbt.core import Prop, Sub
from pbt.helpers import Case, close, dense, labels, ll_tol, need, PHICOND_MAX

SHAREABLE = ("rn", "dmgp", "chrom", "kern", "ikern", "crn", "ckern")


@st.composite
def model_case(draw):
    psrs = draw(gen.psr_specs((1, 3), nep=(3, 6)))
    n = len(psrs)
    model = draw(gen.model(n, commons=(0, 2) if n > 1 else (0, 0), gps=(1, 4), samegrid=True, gp_allowed=("rn", "rn", "rn", "dmgp", "chrom", "ikern"), tms=("tm", "mtm", "no")))
    k = sum(s["t"] in SHAREABLE for s in model["signals"])
    return dict(psrs=psrs, model=model, vs=draw(gen.SEEDS), flags=draw(st.lists(st.lists(st.booleans(), min_size=k, max_size=k), min_size=1, max_size=2)))


def with_flags(model, flags):
    m = copy.deepcopy(model)
    it = iter(flags)
    for s in m["signals"]:
        if s["t"] in SHAREABLE:
            s["combine"] = next(it)
    return m


def gp_cov(T, phi):
    phi = np.asarray(dense(phi), float)
    return T @ (np.diag(phi) if phi.ndim == 1 else phi) @ T.T


def run_model(case):
    variants = [[False] * len(case["flags"][0]), [True] * len(case["flags"][0])] + case["flags"]
    base = None
    ncols = []
    for fl in variants:
        c = Case(dict(case, model=with_flags(case["model"], fl)))
        if base is None:
            base = (c.ref.loglike(), [c.ref.G[s, s] for s in slices(c.ref.off)], ll_tol(c.ref))
            (v, scale, cond), covs, tol = base
            if cond > 1e11 or c.ref.phicond() > PHICOND_MAX:
                return {"nontrivial": False, "labels": ["ill-conditioned"]}
        got = float(c.pta.get_lnlikelihood(c.params))
        need(abs(got - v) <= tol * scale, "column sharing %s: log-likelihood %r, expected %r", fl, got, v)
        tot = 0
        for sc, want in zip(c.pta.pulsarmodels, covs):
            T = sc.get_basis(c.params)
            if T is None:
                continue
            tot += T.shape[1]
            phi = np.asarray(dense(sc.get_phi(c.params)), float)
            keep = (np.diag(phi) if phi.ndim == 2 else phi) < 1e30
            need(len(keep) == T.shape[1], "prior has %d entries for %d columns", len(keep), T.shape[1])
            got = gp_cov(T[:, keep], phi[np.ix_(keep, keep)] if phi.ndim == 2 else phi[keep])
            close(got, want, "column sharing %s: covariance" % fl, rtol=1e-9, scale=np.max(np.abs(want)) + 1e-60)
        ncols.append(tot)
    return {"nontrivial": min(ncols) < max(ncols), "labels": labels(case) + (["columns shared"] if min(ncols) < max(ncols) else [])}


def slices(off):
    return [slice(off[i], off[i + 1]) for i in range(len(off) - 1)]


# ---- bases made of chosen columns


@st.composite
def column_case(draw):
    psr = draw(gen.psr_spec(nep=(4, 7)))
    sigs = []
    for k in range(draw(st.integers(2, 5))):
        kind = draw(st.sampled_from(["fixed", "fixed", "fixed", "varying", "dense"]))
        # columns 7 to 20 nearly equal one of the columns 0 to 6
        ids = draw(st.lists(st.one_of(st.integers(0, 6), st.integers(0, 20)), min_size=1, max_size=4, unique=draw(st.booleans())))
        sigs.append(dict(kind=kind, ids=ids, combine=draw(st.booleans()), sel=draw(st.sampled_from(["none", "none", "backend", "half"]))))
    return dict(psr=psr, sigs=sigs, vs=draw(gen.SEEDS), evals=draw(st.integers(1, 3)), unit=draw(st.sampled_from([0, 0, 0, -13, -7, 9])))


def column(i, x):
    """Column i of the made-up basis: 7 + i and 14 + i differ from i in scale and in a few rows."""
    c = np.cos(0.7 * (i % 7) * x)
    if i // 7 == 1:
        c = c * (1 + 1e-5)
    elif i // 7 == 2:
        c = c + 1e-2 * (np.floor(8 * x) % 8 == i % 8)
    return c


def functions():
    from enterprise.signals.parameter import function

    @function
    def columns(toas, ids=(0,), tref=0.0, span=1.0, unit=0, scale=None):
        x = (toas - tref) / span
        F = 10.0**unit * np.array([column(i, x) for i in ids]).T
        if scale is not None:
            F = F * 10 ** (0.1 * scale)
        return F, np.array(ids, float)

    @function
    def diag_prior(f, log10_amp=-6.0):
        return 10 ** (2 * log10_amp) * (1 + f)

    @function
    def dense_prior(f, log10_amp=-6.0):
        d = np.subtract.outer(f, f)
        return 10 ** (2 * log10_amp) * (np.exp(-0.5 * d**2) + 0.1 * np.eye(len(f)))

    return columns, diag_prior, dense_prior


def run_columns(case):
    from enterprise.signals import gp_signals, parameter, signal_base, white_signals

    psr, unit = synth.make_psr(case["psr"]), case.get("unit", 0)
    columns, diag_prior, dense_prior = functions()
    U = parameter.Uniform(-30, 30)

    def build(flags):
        parts = [white_signals.MeasurementNoise(efac=parameter.Constant(1.1))]
        for k, s in enumerate(case["sigs"]):
            kw = dict(scale=U) if s["kind"] == "varying" else {}
            basis = columns(ids=tuple(s["ids"]), tref=float(psr.toas.min()), span=3e7, unit=unit, **kw)
            prior = (dense_prior if s["kind"] == "dense" else diag_prior)(log10_amp=U)
            parts.append(gp_signals.BasisGP(prior, basis, combine=flags[k], selection=models.real_selection(s["sel"]), name="g%d" % k))
        return signal_base.PTA([models.add_all(parts)(psr)])

    stated = [s["combine"] for s in case["sigs"]]
    off, some = build([False] * len(stated)), build(stated)
    x = (psr.toas - psr.toas.min()) / 3e7
    ncol = 0
    for e in range(case["evals"]):
        params = {}
        for p in off.params:
            u = models._u(case["vs"], p.name, e)
            params[p.name] = 4 * u - 2 if p.name.endswith("scale") else -6.5 - unit + u
        want = np.zeros((len(x), len(x)))
        for k, s in enumerate(case["sigs"]):
            for key, mask in models.ref_selection(s["sel"], psr).items():
                pre = models.join(psr.name, "g%d" % k, key)
                F = 10.0**unit * np.array([column(i, x) for i in s["ids"]]).T
                if s["kind"] == "varying":
                    F = F * 10 ** (0.1 * params[pre + "_scale"])
                F = np.where(mask[:, None], F, 0.0)
                f = np.array(s["ids"], float)
                a2 = 10 ** (2 * params[pre + "_log10_amp"])
                if s["kind"] == "dense":
                    P = a2 * (np.exp(-0.5 * np.subtract.outer(f, f) ** 2) + 0.1 * np.eye(len(f)))
                else:
                    P = np.diag(a2 * (1 + f))
                want += F @ P @ F.T
        for lab, pta in (("unshared", off), ("shared", some)):
            sc = pta.pulsarmodels[0]
            T = sc.get_basis(params)
            got = gp_cov(T, sc.get_phi(params))
            close(got, want, "%s columns: covariance" % lab, rtol=1e-9, scale=np.max(np.abs(want)))
            ncol = T.shape[1] if lab == "unshared" else ncol - T.shape[1]
        a, b = float(off.get_lnlikelihood(params)), float(some.get_lnlikelihood(params))
        N = np.diag(1.21 * psr.toaerrs**2) + want
        L = np.linalg.cholesky(N)
        w = np.linalg.solve(L, psr.residuals)
        ld = 2 * np.sum(np.log(np.diag(L)))
        ref = -0.5 * (w @ w + ld)
        tol = 1e-8 * (w @ w + abs(ld))
        need(abs(a - ref) <= tol, "unshared columns: log-likelihood %r, expected %r", a, ref)
        need(abs(b - ref) <= tol, "shared columns: log-likelihood %r, expected %r", b, ref)
    kinds = sorted({s["kind"] for s in case["sigs"]})
    return {"nontrivial": ncol > 0, "labels": kinds + (["columns shared"] if ncol > 0 else [])}


PROP = Prop(
    "L04",
    "models and hand-made bases whose columns coincide wholly, partly or nearly, in units from 1e-13 to 1e9, with varying bases between them, evaluated with "
    "sharing on, off and mixed, against the covariance computed directly; non-trivial: sharing made the combined basis smaller",
    [
        Sub("models", model_case, run_model, 1200, 30000),
        Sub("columns", column_case, run_columns, 2500, 60000),
        Sub("large", lambda: gen.bigger(model_case()), run_model, 250, 8000),
        Sub("columns_large", lambda: gen.bigger(column_case()), run_columns, 250, 8000),
    ],
    [],
)
