"""W03: ECORR acts within epochs of each selection only, in kernel and basis form alike."""
import numpy as np
from hypothesis import strategies as st

from pbt import gen, models, synth
from pbt.core import Prop, Sub
from pbt.helpers import Case, close, need, noise_inverse

METHODS = ["sherman-morrison", "fast-sherman-morrison", "sparse", "block"]


@st.composite
def layout(draw, maxn=14, minn=1):
    """TOA offsets in units of a quarter of the bin width: ties, chains and gaps exactly at the edge are common."""
    n = draw(st.integers(minn, maxn))
    pool = [0, 0, 1, 1, 2, 3, 4, 4, 5, 7, 100]
    if n > 30:
        steps = np.random.default_rng(draw(gen.SEEDS)).choice(draw(st.sampled_from([pool, [0, 1], [100, 0, 0], [5, 4, 100]])), n).tolist()
    else:
        steps = [draw(st.sampled_from(pool)) for _ in range(n)]
    q = np.cumsum(steps).tolist()
    order = draw(st.sampled_from(["sorted", "sorted", "shuffled"]))
    if order == "shuffled":
        q = draw(st.permutations(q))
    return q


@st.composite
def quant_case(draw, large=False):
    return dict(
        q=draw(layout(draw(st.sampled_from([40, 120, 400])), 30) if large else st.one_of(layout(), st.just([]))),
        dt=draw(st.sampled_from([None, 1.0, 4.0, 0.5, 1024.0])),
        nmin=draw(st.sampled_from([None, 1, 2, 2, 3, 4])),
        t0=draw(st.sampled_from([0.0, 4.6e9, -1024.0])),
    )


def ref_groups(toas, dt, nmin):
    """Epochs by definition: walk through the times in order; a TOA opens a new epoch unless < dt after the first of the current one."""
    out, first = [], None
    for t, i in sorted((float(t), i) for i, t in enumerate(toas)):
        if first is None or not (t - first < dt):
            out.append(set())
            first = t
        out[-1].add(i)
    return [g for g in out if len(g) >= nmin]


def run_quant(case):
    from enterprise.signals import utils

    dt = 1.0 if case["dt"] is None else case["dt"]
    nmin = 2 if case["nmin"] is None else case["nmin"]
    toas = case["t0"] + np.array(case["q"], float) * dt / 4.0  # exact in binary
    keep = toas.copy()
    kw = {}
    if case["dt"] is not None:
        kw["dt"] = case["dt"]
    if case["nmin"] is not None:
        kw["nmin"] = case["nmin"]
    U, w = utils.create_quantization_matrix.__wrapped__(toas, **kw) if hasattr(utils.create_quantization_matrix, "__wrapped__") else call_quant(utils, toas, kw)
    U = np.asarray(U)
    need(np.array_equal(keep, toas), "the times were changed")
    want = ref_groups(toas, dt, nmin)
    need(U.shape == (len(toas), len(want)), "matrix has shape %s, expected %d TOAs x %d epochs", U.shape, len(toas), len(want))
    need(np.all((U == 0) | (U == 1)), "entries other than 0 and 1")
    got = [set(np.flatnonzero(c).tolist()) for c in U.T]
    need(sorted(map(sorted, got)) == sorted(map(sorted, want)), "epochs %s instead of %s", sorted(map(sorted, got)), sorted(map(sorted, want)))
    close(w, np.ones(len(want)), "weights")
    for as_slice in (False, True):
        inds = utils.quant2ind(U, as_slice=as_slice)
        need(len(inds) == len(want), "quant2ind returns %d epochs", len(inds))
        for ind, g in zip(inds, got):
            x = np.arange(len(toas))[ind]
            need(set(x.tolist()) == g and len(x) == len(g), "quant2ind(as_slice=%s) gives %s for %s", as_slice, x, g)
            y = utils.indices_from_slice(ind)
            need(np.array_equal(np.asarray(y), x), "indices_from_slice gives %s for %s", y, x)
    return {"nontrivial": len(want) > 0 and len(set(case["q"])) > 1, "labels": ["epochs=%d" % min(len(want), 4), "unsorted" if list(case["q"]) != sorted(case["q"]) else "sorted"]}


def call_quant(utils, toas, kw):
    f = utils.create_quantization_matrix
    if isinstance(f(), type):  # a library function: needs an owner that supplies toas
        class Psr(object):
            pass

        p = Psr()
        p.toas = toas
        return f(**kw)("x", psr=p)()
    return f(toas, **kw)


@st.composite
def kernel_case(draw):
    return dict(
        q=draw(layout(12)),
        psr=draw(gen.psr_spec(ntm=(2, 3))),
        sel=draw(gen.selection(overlap=False)),
        p=draw(gen.pspec("log10_ecorr", ("free", "free", "const", "later", "shared"))),
        eq=draw(st.booleans()),
        lj=draw(st.sampled_from([-7.0, -6.0, -5.5])),
        vs=draw(gen.SEEDS),
        name=draw(st.sampled_from(["", "", "pta"])),
        tm=draw(st.booleans()),
    )


def pulsar(case):
    """A synthetic pulsar whose TOAs are clustered around the one-second bin width."""
    n = len(case["q"])
    spec = dict(case["psr"], nep=max(4, n), kmax=1)
    full = synth.make_psr(spec)
    p = synth.permute_psr(full, np.arange(n))
    p.toas = 4.6e9 + np.array(case["q"], float) / 4.0
    p.stoas = p.toas + 100.0
    return p


def run_kernel(case):
    psr = pulsar(case)
    n = len(psr.toas)
    P = case["p"]
    par = ["shared", "shr_log10_ecorr"] if P[0] == "shared" else P
    base = [dict(t="mn", sel="none", p={"efac": ["free"], **({"log10_t2equad": ["free"]} if case["eq"] else {})})]
    if case["tm"] and n > 4:
        base.append(dict(t="tm", svd=False, normed=True))
    lls = {}
    for m in METHODS + ["basis"]:
        if m == "basis":
            s = dict(t="ecgp", sel=case["sel"], p={"log10_ecorr": par})
        else:
            s = dict(t="ecorr", sel=case["sel"], method=m, name=case["name"], p={"log10_ecorr": par})
        full = dict(psrs=[case["psr"]], model={"signals": base + [s]}, vs=case["vs"])
        c = Case(full, psrs=[psr], ref=False)
        vals = dict(c.params)
        keys = models.ref_selection(case["sel"], psr)
        named = {}
        for k in keys:  # documented names: pulsar, (basis signal,) group, parameter
            named[models.join(psr.name, "basis_ecorr" if m == "basis" else "", k, "log10_ecorr")] = k
        for q in vals:
            if q.endswith("log10_ecorr"):
                vals[q] = case["lj"] + models._u(case["vs"], named.get(q, "shared"), 1)
        if P[0] in ("free",):
            need({q for q in vals if q.endswith("log10_ecorr")} == set(named), "%s: parameters %s, groups %s", m, sorted(vals), sorted(keys))
        later = {}
        if P[0] == "later":
            later = {q: case["lj"] + models._u(case["vs"], k, 1) for q, k in named.items()}
            c.pta.set_default_params(later)
        c.defaults = dict(later)

        # documented covariance
        def value(k, q):
            return {"const": lambda: P[1], "later": lambda: later[q], "shared": lambda: vals["shr_log10_ecorr"], "free": lambda: vals[q]}[P[0]]()

        K = np.zeros((n, n))
        for q, k in named.items():
            mask = keys[k]
            sub = np.flatnonzero(mask)
            for g in ref_groups(psr.toas[mask], 1.0, 2):
                g = sub[sorted(g)]
                K[np.ix_(g, g)] += 10.0 ** (2 * value(k, q))
        nvar = psr.toaerrs**2
        nvar = vals[psr.name + "_efac"] ** 2 * (nvar + (10.0 ** (2 * vals[psr.name + "_log10_t2equad"]) if case["eq"] else 0.0))
        if m == "basis":
            sig = [x for x in c.pta.pulsarmodels[0].signals if "basis_ecorr" in x.name][0]
            B, phi = sig.get_basis(vals), np.asarray(sig.get_phi(vals))
            phi = np.diag(phi) if phi.ndim == 1 else phi
            close(B @ phi @ B.T, K, "covariance of the ECORR basis", rtol=1e-12)
        else:
            N = np.diag(nvar) + K
            d = np.sqrt(np.diag(N))
            S = N / np.outer(d, d)
            want = np.linalg.inv(S) / np.outer(d, d)
            got, ld = noise_inverse(c.pta.get_ndiag(vals)[0], n)
            close(got, want, "%s: inverse noise" % m, rtol=1e-10 * n + 1e-13 * np.linalg.cond(S) ** 1.5, scale=1 / np.outer(np.sqrt(nvar), np.sqrt(nvar)))
            wld = np.linalg.slogdet(S)[1] + 2 * np.sum(np.log(d))
            need(abs(ld - wld) < 1e-9 * abs(wld), "%s: log-determinant %r instead of %r", m, ld, wld)
        lls[m] = float(c.pta.get_lnlikelihood(vals))
    base_ll = lls["block"]
    for m, v in lls.items():
        need(abs(v - base_ll) < 1e-7 * (abs(base_ll) + 30 * n), "log-likelihood with %s is %r, with block %r", m, v, base_ll)
    return {"nontrivial": bool(K.any()), "labels": [P[0], str(case["sel"] if isinstance(case["sel"], str) else case["sel"][0])]}


PROP = Prop(
    "W03",
    "TOA layouts with ties, chains and gaps exactly at the bin edge, in any order, with selections; epochs by definition, covariance ecorr^2 within "
    "them; non-trivial: at least one epoch",
    [Sub("epochs", quant_case, run_quant, 6000, 200000), Sub("long", lambda: quant_case(large=True), run_quant, 500, 20000), Sub("kernel", kernel_case, run_kernel, 1500, 60000)],
    ["selections whose groups overlap are not used with ECORR kernels (the Sherman-Morrison form needs disjoint epochs)"],
)
