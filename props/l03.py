"""L03: every way of inverting the array prior gives its true inverse and determinant."""
import numpy as np
from hypothesis import strategies as st

from pbt import gen
from pbt.core import Prop, Sub
from pbt.helpers import Case, close, dense, labels, methods_for, need


@st.composite
def case(draw, npsr=(2, 4), **kw):
    psrs = draw(gen.psr_specs(npsr, nep=(3, 5)))
    kw.setdefault("tms", ("tm", "mtm", "mtm", "no", "no"))
    return dict(psrs=psrs, model=draw(gen.model(len(psrs), dets=(0, 0), **kw)), vs=draw(gen.SEEDS), order=draw(st.permutations(["cliques", "sparse", "partition"])))


@st.composite
def large_case(draw):
    psrs, model = draw(gen.large(many=(6, 12, 20, 28, 36), dets=(0, 0), commons=(1, 2), gps=(0, 1)))
    return dict(psrs=psrs, model=model, vs=draw(gen.SEEDS), order=draw(st.permutations(["cliques", "sparse", "partition"])))


def run(case):
    c = Case(case)
    pta, params = c.pta, c.params
    bases = pta.get_basis(params)
    phi = pta.get_phi(params)
    corr = not isinstance(phi, list)
    # one big dense prior
    if corr:
        big = np.array(dense(phi), float)
    else:
        blocks = [np.zeros((0, 0)) if b is None else (np.diag(b) if np.ndim(b) == 1 else np.array(b, float)) for b in phi]
        n = sum(b.shape[0] for b in blocks)
        big, k = np.zeros((n, n)), 0
        for b in blocks:
            m = b.shape[0]
            big[k : k + m, k : k + m] = b
            k += m
    ncol = [0 if b is None else b.shape[1] for b in bases]
    need(big.shape == (sum(ncol), sum(ncol)), "prior has shape %s for %s basis columns", big.shape, ncol)
    # content: T Phi T^T is the model's covariance (timing-model columns removed: their variance is 1e40)
    T = np.zeros((c.ref.off[-1], sum(ncol)))
    k = 0
    for i, b in enumerate(bases):
        if b is not None:
            T[c.ref.off[i] : c.ref.off[i + 1], k : k + ncol[i]] = b
        k += ncol[i]
    tm = np.diag(big) > 1e30
    cov = T[:, ~tm] @ big[np.ix_(~tm, ~tm)] @ T[:, ~tm].T
    want = c.ref.G
    s = np.sqrt(np.outer(np.diag(want), np.diag(want))) + 1e-60
    close(cov, want, "covariance T Phi T^T of the residuals", rtol=1e-8, scale=s + np.max(np.abs(want)) * 1e-4)
    need(np.allclose(big, big.T, rtol=1e-12, atol=0), "prior is not symmetric")
    need(not np.any(big[np.ix_(tm, ~tm)]), "timing-model prior is correlated with other coefficients")

    d = np.sqrt(np.diag(big))
    scaled = big / np.outer(d, d)
    w = np.linalg.eigvalsh(scaled)
    if len(w) == 0:
        return {"nontrivial": False}
    cond = w[-1] / w[0]
    if not 0 < cond < 1e9:
        return {"nontrivial": False, "labels": ["ill-conditioned"]}
    logdet = np.sum(np.log(w)) + 2 * np.sum(np.log(d))
    eye = np.eye(len(d))
    refused = []
    ok = methods_for(case)
    for m in [m for m in case["order"] if m in ok] + ["cholesky"]:
        for ld in (True, False):
            try:
                if m == "cholesky":
                    got = pta.get_phiinv_byfreq_cliques(params, logdet=ld, cholesky=True)
                else:
                    got = pta.get_phiinv(params, logdet=ld, method=m)
            except NotImplementedError:
                refused.append(m)
                need(m == "partition", "method %s refused the model", m)
                break
            if corr:
                inv, gl = got if ld else (got, None)
                inv = np.asarray(dense(inv), float)
            else:
                need(isinstance(got, list) and len(got) == len(bases), "one inverse per pulsar expected")
                inv, gl, k = np.zeros_like(big), 0.0, 0
                for i, g in enumerate(got):
                    need((g is None) == (bases[i] is None), "pulsar %d: inverse prior %s for basis %s", i, g, bases[i])
                    if g is None:
                        continue
                    b, l = g if ld else (g, 0.0)
                    gl += l
                    b = np.asarray(b, float)
                    inv[k : k + ncol[i], k : k + ncol[i]] = np.diag(b) if b.ndim == 1 else b
                    k += ncol[i]
            need(inv.shape == big.shape, "%s: inverse has shape %s", m, inv.shape)
            close((inv * np.outer(d, d)) @ scaled, eye, "%s: inverse times prior" % m, rtol=0, atol=1e-13 * cond + 1e-9)
            if ld:
                need(abs(gl - logdet) <= 1e-9 * (np.sum(np.abs(np.log(d))) + len(d)) + 1e-14 * cond * len(d), "%s: log-determinant %r, expected %r", m, float(gl), float(logdet))
    # each pulsar and each private process on its own
    for i, sc in enumerate(pta):
        if bases[i] is None:
            need(sc.get_phi(params) is None, "pulsar %d has a prior and no basis", i)
            continue
        parts = [("pulsar %d" % i, sc)] + [(s.name, s) for s in sc.signals if s.signal_type == "basis"]
        for name, obj in parts:
            one = obj.get_phi(params)
            if one is None:
                need(obj.get_phiinv(params) is None, "%s: inverse without a prior", name)
                continue
            inv = np.asarray(obj.get_phiinv(params), float)
            one = np.asarray(one, float)
            need(inv.shape == one.shape, "%s: inverse of shape %s for a prior of shape %s", name, inv.shape, one.shape)
            if one.ndim == 1:
                close(inv * one, np.ones(len(one)), "%s: inverse times prior" % name, rtol=0, atol=1e-9)
            else:
                e = np.sqrt(np.diag(one))
                close((inv * np.outer(e, e)) @ (one / np.outer(e, e)), np.eye(len(e)), "%s: inverse times prior" % name, rtol=0, atol=1e-13 * cond * len(e) + 1e-9)
    lab = labels(case) + ["corr" if corr else "blocks"] + (["partition refused"] if refused else [])
    if "partition" in ok and not refused:
        lab.append("partition checked")
    offd = np.count_nonzero(big - np.diag(np.diag(big)))
    if corr:
        # how many correlated groups of which size
        adj = np.abs(big) > 0
        sizes = groups(adj)
        lab.append("largest group %s" % ("<=4" if max(sizes) <= 4 else "<=12" if max(sizes) <= 12 else ">12"))
    return {"nontrivial": offd > 0, "labels": lab}


def groups(adj):
    n, seen, out = len(adj), set(), []
    for i in range(n):
        if i in seen:
            continue
        todo, comp = [i], {i}
        while todo:
            a = todo.pop()
            for b in np.flatnonzero(adj[a]):
                if b not in comp:
                    comp.add(int(b))
                    todo.append(int(b))
        seen |= comp
        out.append(len(comp))
    return out


PROP = Prop(
    "L03",
    "random mixtures of private and common signals with diagonal and dense priors on 2-4 pulsars (large: up to 36, or up to 30 frequencies and 12 nodes); the prior is compared "
    "with the model's covariance and each inverse is multiplied with the prior; non-trivial: the prior has off-diagonal entries",
    [
        Sub("mixed", lambda: case(commons=(1, 3), gps=(0, 3)), run, 1600, 80000),
        Sub("overlapping", lambda: case(commons=(2, 3), gps=(0, 2), combine=st.just(True), common_allowed=("crn", "ckern"), gp_allowed=("rn", "ikern"), tms=("no", "tm", "mtm"), samegrid=True), run, 1200, 60000),
        Sub("partitionable", lambda: case(commons=(1, 2), gps=(0, 2), subsets=False, combine=st.just(True), common_allowed=("crn",), samegrid=True), run, 1000, 40000),
        Sub("private", lambda: case((1, 3), commons=(0, 0), gps=(1, 3), gp_allowed=("rn", "kern", "ikern", "ikern", "dmgp")), run, 500, 20000),
        Sub("large", large_case, run, 240, 10000),
    ],
    [
        "the partition method is only asked for models inside its documented domain: common signals shared by all pulsars on one basis",
        "priors worse conditioned than 1e9 (after scaling to unit diagonal) are skipped",
    ],
)
