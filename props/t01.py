"""T01: timing-model marginalization is exact and independent of parametrization."""
import numpy as np
from enterprise.signals import utils
from hypothesis import strategies as st

from pbt import gen, models, synth
from pbt.core import Prop, Sub
from pbt.helpers import Case, PHICOND_MAX, labels, ll_tol, lnl, methods_for, need


@st.composite
def case(draw, npsr=(1, 1), commons=(0, 0)):
    psrs = draw(gen.psr_specs(npsr, ntm=(2, 5), nep=(4, 7)))
    n = len(psrs)
    k = min(s["ntm"] for s in psrs)
    tmkind = draw(st.sampled_from(["unnormed", "normed", "svd", "norms", "excl", "excl_unnormed", "excl_svd"]))
    span = draw(st.sampled_from([(-8, 8), (-8, 8), (-18, -10), (6, 14)]))
    if n > 1 and tmkind == "norms":
        tmkind = "unnormed"  # given norms fit one design matrix only
    return dict(
        psrs=psrs,
        model=draw(gen.model(n, gps=(0, 2), commons=commons, tms=("no",), subsets=False)),
        vs=draw(gen.SEEDS),
        tmkind=tmkind,
        norms=[10.0 ** draw(st.integers(-6, 6)) for _ in range(psrs[0]["ntm"])],
        excl=sorted(draw(st.sets(st.integers(0, k - 1), min_size=1, max_size=max(1, k - 1)))),
        where=draw(st.integers(0, 6)),
        colscale=[draw(st.integers(*span)) for _ in range(5)],
        mix=draw(gen.SEEDS),
        shift=draw(st.sampled_from([0.1, 1.0, 100.0])),
        zero=draw(st.booleans()),
    )


def timing_sig(case, kind, t):
    s = dict(t=t, svd=False, normed=False)
    if kind in ("normed", "excl"):
        s["normed"] = True
    if kind in ("svd", "excl_svd"):
        s.update(svd=True, normed=True)
    if kind == "norms":
        s["normed"] = case["norms"]
    if kind.startswith("excl"):
        s["excl"] = case["excl"]
    return s


def with_tm(case, sig):
    sigs = list(case["model"]["signals"])
    sigs.insert(min(case["where"], len(sigs)), sig)
    return dict(case, model={"signals": sigs})


def variant(psr, M=None, r=None):
    q = synth.clone_psr(psr)
    if M is not None:
        q.Mmat = M
    if r is not None:
        q.residuals = r
    return q


def run(case):
    # badly scaled columns: powers of ten over many decades
    kind = case["tmkind"]
    psrs = []
    for s in case["psrs"]:
        p = synth.make_psr(s)
        expo = np.array(case["colscale"][: p.Mmat.shape[1]])
        if "svd" in kind:
            # singular vectors of raw columns are only as accurate as the spread of the column norms allows
            p.Mmat = p.Mmat / np.sqrt((p.Mmat**2).sum(axis=0))
            expo = expo / 8.0
        p.Mmat = p.Mmat * 10.0**expo
        psrs.append(p)
    main = with_tm(case, timing_sig(case, kind, "tm"))
    c = Case(main, psrs=psrs)
    ref, scale, cond = c.ref.loglike()
    if cond > 1e11 or c.ref.phicond() > PHICOND_MAX:
        return {"nontrivial": False, "labels": ["ill-conditioned"]}
    if c.ref.proper > 1e-8:  # columns so small, or processes so strong, that the prior of 1e40 is informative
        return {"nontrivial": False, "labels": ["prior not improper"]}
    tol = ll_tol(c.ref) * 3
    ll = {}

    def get(cs, tag):
        out = None
        for m in methods_for(cs.case):
            v = lnl(cs.pta, cs.params, m)
            if v is not None:
                out = v if out is None else out
                need(abs(v - out) <= tol * scale, "%s: methods disagree, %r and %r", tag, v, out)
        return out

    # a second point that differs in a few parameters, visited with the same objects
    rng2 = np.random.default_rng([case["mix"], 2])
    alt = models.values_for(c.pta, case["vs"], 1)
    names = sorted(alt)
    change = set(names) if not names or case["mix"] % 3 == 0 else set(rng2.permutation(names)[: 1 + case["mix"] % 2])
    point2 = {k: alt[k] if k in change else c.params[k] for k in names}
    ref2 = models.RefModel(main["model"], psrs, point2, c.defaults)
    want2, scale2, cond2 = ref2.loglike()
    tol2 = ll_tol(ref2) * 3
    again = bool(names) and ref2.proper <= 1e-8 and cond2 <= 1e11 and ref2.phicond() <= PHICOND_MAX

    def revisit(cs, tag):
        if not again:
            return
        v = lnl(cs.pta, point2, "cliques")
        need(abs(v - want2) <= tol2 * scale2, "%s: after changing %s the log-likelihood is %r, reference %r", tag, sorted(change), v, want2)
        v = lnl(cs.pta, c.params, "cliques")
        need(abs(v - ref) <= tol * scale, "%s: after changing %s back the log-likelihood is %r, reference %r", tag, sorted(change), v, ref)

    ll["tm"] = get(c, "tm")
    revisit(c, "timing model")
    need(abs(ll["tm"] - ref) <= tol * scale, "%s timing model: log-likelihood %r, reference %r", kind, ll["tm"], ref)
    excl = kind.startswith("excl")
    if not excl:
        d = Case(with_tm(case, timing_sig(case, kind, "mtm")), psrs=psrs)
        ll["mtm"] = get(d, "mtm")
        need(abs(ll["mtm"] - ref) <= tol * scale, "%s marginalizing timing model: log-likelihood %r, explicit one gives %r", kind, ll["mtm"], ref)
        revisit(d, "marginalizing timing model")
    else:
        # excluded columns: the same as a design matrix that never had them
        keep = [[k for k in range(p.Mmat.shape[1]) if k not in case["excl"]] for p in psrs]
        sub = timing_sig(case, kind, "tm")
        sub.pop("excl")
        d = Case(with_tm(case, sub), psrs=[variant(p, M=p.Mmat[:, k].copy()) for p, k in zip(psrs, keep)], ref=True)
        v = get(d, "without the columns")
        need(abs(ll["tm"] - v) <= tol * scale, "excluding columns gives %r, removing them %r", ll["tm"], v)

    # residuals shifted inside the span
    rng = np.random.default_rng([case["mix"], 1])
    cols = [[k for k in range(p.Mmat.shape[1]) if not (excl and k in case["excl"])] for p in psrs]
    moved = []
    for p, k in zip(psrs, cols):
        A = p.Mmat[:, k] / np.sqrt((p.Mmat[:, k] ** 2).sum(axis=0))
        delta = A @ rng.normal(size=len(k)) * case["shift"] * 1e-6
        moved.append(variant(p, r=p.residuals + delta))
    for t in ("tm", "mtm") if not excl else ("tm",):
        d = Case(with_tm(case, timing_sig(case, kind, t)), psrs=moved)
        _, sc2, _ = d.ref.loglike()
        v = lnl(d.pta, d.params, "cliques")
        need(abs(v - ll[t]) <= tol * max(scale, sc2), "%s %s: residuals shifted within the span of the timing model change the log-likelihood from %r to %r", kind, t, ll[t], v)

    # mixed columns: a constant change whatever the data are (none with SVD)
    if not excl:
        mixed, dets = [], 0.0
        for p in psrs:
            k = p.Mmat.shape[1]
            Q, _ = np.linalg.qr(rng.normal(size=(k, k)))
            R = Q * 10.0 ** rng.uniform(-1, 1, k)
            norm = np.sqrt((p.Mmat**2).sum(axis=0))
            mixed.append((p.Mmat / norm) @ R)
            dets += np.linalg.slogdet(R)[1] - np.sum(np.log(norm))
        other = [variant(p, r=p.residuals + 3e-6 * rng.normal(size=len(p.residuals))) for p in psrs]
        for t in ("tm", "mtm"):
            sig = timing_sig(case, kind, t)
            diffs = []
            scs = scale
            for group in (psrs, other):
                a = Case(with_tm(case, sig), psrs=group)
                b = Case(with_tm(case, sig), psrs=[variant(p, M=M) for p, M in zip(group, mixed)])
                scs = max(scs, a.ref.loglike()[1], b.ref.loglike()[1])
                diffs.append(lnl(b.pta, b.params, "cliques") - lnl(a.pta, a.params, "cliques"))
            need(abs(diffs[0] - diffs[1]) <= 2 * tol * scs, "%s %s: mixing timing-model columns changes the log-likelihood by %r for one data set, %r for another", kind, t, diffs[0], diffs[1])
            # (M R) prior: C + 1e40 M R R^T M^T has determinant det(R)^2 times larger
            want = {"svd": 0.0, "unnormed": -dets}.get(kind)
            if want is not None:
                need(abs(diffs[0] - want) <= 2 * tol * scs, "%s %s: mixing timing-model columns changes the log-likelihood by %r instead of %r", kind, t, diffs[0], want)

    # a column of zeros carries no information (unless it is merged with an unused node of a kernel: 1e40 among its variances)
    unused = any(B is not None and not np.all(np.any(B, axis=0)) for B in c.pta.get_basis(c.params))
    if kind == "normed" and case["zero"] and not unused:
        z = [variant(p, M=np.insert(p.Mmat, case["mix"] % (p.Mmat.shape[1] + 1), 0.0, axis=1)) for p in psrs]
        d = Case(main, psrs=z, ref=False, params=c.params)
        if c.defaults.names:
            d.pta.set_default_params(c.defaults.dict())
        v = get(d, "zero column")
        need(abs(v - ll["tm"]) <= tol * scale, "a zero column changes the log-likelihood from %r to %r", ll["tm"], v)
    return {"labels": labels(main) + [kind]}


@st.composite
def stable_case(draw):
    n = draw(st.integers(3, 40))
    k = draw(st.integers(1, min(n, 8)))
    return dict(
        n=n,
        k=k,
        seed=draw(gen.SEEDS),
        expo=[draw(st.integers(-20, 20)) for _ in range(k)],
        fast=draw(st.sampled_from([True, False, None])),
        order=draw(st.sampled_from("CF")),
        again=draw(st.booleans()),
    )


def run_stable(case):
    """The stabilized design matrix: unit columns (fast) or an orthonormal basis (slow) of the same span."""
    rng = np.random.default_rng(case["seed"])
    n, k = case["n"], case["k"]
    G = rng.normal(size=(n, k))
    sv = np.linalg.svd(G, compute_uv=False)
    fast = case["fast"] is not False
    # with singular vectors, raw columns lose accuracy with the spread of their norms
    e = np.array(case["expo"], float) if fast else np.array(case["expo"]) / 10.0
    M = np.asarray(G * 10.0**e, order=case["order"])
    keep = M.copy()
    call = (lambda X: utils.create_stabletimingdesignmatrix(X)) if case["fast"] is None else (lambda X: utils.create_stabletimingdesignmatrix(X, case["fast"]))
    S = call(M)
    need(np.array_equal(M, keep), "the given design matrix was changed")
    need(S.shape == (n, k), "stabilized matrix of shape %s from one of shape %s", S.shape, (n, k))
    if fast:
        want = G / np.sqrt((G**2).sum(axis=0))
        need(np.allclose(S, want, rtol=1e-12, atol=1e-300), "columns are not the normalized columns")
    else:
        need(np.allclose(S.T @ S, np.eye(k), rtol=0, atol=1e-12), "columns are not orthonormal")
        Q, _ = np.linalg.qr(G)
        gap = np.abs(S - Q @ (Q.T @ S)).max()
        need(gap <= 1e-9 * sv[0] / sv[-1], "the columns leave the span of the design matrix by %r", gap)
    if case["again"]:
        # what was returned is the caller's own
        S *= 0.0
        need(np.array_equal(M, keep), "the result shares memory with the given design matrix")
        need(not np.all(call(M) == 0), "the result of an earlier call was reused")
    return {"labels": ["fast" if fast else "svd", "k=%d" % k], "nontrivial": k > 1}


PROP = Prop(
    "T01",
    "random noise models with the timing model in explicit and marginalizing form, every normalization, excluded columns, columns scaled over "
    "16 decades, mixed columns, shifted residuals, zero columns; compared with the dense reference and with one another; every case with a well-conditioned C counts",
    [
        Sub("single", lambda: case((1, 1)), run, 1000, 40000),
        Sub("array", lambda: case((2, 3), (0, 2)), run, 500, 20000),
        Sub("large", lambda: gen.bigger(case((1, 2), (0, 1))), run, 300, 12000),
        Sub("stable", stable_case, run_stable, 2000, 100000),
    ],
    ["design matrices have full column rank apart from columns of zeros", "with SVD the column norms span at most two decades (singular vectors of raw columns lose accuracy with the spread)"],
)
