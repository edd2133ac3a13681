"""W02: all noise-matrix representations solve the same linear algebra exactly."""
import numpy as np
from hypothesis import strategies as st

from pbt import gen, models, synth
from pbt.core import Prop, Sub
from pbt.helpers import close, need

# --------------------------------------------------------------------------- the containers themselves


@st.composite
def case(draw, large=False):
    n = draw(st.integers(13, 30) if large else st.integers(1, 12))
    ng = draw(st.integers(3, 11) if large else st.integers(0, 4))
    lab = [draw(st.integers(-1, ng - 1)) if ng else -1 for _ in range(n)]  # -1: in no epoch
    if draw(st.booleans()):
        lab = sorted(lab)
    return dict(
        n=n,
        lab=lab,
        seed=draw(gen.SEEDS),
        ldyn=draw(st.sampled_from([0.0, 1.0, 4.0])),  # decades spanned by the variances
        lj=draw(st.sampled_from([-6.0, -2.0, 0.0, 0.0, 2.0, 5.0])),  # ECORR^2 relative to the variances
        lunit=draw(st.sampled_from([0.0, -12.0, -14.0, 6.0])),
        kx=draw(st.sampled_from([None, None, 1, 1, 2, 5])),
        kz=draw(st.sampled_from([None, None, 1, 1, 2, 5, "same", "none"])),
        layout=draw(st.sampled_from(["C", "F", "view"])),
        blocks=draw(st.sampled_from(["ones", "ones", "general"])),
        order=draw(st.sampled_from(["K+n", "n+K", "sum", "split", "K+n+n"])),
        slices=draw(st.booleans()),
        tied=draw(st.integers(0, 3)) == 0,  # equal variances and equal ECORR for different TOAs and epochs
    )


def operand(rng, n, k, layout):
    a = rng.normal(size=n if k is None else (n, k)) * 10.0 ** rng.uniform(-3, 3)
    if layout == "F":
        return np.asfortranarray(a)
    if layout == "view":
        b = np.zeros((2 * n,) if k is None else (2 * n, k + 1))
        b[::2, ...] = a if k is None else np.hstack([a, a[:, :1]])
        return b[::2] if k is None else b[::2, :k]
    return a


def exact_inverse(nvec, groups, blocks):
    """Inverse and log-determinant of diag(nvec) + blocks in 60-digit arithmetic."""
    import mpmath as mp

    with mp.workdps(60):
        n = len(nvec)
        A = mp.zeros(n)
        for i in range(n):
            A[i, i] = mp.mpf(float(nvec[i]))
        for g, b in zip(groups, blocks):
            for i, gi in enumerate(g):
                for j, gj in enumerate(g):
                    A[int(gi), int(gj)] += mp.mpf(float(b[i, j]))
        inv = A**-1
        return np.array([[float(inv[i, j]) for j in range(n)] for i in range(n)]), float(mp.log(mp.det(A)))


def containers(case, nvec, groups, blocks, jvec):
    """name -> (noise object, tolerance class)"""
    from enterprise.signals import signal_base as sb

    n = len(nvec)
    idxs = list(groups)
    if case["slices"]:
        idxs = [slice(g[0], g[-1] + 1) if g[-1] - g[0] + 1 == len(g) else g for g in groups]
    out = {}

    def add(K, with_zero=True):
        v = sb.ndarray_alt(nvec.copy())
        o = case["order"]
        if o == "K+n":
            return K + v
        if o == "n+K":
            return v + K
        if o == "sum":
            return sum([K, v])
        if o == "split":
            return sum([sb.ndarray_alt(0.25 * nvec), K, sb.ndarray_alt(0.75 * nvec)])
        return (K + sb.ndarray_alt(0.5 * nvec)) + sb.ndarray_alt(0.5 * nvec)

    if case["blocks"] == "ones":
        out["ShermanMorrison"] = (add(sb.ShermanMorrison(jvec, idxs)), "sm")
        try:
            from fastshermanmorrison.fastshermanmorrison import FastShermanMorrison
        except ImportError:
            FastShermanMorrison = None
        if FastShermanMorrison is not None and groups:
            out["FastShermanMorrison"] = (add(FastShermanMorrison(jvec, idxs)), "sm")
    out["BlockMatrix"] = (add(sb.BlockMatrix(blocks, idxs)), "chol")
    import scipy.sparse as sps

    S = sps.lil_matrix((n, n))
    for g, b in zip(groups, blocks):
        S[np.ix_(g, g)] = b
    out["csc_matrix_alt"] = (add(sb.csc_matrix_alt(sps.csc_matrix(S))), "chol")
    if not groups:
        out["ndarray_alt"] = (sb.ndarray_alt(nvec.copy()), "sm")
    return out


def run(case):
    rng = np.random.default_rng([case["seed"], 5])
    n = case["n"]
    unit = 10.0 ** case["lunit"]
    nvec = unit * 10.0 ** rng.uniform(-case["ldyn"] / 2, case["ldyn"] / 2, n)
    if case["tied"]:
        nvec = unit * rng.choice([1.0, 4.0], n)
    groups = [np.array([i for i, x in enumerate(case["lab"]) if x == g]) for g in range(max(case["lab"]) + 1)]
    # the library's epochs hold two TOAs or more
    groups = [g for g in groups if len(g) > 1]
    jvec = np.array([unit * 10.0 ** (case["lj"] + rng.uniform(-1, 1)) for _ in groups])
    if case["tied"]:
        jvec = np.full(len(groups), unit * 10.0 ** case["lj"])
    blocks = []
    for g, j in zip(groups, jvec):
        if case["blocks"] == "ones":
            blocks.append(np.full((len(g), len(g)), j))
        else:
            A = rng.normal(size=(len(g), len(g)))
            blocks.append(j * (A @ A.T))
    N = np.diag(nvec)
    for g, b in zip(groups, blocks):
        N[np.ix_(g, g)] += b
    d = np.sqrt(nvec)
    S = N / np.outer(d, d)
    cond = np.linalg.cond(S)
    Ninv, logdet = exact_inverse(nvec, groups, blocks)
    X = operand(rng, n, case["kx"], case["layout"])
    if case["kz"] == "none":
        Z = None
    elif case["kz"] == "same":
        Z = X
    else:
        Z = operand(rng, n, case["kz"], case["layout"])
    want = Ninv @ X if Z is None else Z.T @ (Ninv @ X)
    keep = X.copy(), None if Z is None else Z.copy()
    checked = []
    for name, (obj, kind) in containers(case, nvec, groups, blocks, jvec).items():
        fast = name == "FastShermanMorrison"  # another package: only how the library uses it
        if fast and (case["layout"] != "C" or np.ndim(X) != 1 and np.ndim(Z) != 2 or Z is None or np.ndim(Z) == 1 and np.ndim(X) == 2):
            continue
        try:
            got = obj.solve(X, left_array=Z)
            got2, gld = obj.solve(X, left_array=Z, logdet=True)
        except NotImplementedError:
            need(Z is None and X.ndim == 2, "%s refuses a product it supports", name)
            checked.append(name + " refuses")
            continue
        tol = 1e-11 if kind == "sm" else 1e-11 + 2e-14 * cond
        shape = np.shape(want)
        need(np.shape(got) == shape or fast, "%s: result has shape %s instead of %s", name, np.shape(got), shape)
        if Z is None:
            # N^-1 X mixes the entries of an epoch: scale by the largest scaled entry of each epoch
            sx = (np.abs(X).T / d).T
            m = sx.copy()
            for g in groups:
                m[g] = sx[g].max(axis=0)
            sc = (m.T / d).T
        else:
            sx, sz = (np.abs(X).T / d).T, (np.abs(Z).T / d).T
            mx, mz = sx.copy(), sz.copy()
            for g in groups:
                mx[g], mz[g] = sx[g].max(axis=0), sz[g].max(axis=0)
            sc = mz.T @ mx
        close(np.reshape(got, shape), want, "%s.solve" % name, rtol=tol, scale=sc, atol=1e-300)
        close(np.reshape(got2, shape), np.reshape(got, shape), "%s.solve with logdet" % name, rtol=1e-14, scale=sc)
        need(abs(gld - logdet) <= 1e-11 * (np.sum(np.abs(np.log(nvec))) + n) + (0 if kind == "sm" else 2e-14 * cond * n), "%s: logdet %r instead of %r", name, float(gld), logdet)
        checked.append(name)
    need(np.array_equal(keep[0], X) and (Z is None or np.array_equal(keep[1], Z)), "operands were changed")
    lab = sorted(checked) + ["x%s z%s" % (case["kx"], case["kz"])]
    return {"nontrivial": bool(groups), "labels": lab}


# --------------------------------------------------------------------------- the same through pulsar models


METHODS = ["sherman-morrison", "fast-sherman-morrison", "sparse", "block"]


@st.composite
def psr_case(draw):
    p = draw(gen.psr_spec(nep=(2, 6), kmax=5, orders=("sorted", "shuffled", "sorted")))
    sigs = draw(gen.white(kinds=("free",), ecorr=False))
    sel = draw(gen.selection(overlap=False))
    return dict(psr=p, sigs=sigs, sel=sel, vs=draw(gen.SEEDS), lj=draw(st.sampled_from([-8.0, -6.5, -6.0, -5.0])), pos=draw(st.integers(0, 2)))


def run_psr(case):
    psr = synth.make_psr(case["psr"])
    n = len(psr.toas)
    rng = np.random.default_rng([case["vs"], 9])
    T = np.hstack([psr.Mmat, rng.normal(size=(n, 2))])
    r = psr.residuals
    ref = None
    for m in METHODS:
        sigs = list(case["sigs"])
        sigs.insert(min(case["pos"], len(sigs)), dict(t="ecorr", sel=case["sel"], method=m, p={"log10_ecorr": ["free"]}))
        model = {"signals": sigs}
        b = models.Built(model, [psr])
        params = models.values_for(b.pta, case["vs"])
        for k in params:
            if k.endswith("log10_ecorr"):
                params[k] = case["lj"] + 0.5 * models._u(case["vs"], k, 0)
        if ref is None:
            R = models.RefModel(model, [psr], params)
            N = R.white
            d = np.sqrt(np.diag(N))
            S = N / np.outer(d, d)
            cond = np.linalg.cond(S)
            inv = np.linalg.inv(S) / np.outer(d, d)
            ref = {
                "rNr": (r @ inv @ r, (np.abs(r) / d) @ (np.abs(r) / d)),
                "TNr": (T.T @ inv @ r, (np.abs(T).T / d) @ (np.abs(r) / d)),
                "TNT": (T.T @ inv @ T, (np.abs(T).T / d) @ (np.abs(T).T / d).T),
                "ld": np.linalg.slogdet(S)[1] + 2 * np.sum(np.log(d)),
            }
            # (differences within an epoch count with the measurement errors alone)
            for k in ("rNr", "TNr", "TNT"):
                ref[k] = (ref[k][0], np.maximum(ref[k][1], np.abs(ref[k][0])))
        nd = b.pta.get_ndiag(params)[0]
        rr, ld = nd.solve(r, left_array=r, logdet=True)
        tol = 1e-10 + 1e-13 * cond
        # scale by the number of TOAs: within an epoch the terms mix
        close(rr, ref["rNr"][0], "%s: rNr" % m, rtol=tol * n, scale=ref["rNr"][1])
        close(nd.solve(r, left_array=T), ref["TNr"][0], "%s: TNr" % m, rtol=tol * n, scale=np.sqrt(np.outer(np.diag(ref["TNT"][1]), ref["rNr"][1]))[:, 0])
        close(nd.solve(T, left_array=T), ref["TNT"][0], "%s: TNT" % m, rtol=tol * n, scale=np.sqrt(np.outer(np.diag(ref["TNT"][1]), np.diag(ref["TNT"][1]))))
        need(abs(ld - ref["ld"]) <= tol * n * 30, "%s: logdet %r instead of %r", m, float(ld), ref["ld"])
    nt = R.parts[0].K.any()
    return {"nontrivial": bool(nt), "labels": [str(case["sel"] if isinstance(case["sel"], str) else case["sel"][0])]}


PROP = Prop(
    "W02",
    "random variances over several decades, disjoint epochs (interleaved, adjacent, none), every pair of operand shapes and memory layouts; "
    "compared with 60-digit dense algebra; non-trivial: at least one epoch with two or more TOAs",
    [Sub("containers", case, run, 10000, 400000), Sub("wide", lambda: case(large=True), run, 300, 12000), Sub("pulsar", psr_case, run_psr, 3000, 100000), Sub("large", lambda: gen.bigger(psr_case()), run_psr, 500, 20000)],
    ["FastShermanMorrison comes from another package and is only checked for the products the library asks of it"],
)
