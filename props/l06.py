"""L06: results do not depend on the order of the TOAs."""
import numpy as np
from hypothesis import strategies as st

from pbt import gen, models, special, synth
from pbt.core import Prop, Sub
from pbt.helpers import Case, PHICOND_MAX, close, labels, ll_tol, lnl, methods_for, need, noise_inverse


@st.composite
def case(draw, npsr=(1, 3), **kw):
    psrs = draw(gen.psr_specs(npsr, kmax=4))
    n = len(psrs)
    kw.setdefault("commons", (0, 2) if n > 1 else (0, 0))
    return dict(
        psrs=psrs,
        model=draw(gen.model(n, **kw)),
        vs=draw(gen.SEEDS),
        perm=[draw(st.sampled_from(["reverse", "random", "random", "rotate", "backend"])) for _ in range(n)],
        pseed=draw(gen.SEEDS),
    )


def permutation(psr, how, seed):
    n = len(psr.toas)
    if how == "reverse":
        return np.arange(n)[::-1]
    if how == "rotate":
        return np.roll(np.arange(n), 1 + seed % max(n - 1, 1))
    if how == "backend":  # grouped by backend, time order inside: how concatenated data sets come
        return np.argsort(psr.backend_flags, kind="stable")
    return np.random.default_rng([seed, n]).permutation(n)


def run(case):
    c = Case(case)
    _, scale, cond = c.ref.loglike()
    if cond > 1e11 or c.ref.phicond() > PHICOND_MAX:
        return {"nontrivial": False, "labels": ["ill-conditioned"]}
    perms = [permutation(p, h, case["pseed"] + i) for i, (p, h) in enumerate(zip(c.psrs, case["perm"]))]
    d = Case(case, psrs=[synth.permute_psr(p, q) for p, q in zip(c.psrs, perms)])
    for m in methods_for(case):
        a, b = lnl(c.pta, c.params, m), lnl(d.pta, c.params, m)
        need((a is None) == (b is None), "method %s refuses only one order", m)
        if a is not None:
            need(abs(a - b) <= ll_tol(c.ref) * scale, "method %s: log-likelihood %r with permuted TOAs, %r before", m, b, a)
    for i, q in enumerate(perms):
        x, y = c.pta.get_delay(c.params)[i], d.pta.get_delay(c.params)[i]
        n = len(q)
        x, y = np.broadcast_to(x, (n,)), np.broadcast_to(y, (n,))
        close(y, x[q], "delays of pulsar %d" % i, rtol=1e-9, scale=np.max(np.abs(x)) + 1e-30)
        r1, l1 = noise_inverse(c.pta.get_ndiag(c.params)[i], n)
        r2, l2 = noise_inverse(d.pta.get_ndiag(c.params)[i], n)
        close(r2, r1[np.ix_(q, q)], "inverse noise of pulsar %d" % i, rtol=1e-6, scale=np.max(np.abs(r1)))
        need(abs(l1 - l2) <= 1e-8 * (abs(l1) + 30 * n), "noise log-determinant of pulsar %d: %r, before %r", i, l2, l1)
    # bases, signal by signal: a permutation of rows; the order of columns that stand for epochs is free
    for name, s in c.pta.signals.items():
        t = d.pta.signals[name]
        F, G = s.get_basis(c.params), t.get_basis(c.params)
        need((F is None) == (G is None), "basis of %s appears or disappears", name)
        if F is not None:
            i = [p.name for p in c.psrs].index(s.psrname)
            same_columns(np.asarray(F)[perms[i]], np.asarray(G), name, svd="svd" in name, free="ecorr" in name)
    moved = any(not np.array_equal(q, np.arange(len(q))) for q in perms)
    return {"nontrivial": moved and len(case["model"]["signals"]) > 1, "labels": labels(case)}


def same_columns(F, G, name, svd, free):
    need(F.shape == G.shape, "basis of %s: shape %s, before %s", name, G.shape, F.shape)
    s = np.max(np.abs(F), axis=0) + 1e-30 if F.size else 0
    if svd:  # singular vectors: defined up to sign
        close(np.abs(G.T @ F), np.eye(F.shape[1]), "basis of %s: overlap of singular vectors" % name, rtol=0, atol=1e-5)
    elif free:
        close(G[:, np.lexsort(G)] if G.size else G, F[:, np.lexsort(F)] if F.size else F, "basis of %s (columns sorted)" % name, rtol=1e-9, scale=1.0)
    else:
        close(G, F, "basis of %s" % name, rtol=1e-9, scale=s)


# other signals

KINDS = ["phys_full", "wideband", "physgp", "coefsel", "tmcoef"]


@st.composite
def special_case(draw):
    n = draw(st.integers(1, 2))
    psrs = [draw(gen.psr_spec(index=i, nep=(4, 7))) for i in range(n)]
    for s in psrs:
        s["ndmx"] = draw(st.integers(1, 3))
    return dict(
        kind=draw(st.sampled_from(KINDS)),
        opt=draw(st.integers(0, 5)),
        psrs=psrs,
        vs=draw(gen.SEEDS),
        perm=[draw(st.sampled_from(["reverse", "random", "rotate", "backend"])) for _ in range(n)],
        pseed=draw(gen.SEEDS),
    )


def run_special(case):
    psrs = special.pulsars(case)
    perms = [permutation(p, h, case["pseed"] + i) for i, (p, h) in enumerate(zip(psrs, case["perm"]))]
    a = special.build(case["kind"], psrs, case["opt"])
    b = special.build(case["kind"], [synth.permute_psr(p, q) for p, q in zip(psrs, perms)], case["opt"])
    params = models.values_for(a, case["vs"])
    for i, (x, y, q) in enumerate(zip(a.get_delay(params), b.get_delay(params), perms)):
        x, y = np.broadcast_to(x, (len(q),)), np.broadcast_to(y, (len(q),))
        close(y, x[q], "%s: delays of pulsar %d" % (case["kind"], i), rtol=1e-9, scale=np.max(np.abs(x)) + 1e-30)
    la, lb = float(a.get_lnlikelihood(params)), float(b.get_lnlikelihood(params))
    need(abs(la - lb) <= 1e-7 * (abs(la) + 1000), "%s: log-likelihood %r with permuted TOAs, %r before", case["kind"], lb, la)
    return {"labels": [case["kind"]], "nontrivial": any(not np.array_equal(q, np.arange(len(q))) for q in perms)}


PROP = Prop(
    "L06",
    "random models evaluated on pulsars whose per-TOA data were permuted (reversed, rotated, shuffled, grouped by backend); "
    "non-trivial: at least one pulsar's order really changed",
    [
        Sub("single", lambda: case((1, 1), gps=(0, 3)), run, 900, 40000),
        Sub("array", lambda: case((2, 3), gps=(0, 2)), run, 700, 30000),
        Sub("large", lambda: gen.bigger(case((1, 2), gps=(0, 2))), run, 360, 15000),
        Sub("special", special_case, run_special, 500, 20000),
    ],
    ["PhysicalEphemerisSignal in its epoch-averaging mode documents sorted TOAs and is left out"],
)
