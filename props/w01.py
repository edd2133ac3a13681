"""W01: white-noise variances follow the documented definitions in every selection."""
import numpy as np
from hypothesis import strategies as st

from pbt import gen, models
from pbt.core import Prop, Sub
from pbt.helpers import Case, close, dense, need, noise_inverse

KINDS = ("free", "free", "free", "const", "later", "shared")
WIDE = {"efac": (-3.0, 3.0), "log10_t2equad": (-9.0, -3.0), "log10_tnequad": (-9.0, -3.0), "idx": (-5.0, 5.0)}


@st.composite
def one(draw, k):
    t = draw(st.sampled_from(["mn", "mn", "mn", "tneq", "wn"]))
    names = {"mn": ["efac"], "tneq": ["log10_tnequad"], "wn": ["efac", "idx"]}[t]
    if t == "mn" and draw(st.booleans()):
        names = ["efac", "log10_t2equad"]
    p = {}
    for q in names:
        v = draw(gen.pspec(q, KINDS))
        p[q] = ["shared", "shr_" + q] if v[0] == "shared" else v
    return dict(t=t, sel=draw(gen.selection()), p=p, name="" if k == 0 and t != "wn" else "extra%d" % k)


@st.composite
def case(draw):
    n = draw(st.integers(1, 2))
    psrs = [draw(gen.psr_spec(index=i, nep=(3, 9), orders=("sorted", "shuffled"))) for i in range(n)]
    sigs = [draw(one(k)) for k in range(draw(st.integers(1, 3)))]
    ecorr = draw(st.sampled_from([None, None, "sherman-morrison", "block", "sparse", "fast-sherman-morrison"]))
    if not ecorr:
        for s in psrs:
            s["errexp"] = draw(st.sampled_from([-6, -6, -9, -8, -7, -3]))
    return dict(psrs=psrs, model={"signals": sigs}, vs=draw(gen.SEEDS), ecorr=ecorr)


def wide_values(pta, seed, more):
    """more: noise far below and above the usual (without ECORR, whose conditioning it would spoil)."""
    out = {}
    for p in pta.params:
        for suffix, (lo, hi) in WIDE.items():
            if p.name.endswith(suffix):
                if more and "equad" in suffix:
                    lo, hi = -13.0, -1.0
                out[p.name] = lo + (hi - lo) * models._u(seed, p.name, 3)
                break
        else:
            out[p.name] = models.value_for(p.name, p.size, seed, 0)
    return out


def run(case):
    model = case["model"]
    if case["ecorr"]:
        # a kernel on a selection without epochs of its own: variances must survive being combined with it
        model = {"signals": model["signals"] + [dict(t="ecorr", sel="none", method=case["ecorr"], p={"log10_ecorr": ["free"]})]}
        model["signals"].insert(0, dict(t="mn", sel="none", p={"efac": ["const", 1.3]}, name="base"))
    full = dict(case, model=model)
    c = Case(full, ref=False)
    vals = wide_values(c.pta, case["vs"], not case["ecorr"])
    c = Case(full, params=vals)
    labels = sorted({s["t"] for s in case["model"]["signals"]} | {str(s["sel"] if isinstance(s["sel"], str) else s["sel"][0]) for s in case["model"]["signals"]})
    ndiags = c.pta.get_ndiag(vals)
    names = set(c.pta.param_names)
    want_names = {q for q in c.ref.used if q not in c.defaults.names}
    need(names == want_names, "varying parameters %s instead of %s", sorted(names), sorted(want_names))
    empty = False
    for i, psr in enumerate(c.psrs):
        n = len(psr.toas)
        part = c.ref.parts[i]
        if case["ecorr"]:
            W = np.diag(part.nvar) + part.K
            inv, ld = noise_inverse(ndiags[i], n)
            d = np.sqrt(part.nvar)
            S = W / np.outer(d, d)
            close(inv * np.outer(d, d), np.linalg.inv(S), "scaled inverse noise of pulsar %d" % i, rtol=1e-8 * np.linalg.cond(S), scale=1.0)
            want = np.linalg.slogdet(S)[1] + 2 * np.sum(np.log(d))
            need(abs(ld - want) < 1e-9 * (abs(want) + 100), "log-determinant %r instead of %r", ld, want)
        else:
            got = np.asarray(dense(ndiags[i]), float)
            close(got, part.nvar, "variances of pulsar %d" % i, rtol=1e-12)
            empty = empty or np.any(part.nvar == 0)
    if empty:
        labels.append("TOAs outside")
    nt = any(s["sel"] != "none" or len(s["p"]) > 1 for s in case["model"]["signals"])
    return {"labels": labels, "nontrivial": nt}


PROP = Prop(
    "W01",
    "1-3 variance terms with every kind of selection (filtering ones included), free, constant, deferred and shared parameters over "
    "six decades (twelve without ECORR), TOA errors from 1e-9 to 1e-3 s, alone or with an ECORR kernel; compared with the per-TOA definition; non-trivial: a selection or an EQUAD is involved",
    [Sub("variance", case, run, 4000, 150000), Sub("large", lambda: gen.bigger(case()), run, 600, 20000)],
    ["a TOA may belong to several groups of one dictionary selection; it then gets the sum of their variances"],
)
