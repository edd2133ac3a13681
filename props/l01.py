"""L01: the array likelihood is the exact Gaussian likelihood of the stated model."""
from hypothesis import strategies as st

from pbt import gen
from pbt.core import Prop, Sub
from pbt.helpers import PHICOND_MAX, Case, labels, ll_tol, lnl, methods_for, need


@st.composite
def case(draw, npsr=(1, 3), **kw):
    psrs = draw(gen.psr_specs(npsr, orders=("sorted", "sorted", "shuffled")))
    return dict(
        psrs=psrs,
        model=draw(gen.model(len(psrs), **kw)),
        vs=draw(gen.SEEDS),
        dense_chol=draw(st.booleans()),
        vector=draw(st.booleans()),
        default_method=draw(st.booleans()),
    )


@st.composite
def large_case(draw):
    psrs, model = draw(gen.large(dets=(0, 1), commons=(0, 2), gps=(0, 2)))
    return dict(psrs=psrs, model=model, vs=draw(gen.SEEDS), dense_chol=draw(st.booleans()), vector=draw(st.booleans()), default_method=draw(st.booleans()))


def run(case):
    c = Case(case, dense_chol=case["dense_chol"])
    want, scale, cond = c.ref.loglike()
    if cond > 1e11 or c.ref.phicond() > PHICOND_MAX:
        return {"nontrivial": False, "labels": ["ill-conditioned"]}
    x = c.vector() if case["vector"] and len(c.pta.params) else c.params
    refused, tol = 0, ll_tol(c.ref) * scale
    for m in methods_for(case):
        got = lnl(c.pta, x, m)
        if got is None:
            refused += 1
            need(m == "partition", "method %s refused the model", m)
            continue
        need(abs(got - want) <= tol, "method %s: log-likelihood %r, dense reference %r", m, got, want)
    if case["default_method"]:
        got = float(c.pta.get_lnlikelihood(x))
        need(abs(got - want) <= tol, "default method: log-likelihood %r, dense reference %r", got, want)
    lab = labels(case) + ["dense_chol" if case["dense_chol"] else "sparse_chol"]
    if refused:
        lab.append("partition refused")
    # a case is non-trivial if some Gaussian process, ECORR or deterministic signal is present
    nt = any(s["t"] not in ("mn", "tneq") for s in case["model"]["signals"])
    return {"nontrivial": nt, "labels": lab}


PROP = Prop(
    "L01",
    "random compositions of signals on random synthetic pulsars (1-4; large: up to 32, or up to 30 frequencies and about 200 TOAs); compared with an independent dense Gaussian "
    "likelihood; non-trivial: the model has at least one signal beyond measurement noise and C is not ill-conditioned",
    [
        Sub("single", lambda: case((1, 1), commons=(0, 0), gps=(0, 3)), run, 1200, 60000),
        Sub("array", lambda: case((2, 3)), run, 1600, 80000),
        Sub("correlated", lambda: case((2, 4), commons=(1, 3), gps=(0, 2), dets=(0, 0)), run, 1600, 80000),
        Sub("large", large_case, run, 240, 10000),
    ],
    ["float64 agreement to 1e-8 (more for priors within 1e-4 of singular, see helpers.ll_tol) of the sum of the magnitudes of the likelihood's terms", "synthetic pulsars stand for real ones"],
)
