"""R02: saving a pulsar to a feather file and loading it returns the same pulsar."""
import json
import os
import shutil
import tempfile

import numpy as np
from hypothesis import strategies as st

from pbt import fakes, gen

fakes.install_timing_packages()  # before anything imports enterprise.pulsar

from pbt import models, synth  # noqa: E402
from pbt.core import Prop, Sub  # noqa: E402
from pbt.helpers import PHICOND_MAX, Case, close, labels, need  # noqa: E402
from props import r01  # noqa: E402

NAMES = ["J1234+56", "J1234+5678", "J1234+5678A", "B1855+09", "J1713+0747"]
ARRAYS = ["toas", "stoas", "toaerrs", "residuals", "freqs", "Mmat", "sunssb", "pos_t", "planetssb"]
LABELS = ["backend_flags", "telescope"]
SCALARS = ["dm", "phi", "theta"]
WORDS = ["efac", "log10_t2equad", "red_noise_gamma", "430_ASP_efac", "A_efac", "x"]


@st.composite
def case(draw):
    sp = draw(r01.spec())
    sp["n"], sp["name"] = max(sp["n"], 2), draw(st.sampled_from(NAMES))
    cycles = []
    for _ in range(draw(st.integers(1, 3))):
        cycles.append(dict(noise=draw(st.sampled_from(["keep", "keep", "given", "given", "attr"])), seed=draw(gen.SEEDS), read=draw(st.sampled_from(["factory", "filepath", "class"])), write=draw(st.sampled_from(["method", "class"])), file=draw(st.integers(0, 1))))
    return dict(spec=sp, kind=draw(st.sampled_from(["tempo2", "pint", "synth"])), sort=draw(st.booleans()), planets=True, route="class", cut=draw(st.sampled_from([None, None, 0.3, 0.6])), nastro=draw(st.integers(1, 14)), cycles=cycles)


def content(psr):
    """Everything the file format covers, as plain independent copies."""
    out = {f: np.array(getattr(psr, f), float) for f in ARRAYS}
    out.update({f: [str(x) for x in getattr(psr, f)] for f in LABELS})
    out["flags"] = {str(k): [str(x) for x in v] for k, v in psr.flags.items()}
    out["name"], out["dmx"] = psr.name, json.loads(json.dumps(psr.dmx))
    out["pdist"], out["pos"] = [float(x) for x in psr.pdist], [float(x) for x in psr.pos]
    out.update({f: float(getattr(psr, f)) for f in SCALARS})
    return out


def same(got, want, what):
    for k, w in want.items():
        g = got[k]
        if isinstance(w, np.ndarray):
            need(g.shape == w.shape, "%s: %s has shape %s instead of %s", what, k, g.shape, w.shape)
            need(np.array_equal(g, w, equal_nan=True), "%s: %s differs", what, k)
        else:
            need(g == w, "%s: %s is %r instead of %r", what, k, g, w)


def noise_dict(seed):
    rng = np.random.default_rng(seed)
    keys = ["%s_%s" % (n, w) for n in NAMES for w in WORDS] + ["gw_crn_gamma", "gw_crn_log10_A"]
    return {k: float(np.round(rng.normal(), 6)) for k in keys if rng.integers(3)}


def own(nd, name):
    return {k: v for k, v in nd.items() if k.startswith(name + "_")}


def start(case):
    if case["kind"] == "synth":
        sp = case["spec"]
        psr = synth.make_psr(dict(seed=sp["seed"], name=sp["name"], nep=max(3, sp["n"] // 2), ntm=5, order="shuffled" if sp["order"] == "shuffled" else "sorted"))
        extra = np.random.default_rng(sp["seed"]).normal(size=(len(psr.toas), case["nastro"]))
        psr.Mmat = np.hstack([psr.Mmat, extra])
        n = len(psr.toas)
        psr.flags["my_flag_2"] = np.array(["%d_%s" % (i, ["", "é", "a b"][i % 3]) for i in range(n)])
        return psr
    psr = r01.build(case, fakes.raw_pulsar(case["spec"]))
    if case["cut"] is not None and len(psr.toas) > 3:
        t = np.sort(psr.toas)
        psr.filter_data(start_time=float(t[int(case["cut"] * (len(t) - 2))] + t[int(case["cut"] * (len(t) - 2)) + 1]) / 2 / 86400)
    return psr


def save(psr, path, nd, how):
    import enterprise.pulsar as ep

    if how == "method" and hasattr(psr, "to_feather"):
        psr.to_feather(path, noisedict=nd)
    else:
        ep.FeatherPulsar.save_feather(psr, path, noisedict=nd)


def load(path, how):
    import enterprise.pulsar as ep

    return {"factory": lambda: ep.Pulsar(path), "filepath": lambda: ep.Pulsar(filepath=path), "class": lambda: ep.FeatherPulsar.read_feather(path)}[how]()


def run(case):
    psr = start(case)
    want = content(psr)
    stored = None  # the noise dictionary the object carries
    tmp = tempfile.mkdtemp(prefix="r02_", dir=os.environ.get("VERIF_TMP"))
    try:
        for k, c in enumerate(case["cycles"]):
            what = "cycle %d" % (k + 1)
            nd = None
            if c["noise"] == "given":
                nd = noise_dict(c["seed"])
                stored = own(nd, psr.name)
            elif c["noise"] == "attr":
                psr.noisedict = noise_dict(c["seed"])
                stored = own(psr.noisedict, psr.name)
            given = None if nd is None else dict(nd)
            path = os.path.join(tmp, "%s_%d.feather" % (psr.name, c["file"]))
            save(psr, path, nd, c["write"])
            need(nd == given, "saving changed the noise dictionary")
            same(content(psr), want, what + ", the saved pulsar afterwards")
            got = load(path, c["read"])
            same(content(got), want, what)
            need((getattr(got, "noisedict", None) or {}) == (stored or {}), "%s: noise dictionary %s instead of %s", what, getattr(got, "noisedict", None), stored)
            need(len(got.toas) == len(got.toas[got._isort]) if hasattr(got, "_isort") else True, "sorting index")
            psr = got
    finally:
        shutil.rmtree(tmp, ignore_errors=True)
    ncol = want["Mmat"].shape[1]
    return {"nontrivial": len(want["toas"]) > 1 and ncol > 1, "labels": [case["kind"], "cols>10" if ncol > 10 else "cols<=10", "cycles=%d" % len(case["cycles"]), "dmx" if want["dmx"] else "nodmx", "noise" if stored else "nonoise"]}


# --------------------------------------------------------------------------- models on loaded pulsars


@st.composite
def model_case(draw):
    psrs = draw(gen.psr_specs((1, 2)))
    for s in psrs:
        s["order"] = draw(st.sampled_from(["sorted", "shuffled"]))
    return dict(psrs=psrs, model=draw(gen.model(len(psrs), gps=(0, 2), commons=(0, 1))), vs=draw(gen.SEEDS))


def run_model(case):
    psrs = [synth.make_psr(s) for s in case["psrs"]]
    a = Case(case, psrs=psrs)
    if a.ref.phicond() > PHICOND_MAX:
        return {"nontrivial": False, "labels": ["ill-conditioned"]}
    tmp = tempfile.mkdtemp(prefix="r02_", dir=os.environ.get("VERIF_TMP"))
    try:
        loaded = []
        for k, p in enumerate(psrs):
            f = os.path.join(tmp, "%d.feather" % k)
            save(p, f, None, "class")
            q = load(f, "factory")
            loaded.append(q)
    finally:
        shutil.rmtree(tmp, ignore_errors=True)
    b = Case(case, psrs=loaded, params=a.params)
    need(a.pta.param_names == b.pta.param_names, "parameters %s instead of %s", b.pta.param_names, a.pta.param_names)
    la, lb = float(a.pta.get_lnlikelihood(a.params)), float(b.pta.get_lnlikelihood(a.params))
    close(lb, la, "likelihood with the loaded pulsars", rtol=1e-12)
    for x, y in zip(a.pta.get_basis(a.params) or [], b.pta.get_basis(a.params) or []):
        if x is not None:
            need(np.array_equal(x, y), "a basis differs for the loaded pulsar")
    return {"nontrivial": True, "labels": labels(case)}


PROP = Prop(
    "R02",
    "pulsars of all three classes (2-60 TOAs, shuffled or sorted, cut in time, up to 17 design-matrix columns, 0-6 flags with blanks, DMX) written and read over 1-3 cycles with noise dictionaries of pulsars whose names begin alike, "
    "bitwise comparison of everything the format covers; likelihoods and bases of random models on loaded pulsars; non-trivial: more than one TOA and one column",
    [Sub("roundtrip", case, run, 1200, 30000), Sub("models", model_case, run_model, 300, 8000)],
    ["pulsars carry planetary positions (the format stores them)", "flags are strings", "positions and distances may come back as lists"],
)
