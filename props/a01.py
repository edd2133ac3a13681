"""A01: the array object lists, names and finds its contents consistently."""
import re

import numpy as np
from hypothesis import strategies as st

from pbt import gen, models, special, synth
from pbt.core import Prop, Sub
from pbt.helpers import labels, need

NAMES = ["J1234+56", "J1234+5678", "B1855+09", "J1713+0747", "J0030+0451A", "J0030+0451"]


@st.composite
def case(draw, large=False):
    psrs = draw(gen.psr_specs((8, 13), nep=(3, 4)) if large else gen.psr_specs((1, 4)))
    names = draw(st.permutations(NAMES + ["J%02d" % k for k in range(13)] if large else NAMES))
    for s, n in zip(psrs, names):
        s["name"] = n
    model = draw(gen.model(len(psrs)))
    for s in model["signals"]:  # named constants, so that the reference can list them
        s["p"] = {k: (["later"] if v[0] == "const" and not isinstance(v[1], list) else v) for k, v in s.get("p", {}).items()}
        s["p"] = {k: (["free"] if v[0] == "const" else v) for k, v in s["p"].items()}
    how = draw(st.lists(st.sampled_from(["list", "sum", "pta+sc", "pta+pta"]), min_size=1, max_size=2))
    return dict(psrs=psrs, model=model, vs=draw(gen.SEEDS), how=how, split=draw(st.integers(1, 3)), evaluate=draw(st.booleans()))


def assemble(scs, how, split):
    from enterprise.signals import signal_base

    PTA = signal_base.PTA

    def same(pta, want, what):
        """Operands are models of their own: adding them elsewhere leaves them as they were."""
        got = list(pta.pulsarmodels)
        need(len(got) == len(want) and all(x is y for x, y in zip(got, want)), "%s has %d pulsars instead of %d after the sum", what, len(got), len(want))
        names = sorted({p.name for sc in want for p in sc.params})
        need(sorted(p.name for p in pta.params) == names and list(pta.signals) == [s.name for sc in want for s in sc.signals], "%s lists other parameters or signals after the sum", what)

    if len(scs) < 2 or how == "list":
        given = list(scs)
        out = PTA(given)
        need(len(given) == len(scs) and all(x is y for x, y in zip(given, scs)), "the list of models was changed")
        return out
    if how == "sum":
        out = scs[0] + scs[1]
        for s in scs[2:]:
            out = out + s
        return out
    k = min(split, len(scs) - 1)
    if how == "pta+sc":
        out = PTA(list(scs[:k]))
        for i, s in enumerate(scs[k:]):
            last, out = out, out + s
            same(last, scs[: k + i], "the array a pulsar was added to")
        return out
    a, b = PTA(list(scs[:k])), PTA(list(scs[k:]))
    out = a + b
    same(a, scs[:k], "the first array")
    same(b, scs[k:], "the second array")
    a + b
    same(out, scs, "the sum")
    return out


def unknown(f, key, errors, what):
    try:
        f(key)
    except errors:
        return
    need(False, "%s: %r was found", what, key)


def lookups(pta, scs, psrs):
    names = [p.name for p in psrs]
    n = len(names)
    need(len(pta) == n and pta.keys() == names and pta.pulsars == names, "pulsars %s, expected %s", pta.keys(), names)
    need(all(a is b for a, b in zip(pta.values(), scs)) and len(pta.values()) == n, "values() are not the pulsar models that were added")
    need(all(a is b for a, b in zip(pta.pulsarmodels, scs)) and len(pta.pulsarmodels) == n, "pulsarmodels are not the pulsar models that were added")
    need([k for k, v in pta.items()] == names and all(v is s for (k, v), s in zip(pta.items(), scs)), "items() disagree")
    for i, nm in enumerate(names):
        need(pta[i] is scs[i] and pta[i - n] is scs[i] and pta[nm] is scs[i], "look-up of pulsar %d (%s)", i, nm)
        need(scs[i].psrname == nm, "pulsar model %d is called %s", i, scs[i].psrname)
    need(len(list(iter(pta))) == n and all(a is b for a, b in zip(pta, scs)), "iteration over the array")
    for bad in ("J9999+9999", names[0] + "x", names[0][:-1], ""):
        if bad not in names:
            unknown(pta.__getitem__, bad, KeyError, "array")
    unknown(pta.__getitem__, n, IndexError, "array")
    need(all(nm in repr(pta) for nm in names), "repr lists %r", repr(pta))
    seen = []
    for sc in scs:
        sigs = list(sc.signals)
        ids = [s.signal_id for s in sigs]
        need(len(set(ids)) == len(ids), "signal ids %s are not unique", ids)
        need(len(sc) == len(sigs) and sc.keys() == ids, "signals %s of %s, expected %s", sc.keys(), sc.psrname, ids)
        need(all(a is b for a, b in zip(sc.values(), sigs)) and [k for k, v in sc.items()] == ids and all(v is s for (k, v), s in zip(sc.items(), sigs)), "signal iteration of %s", sc.psrname)
        for i, s in enumerate(sigs):
            need(sc[i] is s and sc[i - len(sigs)] is s and sc[ids[i]] is s, "look-up of signal %s of %s", ids[i], sc.psrname)
            need(s.name == sc.psrname + "_" + ids[i], "signal %s of %s is called %s", ids[i], sc.psrname, s.name)
            need(pta.get_signal(s.name) is s and pta.signals[s.name] is s, "signal %s of the array", s.name)
            seen.append(s.name)
        unknown(sc.__getitem__, "no such signal", KeyError, "pulsar model")
        unknown(sc.__getitem__, len(sigs), IndexError, "pulsar model")
    need(len(set(seen)) == len(seen), "signal names are not unique: %s", seen)
    need(list(pta.signals) == seen, "signals %s, expected %s", list(pta.signals), seen)
    unknown(pta.get_signal, names[0], KeyError, "array")
    return seen


COUNT = re.compile(r"^(Total|Varying|Common|Fixed) params: (\d+)$|^(Number of pulsars): (\d+)$", re.M)


def counts(text):
    out = {}
    for a, n, b, m in COUNT.findall(text):
        need((a or b) not in out, "%s is reported twice", a or b)
        out[a or b] = int(n or m)
    return out


def own_params(names, sizes):
    return [n for n in names for _ in range(sizes.get(n) or 1)]


def summaries(pta, scs, varying, fixed, sizes):
    """varying, fixed: expected names; sizes of vector parameters."""
    nvar = sum(sizes.get(n) or 1 for n in varying)
    ncom = sum(sizes.get(n) or 1 for n in varying if not any(n.startswith(sc.psrname + "_") for sc in scs))
    want = {"Total": nvar + len(fixed), "Varying": nvar, "Common": ncom, "Fixed": len(fixed), "Number of pulsars": len(scs)}
    for kw in ({}, {"include_params": False}, {"include_params": True}):
        text = pta.summary(**kw)
        got = counts(text)
        need(got == want, "summary(%s) counts %s, expected %s", kw, got, want)
        rows = [line.split() for line in text.splitlines()]
        rows = [(r[0], int(r[2])) for r in rows if len(r) == 3 and r[0] in pta.signals and r[2].isdigit()]
        expect = [(s.name, len(s.param_names)) for sc in scs for s in sc.signals]
        need(rows == expect, "summary lists the signals %s, expected %s", rows, expect)
        listed = set(re.findall(r"^(\S+?):", text, re.M))
        if kw.get("include_params", True):
            missing = [n for n in sorted(varying | fixed) if n not in listed and n not in text]
            need(not missing, "summary does not list %s", missing)
    need(pta.summary(to_stdout=True) is None, "summary(to_stdout=True) returned text")


def run(case):
    psrs = [synth.make_psr(s) for s in case["psrs"]]
    b = models.Built(case["model"], psrs)
    d = gen.Defaults(case["vs"])
    values = models.values_for(b.pta, case["vs"])
    ref = models.RefModel(case["model"], psrs, values, d)
    varying, fixed = set(ref.used) - set(d.names), set(d.names)
    sizes = {p.name: p.size for p in b.pta.params}
    need(set(sizes) == varying, "parameters %s, expected %s", sorted(sizes), sorted(varying))
    b.pta.set_default_params(d.dict())  # a basis cannot be built without its constants
    if case["evaluate"]:
        b.pta.get_lnlikelihood(values)
    seen = None
    for how in case["how"]:
        pta = assemble(b.scs, how, case["split"])
        got = lookups(pta, b.scs, psrs)
        need(seen is None or got == seen, "the way of assembling changed the signals")
        seen = got
        summaries(pta, b.scs, varying, fixed, sizes)
        need(pta.param_names == b.pta.param_names, "the way of assembling changed the parameters")
    return {"nontrivial": len(seen) > 1, "labels": labels(case) + case["how"] + (["vector"] if any(sizes.values()) else []) + (["fixed"] if fixed else [])}


@st.composite
def special_case(draw):
    kind = draw(st.sampled_from(special.KINDS))
    psrs = [draw(gen.psr_spec(index=i)) for i in range(draw(st.integers(1, 3)))]
    for s in psrs:
        s["ndmx"] = draw(st.integers(1, 3))
    return dict(kind=kind, opt=draw(st.integers(0, 5)), psrs=psrs, vs=draw(gen.SEEDS))


def run_special(case):
    psrs = special.pulsars(case)
    pta = special.build(case["kind"], psrs, case["opt"])
    scs = list(pta.pulsarmodels)
    lookups(pta, scs, psrs)
    from enterprise.signals.parameter import ConstantParameter

    varying, fixed, sizes = set(), set(), {}
    for s in pta.signals.values():
        for p in s.params:
            varying.add(p.name)
            sizes[p.name] = p.size
        known = getattr(s, "_params", None)
        if known is None:
            return {"nontrivial": True, "labels": [case["kind"]]}
        fixed |= {p.name for p in known.values() if isinstance(p, ConstantParameter)}
    need(set(p.name for p in pta.params) >= varying, "the array lacks parameters %s", sorted(varying - {p.name for p in pta.params}))
    if {p.name for p in pta.params} == varying:
        summaries(pta, scs, varying, fixed, sizes)
    return {"nontrivial": True, "labels": [case["kind"]]}


PROP = Prop(
    "A01",
    "random models on 1-4 pulsars (large: 8-13) whose names begin alike, assembled in every way; all look-ups, listings and iterations compared with the objects that were added, the summary with names and counts derived from the model specification; "
    "models with coefficients, ephemeris and wideband signals; non-trivial: at least two signals",
    [Sub("models", case, run, 2400, 50000), Sub("large", lambda: case(large=True), run, 150, 4000), Sub("special", special_case, run_special, 320, 6000)],
    ["signal ids are distinct within a pulsar", "hyperparameters are not generated here (see P03)"],
)
