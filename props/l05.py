"""L05: a model means the same however it is composed."""
from hypothesis import strategies as st

from pbt import gen, models, synth
from pbt.core import Prop, Sub
from pbt.helpers import Case, PHICOND_MAX, labels, ll_tol, need


@st.composite
def case(draw, npsr=(1, 3), **kw):
    psrs = draw(gen.psr_specs(npsr))
    n = len(psrs)
    if n == 1:
        kw["commons"] = (0, 1)
    model = draw(gen.model(n, **kw))
    k = len(model["signals"])
    return dict(
        psrs=psrs,
        model=model,
        vs=draw(gen.SEEDS),
        sigperm=draw(st.permutations(range(k))),
        psrperm=draw(st.permutations(range(n))),
        splits=draw(st.lists(st.integers(0, 10), min_size=1, max_size=6)),
    )


def tree(metas, splits):
    """Add the signals with a grouping chosen by 'splits'."""
    from enterprise.signals import signal_base

    splits = list(splits)

    def go(ms):
        if len(ms) == 1:
            return ms[0]
        k = 1 + (splits.pop(0) if splits else 0) % (len(ms) - 1)
        return go(ms[:k]) + go(ms[k:])

    m = go(metas)
    return m if len(metas) > 1 else signal_base.SignalCollection(metas)


def run(case):
    from enterprise.signals import signal_base

    c = Case(case)
    want, scale, cond = c.ref.loglike()
    if cond > 1e11 or c.ref.phicond() > PHICOND_MAX:
        return {"nontrivial": False, "labels": ["ill-conditioned"]}
    tol = ll_tol(c.ref) * scale
    base = float(c.pta.get_lnlikelihood(c.params))
    const = c.defaults.dict()

    def check(pta, what):
        if const:
            pta.set_default_params(const)
        names = sorted(p.name for p in pta.params)
        need(names == sorted(p.name for p in c.pta.params), "%s: parameters %s", what, names)
        got = float(pta.get_lnlikelihood(c.params))
        need(abs(got - base) <= tol, "%s: log-likelihood %r instead of %r", what, got, base)

    sigs = case["model"]["signals"]
    perm = case["sigperm"]

    def collections(order, grouping):
        metas = [models.real_signal(s) for s in sigs]
        out = []
        for i, psr in enumerate(c.psrs):
            ms = [metas[k] for k in order if i in sigs[k].get("only", [i])]
            out.append(tree(ms, grouping)(psr))
        return out

    # order of the signals and grouping of the additions
    scs = collections(perm, case["splits"])
    check(signal_base.PTA(scs), "signals permuted and regrouped")
    # the operands of an addition are as they were, and can be used again
    psr = c.psrs[0]
    here = [k for k in perm if 0 in sigs[k].get("only", [0])]
    if len(here) > 1:
        metas = [models.real_signal(s) for s in sigs]
        j = 1 + case["splits"][-1] % (len(here) - 1)
        parts = [tree([metas[k] for k in ks], case["splits"]) for ks in (here[:j], here[j:])]
        tell = lambda: [[list(p(psr).keys()), sorted(x.name for x in p(psr).params)] if isinstance(p, signal_base.MetaCollection) else [p(psr).signal_id] for p in parts]
        before = tell()
        sums = [parts[0] + parts[1], parts[1] + parts[0], parts[0] + parts[1]]
        after = tell()
        need(before == after, "the operands of an addition changed: %s instead of %s", after, before)
        keys = [sorted(s(psr).keys()) for s in sums]
        need(keys[0] == keys[1] == keys[2] and len(keys[0]) == len(here), "sums have the signals %s", keys)
    # order of the pulsars
    scs = collections(range(len(sigs)), case["splits"])
    check(signal_base.PTA([scs[i] for i in case["psrperm"]]), "pulsars permuted")
    # concatenation
    scs = collections(range(len(sigs)), [])
    lab = labels(case)
    if len(scs) > 1:
        a = scs[0] + scs[1]
        for s in scs[2:]:
            a = a + s
        check(a, "pulsar models added one by one")
        need(a.pulsars == [p.name for p in c.psrs], "pulsars of the sum: %s", a.pulsars)
        k = 1 + case["splits"][0] % (len(scs) - 1)
        b = signal_base.PTA(scs[:k]) + signal_base.PTA(scs[k:])
        check(b, "sum of two arrays")
        need(b.pulsars == [p.name for p in c.psrs], "pulsars of the sum of arrays: %s", b.pulsars)
        p1, p2 = signal_base.PTA(scs[:k]), signal_base.PTA(scs[k:])
        both, again = p1 + p2, p1 + p2
        names = [[p.psrname for p in x] for x in (scs[:k], scs[k:])]
        need([p1.pulsars, p2.pulsars] == names and again.pulsars == both.pulsars == b.pulsars, "adding arrays changed them: %s, %s", p1.pulsars, p2.pulsars)
        check(signal_base.PTA(scs[:-1]) + scs[-1], "array plus pulsar model")
        # without correlated signals the array is the product of its pulsars
        if not gen.has_common(sigs) or all(len(s.get("only", range(len(scs)))) <= 1 for s in sigs if gen.has_common([s])):
            singles = 0.0
            for s in collections(range(len(sigs)), []):
                p1 = signal_base.PTA([s])
                if const:
                    p1.set_default_params(const)
                singles += float(p1.get_lnlikelihood(c.params))
            need(abs(singles - base) <= tol, "sum of single-pulsar log-likelihoods %r, array %r", singles, base)
            lab.append("uncorrelated array")
    else:
        check(signal_base.PTA(scs[0]), "single pulsar model without list")
    return {"nontrivial": len(sigs) > 2 and (list(perm) != list(range(len(sigs))) or len(scs) > 1), "labels": lab}


PROP = Prop(
    "L05",
    "random models rebuilt with the signals permuted, the additions regrouped, the pulsars permuted, pulsar models and arrays "
    "added, and split into single pulsars; non-trivial: three or more signals and a real permutation or several pulsars",
    [
        Sub("single", lambda: case((1, 1), gps=(0, 3)), run, 800, 40000),
        Sub("array", lambda: case((2, 4), gps=(0, 2)), run, 800, 40000),
        Sub("uncorrelated", lambda: case((2, 3), gps=(0, 2), commons=(0, 0)), run, 500, 20000),
        Sub("large", lambda: gen.bigger(case((1, 2), gps=(0, 2))), run, 360, 15000),
    ],
)
