"""Evaluation histories: sequences of parameter changes, changes of constants and queries."""
import warnings

import numpy as np
from hypothesis import strategies as st

from . import models
from .core import Violation
from .helpers import dense, noise_inverse

QUERIES = ["ll", "ll", "ll", "delay", "ndiag", "basis", "phi", "phiinv", "TNr", "TNT", "rNr", "logprior", "siglevel"]


@st.composite
def ops(draw, n=(3, 10), methods=("cliques", "sparse"), later=True):
    out = []
    for _ in range(draw(st.integers(*n))):
        op = {"set": draw(st.lists(st.tuples(st.integers(0, 40), st.integers(0, 2)).map(list), max_size=4))}
        k = draw(st.integers(0, 9))
        if k == 0:
            op["all"] = draw(st.integers(0, 2))
        if later and k in (1, 2):
            op["default"] = draw(st.lists(st.tuples(st.integers(0, 40), st.integers(0, 2)).map(list), min_size=1, max_size=4))
        op["q"] = draw(st.sampled_from(QUERIES))
        op["method"] = draw(st.sampled_from(list(methods)))
        op["inplace"] = draw(st.booleans())
        if draw(st.integers(0, 3)) == 0:  # before that, something that fails or gives no number
            op["bad"] = [draw(st.sampled_from(["missing", "nan", "inf", "huge", "low", "text"])), draw(st.integers(0, 40)), draw(st.sampled_from(QUERIES)), draw(st.integers(0, 1))]
        out.append(op)
    return out


def query(pta, q, params, method, psrs):
    """Public results as a list of (label, float array) plus the raw objects, for comparison and aliasing checks."""
    res = []
    if q == "ll":
        try:
            res.append(("likelihood", np.array(pta.get_lnlikelihood(params, phiinv_method=method), float)))
        except NotImplementedError:
            res.append(("likelihood refused", np.zeros(0)))
    elif q == "logprior":
        res.append(("logsignalprior", np.array(pta.get_logsignalprior(params), float)))
    elif q == "delay":
        res += [("delay %d" % i, np.broadcast_to(np.asarray(d, float), (len(p.toas),))) for i, (d, p) in enumerate(zip(pta.get_delay(params), psrs))]
    elif q == "ndiag":
        for i, (nd, p) in enumerate(zip(pta.get_ndiag(params), psrs)):
            inv, ld = noise_inverse(nd, len(p.toas))
            res += [("inverse noise %d" % i, inv), ("noise logdet %d" % i, np.array(ld))]
    elif q == "rNr":
        res += [("rNr, logdet %d" % i, np.array(x, float)) for i, x in enumerate(pta.get_rNr_logdet(params))]
    elif q in ("basis", "TNr", "TNT"):
        f = {"basis": pta.get_basis, "TNr": pta.get_TNr, "TNT": pta.get_TNT}[q]
        res += [("%s %d" % (q, i), None if b is None else np.asarray(b, float)) for i, b in enumerate(f(params))]
    elif q == "phi":
        phi = pta.get_phi(params)
        for i, b in enumerate(phi if isinstance(phi, list) else [phi]):
            res.append(("phi %d" % i, None if b is None else np.asarray(dense(b), float)))
    elif q == "phiinv":
        try:
            phi = pta.get_phiinv(params, logdet=True, method=method)
        except NotImplementedError:
            return [("phiinv refused", np.zeros(0))]
        for i, b in enumerate(phi if isinstance(phi, list) else [phi]):
            if b is None:
                res.append(("phiinv %d" % i, None))
            else:
                res += [("phiinv %d" % i, np.asarray(dense(b[0]), float)), ("logdet phi %d" % i, np.array(b[1], float))]
    elif q == "siglevel":
        for name, s in sorted(pta.signals.items()):
            # copies: the single signals' own arrays are documented as working storage
            for what in ("get_delay", "get_basis", "get_phi"):
                b = getattr(s, what)(params)
                res.append(("%s of %s" % (what, name), None if b is None else np.array(dense(b), float)))
            nd = s.get_ndiag(params)
    else:
        raise KeyError(q)
    return res


def compare(got, want, where, rtol=1e-7):
    if [g[0] for g in got] != [w[0] for w in want]:
        raise Violation("%s: different results listed: %s / %s" % (where, [g[0] for g in got], [w[0] for w in want]))
    for (lab, a), (_, b) in zip(got, want):
        if (a is None) != (b is None):
            raise Violation("%s: %s is %s, fresh model has %s" % (where, lab, a, b))
        if a is None:
            continue
        if a.shape != b.shape:
            raise Violation("%s: %s has shape %s, fresh model %s" % (where, lab, a.shape, b.shape))
        if a.size == 0:
            continue
        tol = rtol * (np.abs(b) + (100.0 if lab == "likelihood" else 0.0)) if a.ndim == 0 else rtol * np.max(np.abs(b[np.isfinite(b)]), initial=0.0)
        bad = ~((np.abs(a - b) <= tol) | (a == b) | (np.isnan(a) & np.isnan(b)))
        if np.any(bad):
            k = tuple(np.argwhere(bad)[0]) if a.ndim else ()
            raise Violation("%s: %s differs at %s: %r, fresh model %r" % (where, lab, k, float(a[k]), float(b[k])))


BAD = {"nan": np.nan, "inf": np.inf, "huge": 1e5, "low": -1e5, "text": "x"}


def disturb(pta, bad, st_, psrs, method):
    """An evaluation at impossible values; returns whether it raised an error."""
    kind, i, q, all_ = bad
    names = [n for n, _ in st_.names]
    return spoiled(pta, q, st_.d, names if all_ else names[i % len(names) : i % len(names) + 1] if names else [], kind, method, psrs)


def spoiled(pta, q, params, names, kind, method, psrs):
    d = dict(params)
    for n in names:
        if kind == "missing":
            d.pop(n, None)
        else:
            d[n] = np.full(np.shape(d[n]), BAD[kind]) if np.ndim(d[n]) and kind != "text" else BAD[kind]
    with warnings.catch_warnings(), np.errstate(all="ignore"):
        warnings.simplefilter("ignore")
        try:
            query(pta, q, d, method, psrs)
        except Exception:  # whatever it is: only what comes next matters
            return True
    return False


class State(object):
    """Current parameter values / constants of a history, as picks from a small pool."""

    def __init__(self, params, later, vs):
        self.names = [(p.name, p.size) for p in params]
        self.later = sorted(later)
        self.vs = vs
        self.pick = {n: 0 for n, _ in self.names}
        self.dpick = {n: 0 for n in self.later}
        self.d = {}
        self.refresh()

    def refresh(self):
        for n, size in self.names:
            self.d[n] = models.value_for(n, size, self.vs, self.pick[n])

    def apply(self, op):
        if "all" in op:
            for n in self.pick:
                self.pick[n] = op["all"]
        for i, k in op["set"]:
            if self.names:
                self.pick[self.names[i % len(self.names)][0]] = k
        if not op["inplace"]:
            self.d = {}
        self.refresh()
        new = {}
        for i, k in op.get("default", []):
            if self.later:
                n = self.later[i % len(self.later)]
                self.dpick[n] = k
                new[n] = models.value_for(n, None, self.vs, k)
        return new

    def defaults(self):
        return {n: models.value_for(n, None, self.vs, k) for n, k in self.dpick.items()}
