"""Small shared pieces of the property modules."""
import numpy as np

from . import gen, models, synth
from .core import Violation


def need(cond, msg, *args):
    if not cond:
        raise Violation(msg % args if args else msg)


def close(a, b, what, rtol=1e-9, atol=0.0, scale=None):
    """Elementwise agreement: |a-b| <= rtol*scale + atol (scale: elementwise |b| by default, or given)."""
    a, b = np.asarray(a, dtype=float), np.asarray(b, dtype=float)
    if a.shape != b.shape:
        raise Violation("%s: shape %s instead of %s" % (what, a.shape, b.shape))
    if a.size == 0:
        return
    s = np.maximum(np.abs(b), np.abs(a)) if scale is None else scale
    with np.errstate(invalid="ignore"):
        err = np.abs(a - b)
        ok = (err <= rtol * s + atol) | (a == b) | (np.isnan(a) & np.isnan(b))
    if not np.all(ok):
        bad = np.argwhere(~np.asarray(ok))
        i = tuple(bad[0]) if a.ndim else ()
        raise Violation("%s: got %r, expected %r at %s (%d of %d entries differ)" % (what, float(a[i]), float(b[i]), i, len(bad), a.size))


def relmax(a, b, what, rtol=1e-9):
    """Agreement relative to the largest entry of the expected array."""
    b = np.asarray(b, float)
    s = np.max(np.abs(b)) if b.size else 0.0
    close(a, b, what, rtol=rtol, scale=s, atol=1e-300)


class Case(object):
    """Built pulsars, real model, parameter values and independent reference for a case with psrs/model/vs."""

    def __init__(self, case, psrs=None, dense_chol=False, pick=0, ref=True, params=None):
        self.case = case
        self.psrs = psrs if psrs is not None else [synth.make_psr(s) for s in case["psrs"]]
        self.built = models.Built(case["model"], self.psrs, dense_chol=dense_chol)
        self.pta = self.built.pta
        self.params = params if params is not None else models.values_for(self.pta, case["vs"], pick)
        self.defaults = gen.Defaults(case["vs"], 7)
        self.ref = None
        if ref:
            self.ref = models.RefModel(case["model"], self.psrs, self.params, self.defaults)
            d = self.defaults.dict()
            if d:
                self.pta.set_default_params(d)

    def vector(self, params=None):
        p = self.params if params is None else params
        return np.hstack([np.atleast_1d(p[q.name]) for q in self.pta.params]) if self.pta.params else np.zeros(0)


def labels(case):
    sigs = case["model"]["signals"]
    out = ["psrs=%d" % len(case["psrs"])]
    out += sorted({s["t"] for s in sigs})
    nc = sum(s["t"] in ("crn", "ckern", "ephgp") for s in sigs)
    if nc:
        out.append("commons=%d" % nc)
    if any("only" in s for s in sigs):
        out.append("only")
    if any(v[0] == "later" for s in sigs for v in s.get("p", {}).values()):
        out.append("later")
    if any(v[0] == "shared" for s in sigs for v in s.get("p", {}).values()):
        out.append("shared")
    return out


def lnl(pta, params, method):
    """Likelihood by one inversion method, or None if the method refuses the model."""
    try:
        return float(pta.get_lnlikelihood(params, phiinv_method=method))
    except NotImplementedError:
        return None


def methods_for(case):
    m = ["cliques", "sparse"]
    if gen.partition_ok(case["model"], len(case["psrs"])):
        m.append("partition")
    return m


def noise_inverse(ndiag, n):
    """N^-1 and log det N through the public solve()."""
    one = np.eye(n)
    inv = ndiag.solve(one, left_array=one)
    v = np.ones(n)
    _, ld = ndiag.solve(v, left_array=v, logdet=True)
    return np.asarray(inv, float), float(ld)


def dense(m):
    m = m.toarray() if hasattr(m, "toarray") else np.asarray(m)
    return m


PHICOND_MAX = 3e6  # beyond this the comparison of likelihoods would be too loose to mean much


def ll_tol(ref):
    """Relative tolerance for likelihoods.

    An explicit inverse of a prior with condition number k is off by eps*k relative to its largest entry, which is
    itself up to k times the entries that matter: rounding grows like eps*k^2 (2.4e-19*k^2 seen at worst).
    """
    k = ref.phicond()
    return max(1e-8, 1e-13 * k, 1e-17 * k * k)
