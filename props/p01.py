"""P01: prior densities, log-densities and inverse cdfs are the stated distributions."""
import numpy as np
from hypothesis import strategies as st
from scipy import integrate

from pbt import gen, params
from pbt.core import Prop, Sub
from pbt.helpers import close, need


@st.composite
def case(draw):
    n = draw(st.sampled_from([None, None, None, 1, 2, 3, 5]))
    return dict(
        n=n,
        spec=draw(params.family(n)),
        where=[draw(st.sampled_from(["in", "in", "in", "in", "out", "edge", "far"])) for _ in range(n or 1)],
        u=[draw(st.one_of(st.floats(0, 1), st.sampled_from([0.0, 1.0, 0.5, 1e-12, 1 - 1e-12]))) for _ in range(n or 1)],
        quad=draw(st.integers(0, 9)) == 0,
        seed=draw(gen.SEEDS),
        named=draw(st.booleans()),
    )


def values(case):
    spec = case["spec"]
    n = case["n"] or 1
    rng = np.random.default_rng([case["seed"], 3])
    if spec[0] == "NC":
        L = np.linalg.cholesky(np.array(spec[2]))
        return np.array(spec[1]) + L @ rng.normal(size=n) * rng.uniform(0, 3)
    lo, hi = params.support(spec)
    lo, hi = np.broadcast_to(lo, (n,)), np.broadcast_to(hi, (n,))
    out = lo + (hi - lo) * rng.uniform(0.01, 0.99, n)
    for i, w in enumerate(case["where"]):
        side = rng.integers(2)
        if w == "out" and spec[0] not in ("N",):
            out[i] = (lo[i] - 1e-3 - rng.uniform()) if side and spec[0] != "G" else (hi[i] + 1e-3 + rng.uniform() if spec[0] != "G" else -rng.uniform())
        elif w == "far" and spec[0] not in ("N",):
            out[i] = (-250.0 if side else 250.0) if spec[0] != "G" else -250.0
        elif w == "edge" and spec[0] in ("U", "L"):
            out[i] = lo[i] if side else hi[i]
    return out


def run(case):
    spec, n = case["spec"], case["n"]
    cls = params.real(spec, size=n)
    par = cls("par")
    need(par.name == "par" and par.size == n, "name %r, size %r", par.name, par.size)
    x = values(case)
    val = x if n else float(x[0])
    dens = params.pdf(spec, x)
    with np.errstate(divide="ignore"):
        want_pdf = float(np.prod(dens))
        want_log = float(np.sum(np.log(dens)))
        kw = dict(params={"par": val, "other": 3.0}) if case["named"] else {}
        got_pdf = par.get_pdf(**kw) if case["named"] else par.get_pdf(val)
        got_log = par.get_logpdf(**kw) if case["named"] else par.get_logpdf(val)
    need(np.ndim(got_pdf) == 0 and np.ndim(got_log) == 0, "density of shape %s, log-density of shape %s", np.shape(got_pdf), np.shape(got_log))
    rtol = 1e-8 if spec[0] == "NC" else 1e-10
    close(float(got_pdf), want_pdf, "%s density at %s" % (spec, val), rtol=rtol, atol=1e-290)
    if np.isfinite(want_log) and want_log > -650:
        need(abs(got_log - want_log) <= 1e-9 * (abs(want_log) + 1 + np.sum(np.abs(np.log(dens)))), "%s log-density at %s: %r instead of %r", spec, val, float(got_log), want_log)
    elif want_pdf == 0 and np.any(dens == 0):
        need(got_log == -np.inf, "%s log-density at %s: %r instead of -inf", spec, val, float(got_log))
    labels = [spec[0], "size=%s" % n, "zero" if want_pdf == 0 else "positive"]

    # inverse cdf
    if spec[0] in params.HAS_PPF:
        u = np.array(case["u"])
        if spec[0] == "N":
            u = np.clip(u, 1e-10, 1 - 1e-10)
        got = par.get_ppf(u if n else float(u[0]))
        got = par.get_ppf(params={"par": u if n else float(u[0])}) if case["named"] else got
        need(np.shape(got) == ((n,) if n else ()), "inverse cdf of shape %s", np.shape(got))
        got = np.atleast_1d(np.asarray(got, float))
        lo, hi = params.support(spec)
        eps = 1e-9 * (np.abs(lo) + np.abs(hi))
        need(np.all(got >= lo - eps) and np.all(got <= hi + eps), "%s inverse cdf at %s: %s outside the support", spec, u, got)
        close(params.cdf(spec, got), u, "%s cdf(inverse cdf)" % spec, rtol=1e-8, atol=1e-11, scale=np.minimum(u, 1 - u) + 1e-4)
        labels.append("ppf")
    else:
        try:
            par.get_ppf(np.full(n, 0.5) if n else 0.5)
            need(False, "%s has no inverse cdf but returns one", spec)
        except NotImplementedError:
            pass

    # the density integrates to one and to the cdf (scalar families)
    if case["quad"] and n is None and spec[0] != "NC":
        lo, hi = [float(v) for v in params.support(spec)]
        mid = lo + (hi - lo) * 0.37

        def f(y):
            return float(par.get_pdf(y))

        pts = np.linspace(lo, hi, 9)
        total = sum(integrate.quad(f, a, b, epsabs=1e-11, epsrel=1e-9, limit=200)[0] for a, b in zip(pts[:-1], pts[1:]))
        want = float(params.cdf(spec, hi) - params.cdf(spec, lo))
        need(abs(total - want) < 1e-6, "%s density integrates to %r instead of %r", spec, total, want)
        part = integrate.quad(f, lo, mid, epsabs=1e-11, epsrel=1e-9, limit=200)[0] if spec[0] not in ("G",) else None
        if part is not None:
            want = float(params.cdf(spec, mid) - params.cdf(spec, lo))
            need(abs(part - want) < 1e-6, "%s density integrates to %r below %r instead of %r", spec, part, mid, want)
        labels.append("integral")
    return {"nontrivial": True, "labels": labels}


# --------------------------------------------------------------------------- settings that are themselves parameters


@st.composite
def hyper_case(draw):
    spec = draw(params.family(None, kinds=("U", "N", "T", "L", "UP", "UL")))
    k = len(spec) - 1
    return dict(
        spec=spec,
        how=[draw(st.sampled_from(["number", "class", "named", "const"])) for _ in range(k)],
        n=draw(st.sampled_from([None, None, 2])),
        u=[draw(st.floats(0.001, 0.999)) for _ in range(2)],
        seed=draw(gen.SEEDS),
    )


def run_hyper(case):
    from enterprise.signals import parameter

    spec, n = case["spec"], case["n"]
    values, settings = {}, []
    argnames = {"U": ["pmin", "pmax"], "L": ["pmin", "pmax"], "N": ["mu", "sigma"], "T": ["mu", "sigma", "pmin", "pmax"], "UP": ["a", "b"], "UL": ["a", "b"]}[spec[0]]
    for i, (h, v) in enumerate(zip(case["how"], spec[1:])):
        if h == "number":
            settings.append(v)
        elif h == "const":
            settings.append(parameter.Constant(v))
        elif h == "class":
            settings.append(parameter.Uniform(-100, 100))
            values["par_" + argnames[i]] = v
        else:
            settings.append(parameter.Uniform(-100, 100)("hyp%d" % i))
            values["hyp%d" % i] = v
    cls = params.real([spec[0]] + settings, size=n, conv=lambda v: v)
    par = cls("par")
    got_names = sorted(p.name for p in par.params)
    # the inverse cdf has its own copies of hyperparameters given as classes, under the same names
    need(got_names == sorted(["par"] + list(values)), "parameters %s instead of %s", got_names, sorted(["par"] + list(values)))
    rng = np.random.default_rng([case["seed"], 4])
    lo, hi = params.support(spec)
    x = lo + (hi - lo) * rng.uniform(0.05, 0.95, n or 1)
    val = x if n else float(x[0])
    dens = params.pdf(spec, x)
    allp = dict(values, par=val, unrelated=1.0)
    close(float(par.get_pdf(params=allp)), float(np.prod(dens)), "density with hyperparameters", rtol=1e-10, atol=1e-290)
    close(float(par.get_pdf(val, params=values)), float(np.prod(dens)), "density of a given value with hyperparameters", rtol=1e-10, atol=1e-290)
    if np.all(dens > 1e-250):
        close(float(par.get_logpdf(params=allp)), float(np.sum(np.log(dens))), "log-density with hyperparameters", rtol=1e-9, atol=1e-9)
    if spec[0] in params.HAS_PPF:
        u = np.array(case["u"][: n or 1])
        got = par.get_ppf(u if n else float(u[0]), params=values)
        close(params.cdf(spec, np.atleast_1d(got)), u, "cdf(inverse cdf) with hyperparameters", rtol=1e-8, atol=1e-10)
    return {"nontrivial": bool(values), "labels": [spec[0]] + sorted(set(case["how"]))}


# --------------------------------------------------------------------------- many values, extreme units


@st.composite
def scales_case(draw):
    return dict(
        kind=draw(st.sampled_from(["NC", "NC", "NC", "N", "U", "T", "L"])),
        n=draw(st.sampled_from([1, 2, 7, 15, 30, 60, 120])),
        unit=draw(st.integers(-12, 12)),
        spread=draw(st.sampled_from([0, 0, 1, 4])),
        sigmas=draw(st.sampled_from([0.0, 1.0, 1.0, 3.0])),
        vector=draw(st.booleans()),
        seed=draw(gen.SEEDS),
    )


def run_scales(case):
    """Densities of long vectors in any units, on a log scale from the closed forms."""
    from enterprise.signals import parameter

    n, k = case["n"], case["kind"]
    rng = np.random.default_rng([case["seed"], 6])
    s = 10.0 ** (case["unit"] + case["spread"] * rng.uniform(-0.5, 0.5, n))
    if not case["vector"] and k != "NC":
        s = s[:1].repeat(n)
    short = (lambda a: a) if case["vector"] or k == "NC" else (lambda a: float(a[0]))
    mu = s * (rng.uniform(-2, 2, n) if case["vector"] or k == "NC" else rng.uniform(-2, 2))
    if k == "NC":
        A = rng.normal(size=(n, n + 3))
        C = A @ A.T
        d = np.sqrt(np.diag(C))
        L = np.linalg.cholesky(C / np.outer(d, d))
        z = rng.normal(size=n) * case["sigmas"]
        x = mu + s * (L @ z)
        cov = s[:, None] * (L @ L.T) * s
        cls = parameter.Normal(mu, cov, size=n)
        want = -0.5 * z @ z - np.sum(np.log(np.diag(L))) - np.sum(np.log(s)) - 0.5 * n * np.log(2 * np.pi)
        tol = 1e-7 * (n + z @ z) + 1e-9 * abs(want)
    else:
        u = rng.uniform(0.02, 0.98, n)
        if k == "U":
            lo, hi = mu, mu + s
            cls, x, logs = parameter.Uniform(short(lo), short(hi), size=n), lo + u * s, -np.log(s)
        elif k == "L":
            hi = rng.uniform(-20, 20) * np.ones(n)
            lo = hi - 4.0
            cls, x = parameter.LinearExp(short(lo), short(hi), size=n), lo + 4 * u
            logs = np.log(np.log(10)) + np.log(10) * (x - hi) - np.log1p(-1e-4)
        else:
            z = rng.normal(size=n) * case["sigmas"]
            if k == "T":
                z = np.clip(z, -1.9, 1.9)
                cls = parameter.TruncNormal(short(mu), short(s), short(mu - 2 * s), short(mu + 2 * s), size=n)
            else:
                cls = parameter.Normal(short(mu), short(s), size=n)
            x = mu + s * z
            logs = -0.5 * z**2 - np.log(s) - 0.5 * np.log(2 * np.pi) - (np.log(0.9544997361036416) if k == "T" else 0.0)
        want, tol = np.sum(logs), 1e-9 * np.sum(np.abs(logs) + 1)
    par = cls("par")
    with np.errstate(all="ignore"):
        logpdf, pdf = float(par.get_logpdf(x)), float(par.get_pdf(x))
    if abs(want) < 650 or k != "NC":  # (the joint density of correlated values has to fit a double)
        need(abs(logpdf - want) <= tol, "%s log-density of %d values in units of 1e%d: %r instead of %r", k, n, case["unit"], logpdf, want)
    if abs(want) < 650:
        need(abs(pdf - np.exp(want)) <= 2 * tol * np.exp(want), "%s density of %d values in units of 1e%d: %r instead of %r", k, n, case["unit"], pdf, np.exp(want))
    return {"nontrivial": n > 1, "labels": [k, "n=%d" % n, "fits" if abs(want) < 650 else "too large"]}


# --------------------------------------------------------------------------- the tails of the inverse cdf


@st.composite
def tails_case(draw):
    n = draw(st.sampled_from([None, None, 1, 2, 3]))
    return dict(
        kind=draw(st.sampled_from(["N", "N", "U", "L"])),
        n=n,
        u=[[draw(st.booleans()), draw(st.one_of(st.floats(0.3, 300.0), st.floats(0.3, 16.0), st.just(None)))] for _ in range(n or 1)],
        unit=draw(st.sampled_from([0, 0, -7, 9])),
        spread=draw(st.sampled_from([1.0, 0.1, 9.0, 15.0])),
        vector=draw(st.booleans()),
        hyper=draw(st.booleans()),
        seed=draw(gen.SEEDS),
    )


def run_tails(case):
    """Probabilities next to 0 and 1 (and these two), with the accuracy that a double allows."""
    from enterprise.signals import parameter
    from scipy.special import log_ndtr

    n, k = case["n"], case["kind"]
    m = n or 1
    rng = np.random.default_rng([case["seed"], 7])
    p = np.array([0.0 if e is None else 10.0**-e for _, e in case["u"]])  # distance to the end
    top = np.array([t for t, _ in case["u"]])
    p = np.where(top, 1.0 - (1.0 - p), p)  # what the double nearest to one can hold
    u = np.where(top, 1.0 - p, p)
    count = m if case["vector"] and n else 1
    settings = [rng.uniform(-2, 2, count), rng.uniform(0.2, 3, count) * (case["spread"] if k == "L" else 1.0)]
    if k != "L":
        settings = [a * 10.0 ** case["unit"] for a in settings]
    if k != "N":
        settings[1] = settings[0] + settings[1]
    a, b = [np.broadcast_to(x, (m,)) for x in settings]
    given, values = settings if case["vector"] and n else [float(x[0]) for x in settings], {}
    if case["hyper"] and not (case["vector"] and n):
        values = {"one": given[0], "two": given[1]}
        given = [parameter.Uniform(-1e12, 1e12)("one"), parameter.Uniform(-1e12, 1e12)("two")]
    cls = {"N": parameter.Normal, "U": parameter.Uniform, "L": parameter.LinearExp}[k](given[0], given[1], size=n)
    with np.errstate(all="ignore"):
        got = cls("par").get_ppf(u if n else float(u[0]), params=values)
    need(np.shape(got) == ((n,) if n else ()), "inverse cdf of shape %s", np.shape(got))
    got = np.atleast_1d(np.asarray(got, float))
    for i in range(m):
        what = "%s inverse cdf at %s%r" % (k, "1 - " if top[i] else "", float(p[i]))
        if k == "N":
            end = -np.inf if not top[i] else np.inf
            if p[i] == 0:
                need(got[i] == end, "%s: %r", what, got[i])
                continue
            need(np.isfinite(got[i]), "%s: %r", what, got[i])
            z = (got[i] - a[i]) / b[i] * (-1 if top[i] else 1)
            slack = 1e-14 * (abs(a[i] / b[i]) + abs(z)) * (abs(z) + 1) + 1e-7
            need(abs(log_ndtr(z) - np.log(p[i])) <= slack, "%s: %r, whose probability is exp(%r) instead of exp(%r)", what, got[i], log_ndtr(z), np.log(p[i]))
        elif k == "U":
            want = b[i] - p[i] * (b[i] - a[i]) if top[i] else a[i] + p[i] * (b[i] - a[i])
            need(abs(got[i] - want) <= 1e-14 * (abs(a[i]) + abs(b[i])), "%s: %r instead of %r", what, got[i], want)
        else:
            # 10^x = 10^a + u (10^b - 10^a)
            r = 10.0 ** (a[i] - b[i])
            want = b[i] + (np.log1p(p[i] * (r - 1)) / np.log(10) if top[i] else np.log10(r + p[i] * (1 - r)))
            need(abs(got[i] - want) <= 1e-12 * (1 + abs(a[i]) + abs(b[i])), "%s: %r instead of %r", what, got[i], want)
    return {"nontrivial": True, "labels": [k, "end" if np.any(p == 0) else "inside", "far" if np.any((p > 0) & (p < 1e-16)) else "near"]}


PROP = Prop(
    "P01",
    "random settings of every prior family (scalar and vector, hyperparameters as settings), values inside, outside, at the edge and far away, "
    "probabilities including 0 and 1 and down to 1e-300, vectors of up to 120 values in units of 1e-12 to 1e12; compared with independent closed forms and numerical integrals; every case counts (hyper: with a hyperparameter)",
    [Sub("families", case, run, 6000, 200000), Sub("hyper", hyper_case, run_hyper, 3000, 100000), Sub("scales", scales_case, run_scales, 3000, 100000), Sub("tails", tails_case, run_tails, 3000, 100000)],
    ["log-densities are compared where the density does not underflow", "the truncated normal's end points carry no probability and are not probed exactly"],
)
