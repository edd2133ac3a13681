"""Parameter families: JSON specs -> library parameters and independent distributions.

spec: ["U", lo, hi], ["N", mu, sigma], ["NC", mu list, cov], ["T", mu, sigma, lo, hi], ["L", lo, hi], ["G", alpha, gamma],
["UP", a, b] (user-defined prior density), ["UL", a, b] (user-defined log-density); settings may be numbers or lists.
"""
import numpy as np
from hypothesis import strategies as st
from scipy import special, stats


def arr(x):
    return np.array(x, float) if isinstance(x, list) else x


def user_pdf(value, a, b):
    """Triangular density on [a, b]: rises linearly from a."""
    return np.where((value >= a) & (value <= b), 2 * (value - a) / (b - a) ** 2, 0.0)


def user_logpdf(value, a, b):
    with np.errstate(all="ignore"):
        return np.where((value >= a) & (value <= b), np.log(2 * np.abs(value - a) / (b - a) ** 2), -np.inf)


def user_sampler(a, b, size=None):
    return a + (b - a) * np.sqrt(np.random.uniform(size=size))


def user_ppf(value, a, b):
    return a + (b - a) * np.sqrt(value)


def real(spec, size=None, conv=arr):
    """The library's parameter class; settings may be parameters themselves (conv maps them)."""
    from enterprise.signals import gp_priors, parameter

    k, args = spec[0], [conv(x) for x in spec[1:]]
    if k == "U":
        return parameter.Uniform(*args, size=size)
    if k == "N":
        return parameter.Normal(*args, size=size)
    if k == "NC":
        return parameter.Normal(np.array(spec[1]), np.array(spec[2]), size=size)
    if k == "T":
        return parameter.TruncNormal(*args, size=size)
    if k == "L":
        return parameter.LinearExp(*args, size=size)
    if k == "G":
        return gp_priors.InvGamma(*args, size=size)
    a, b = args
    kw = dict(sampler=user_sampler, ppf=parameter.Function(user_ppf, a=a, b=b), size=size)
    if k == "UP":
        return parameter.UserParameter(prior=parameter.Function(user_pdf, a=a, b=b), **kw)
    if k == "UL":
        return parameter.UserParameter(logprior=parameter.Function(user_logpdf, a=a, b=b), **kw)
    raise KeyError(k)


HAS_PPF = ("U", "N", "L", "UP", "UL")


def pdf(spec, x):
    """Density of each component (NC: of the whole vector)."""
    k, a = spec[0], [arr(v) for v in spec[1:]]
    x = np.asarray(x, float)
    with np.errstate(all="ignore"):
        if k == "U":
            return np.where((x < a[0]) | (x > a[1]), 0.0, 1.0 / (a[1] - a[0]))
        if k == "N":
            return stats.norm.pdf(x, a[0], a[1])
        if k == "NC":
            return stats.multivariate_normal.pdf(x, a[0], a[1])
        if k == "T":
            z = special.ndtr((a[3] - a[0]) / a[1]) - special.ndtr((a[2] - a[0]) / a[1])
            return np.where((x < a[2]) | (x > a[3]), 0.0, stats.norm.pdf(x, a[0], a[1]) / z)
        if k == "L":
            u = 10.0 ** (x - a[1]) * np.log(10) / (1 - 10.0 ** (a[0] - a[1]))
            return np.where((x < a[0]) | (x > a[1]), 0.0, u)
        if k == "G":
            return np.where(x > 0, a[1] ** a[0] / special.gamma(a[0]) * np.abs(x) ** (-a[0] - 1) * np.exp(-a[1] / np.abs(x)), 0.0)
        return np.where((x < a[0]) | (x > a[1]), 0.0, 2 * (x - a[0]) / (a[1] - a[0]) ** 2)


def cdf(spec, x):
    k, a = spec[0], [arr(v) for v in spec[1:]]
    x = np.asarray(x, float)
    if k == "U":
        return np.clip((x - a[0]) / (a[1] - a[0]), 0, 1)
    if k == "N":
        return special.ndtr((x - a[0]) / a[1])
    if k == "T":
        lo, hi = special.ndtr((a[2] - a[0]) / a[1]), special.ndtr((a[3] - a[0]) / a[1])
        return np.clip((special.ndtr((x - a[0]) / a[1]) - lo) / (hi - lo), 0, 1)
    if k == "L":
        y = np.clip(x, a[0], a[1])
        return (10.0 ** (y - a[1]) - 10.0 ** (a[0] - a[1])) / (1 - 10.0 ** (a[0] - a[1]))
    if k == "G":
        return special.gammaincc(a[0], a[1] / np.maximum(x, 1e-300))
    return np.clip((x - a[0]) / (a[1] - a[0]), 0, 1) ** 2


def support(spec):
    k, a = spec[0], [arr(v) for v in spec[1:]]
    if k == "T":
        return a[2], a[3]
    if k == "N":
        return a[0] - 9 * a[1], a[0] + 9 * a[1]
    if k == "G":
        return a[1] / 200.0, a[1] * 200.0
    return a[0], a[1]


@st.composite
def number(draw, lo, hi, ints=True):
    if ints and draw(st.integers(0, 3)) == 0:
        return draw(st.integers(int(np.ceil(lo)), int(np.floor(hi))))
    return round(draw(st.floats(lo, hi, allow_nan=False)), 6)


SCALES = [1.0] * 9 + [1e-15, 1e-11, 1e-7, 1e-3, 1e5, 1e9]


@st.composite
def family(draw, n=None, **kw):
    """A spec in all kinds of units: from spectral amplitudes and planet masses to times in seconds."""
    spec = draw(plain_family(n, **kw))
    u = draw(st.sampled_from(SCALES))
    if u == 1.0 or spec[0] in ("L", "G"):
        return spec
    if spec[0] == "NC":
        return [spec[0], [u * x for x in spec[1]], [[u * u * x for x in row] for row in spec[2]]]
    return [spec[0]] + [[u * x for x in a] if isinstance(a, list) else u * a for a in spec[1:]]


@st.composite
def plain_family(draw, n=None, kinds=("U", "N", "NC", "T", "L", "G", "UP", "UL"), tail=4):
    """A spec; with n, settings may be vectors of that length."""
    k = draw(st.sampled_from(list(kinds)))
    if k == "NC" and not n:
        k = "N"
    vec = bool(n) and draw(st.booleans()) and k != "G"

    mixed = vec and draw(st.booleans())  # some settings vectors, others numbers

    def number_or_list(lo, hi):
        if vec and not (mixed and draw(st.booleans())):
            return [float(draw(number(lo, hi))) for _ in range(n)]
        return draw(number(lo, hi))

    def setting(lo, hi):
        return number_or_list(lo, hi)

    def plus(a, lo, hi):
        d = setting(lo, hi)
        if isinstance(a, list):
            if isinstance(d, list):
                return [x + y for x, y in zip(a, d)]
            # one upper limit for all
            return max(a) + d if mixed else [x + d for x in a]
        return [a + y for y in d] if isinstance(d, list) else a + d

    if k in ("U", "UP", "UL"):
        a = setting(-20, 20)
        return [k, a, plus(a, 0.01, 30)]
    if k == "N":
        return [k, setting(-20, 20), setting(0.01, 10)]
    if k == "NC":
        seed = draw(st.integers(0, 10**6))
        rng = np.random.default_rng(seed)
        A = rng.normal(size=(n, n)) * 10 ** rng.uniform(-1, 1, (n, 1))
        return [k, rng.normal(size=n).tolist(), (A @ A.T + 0.05 * np.diag(np.diag(A @ A.T))).tolist()]
    if k == "T":
        if not vec:
            mu, sig = draw(number(-5, 5)), draw(number(0.1, 5))
            lo = min(max(mu + draw(number(-12, 3)), mu - tail * sig), mu + 2 * sig)
            return [k, mu, sig, lo, lo + draw(st.floats(0.2, 3)) * sig]
        # the centres and widths are vectors together, the limits may be numbers
        mu, sig = [float(draw(number(-5, 5))) for _ in range(n)], [float(draw(number(0.1, 5))) for _ in range(n)]
        if mixed:
            lo, hi = max(m - tail * s for m, s in zip(mu, sig)), min(m + tail * s for m, s in zip(mu, sig))
            hi = max(hi, lo + 0.2 * max(sig))
            if all((hi - m) / s > -tail and (lo - m) / s < 2 for m, s in zip(mu, sig)):
                which = draw(st.sampled_from(["lo", "hi", "both"]))
                return [k, mu, sig, lo if which != "hi" else [lo] * n, hi if which != "lo" else [hi + 0.1 * i for i in range(n)]]
        lo = [min(max(m + draw(number(-12, 3)), m - tail * s), m + 2 * s) for m, s in zip(mu, sig)]
        return [k, mu, sig, lo, [x + draw(st.floats(0.2, 3)) * s for x, s in zip(lo, sig)]]
    if k == "L":
        a = setting(-20, 5)
        return [k, a, plus(a, 0.01, 8)]
    return ["G", draw(number(0.5, 6)), draw(number(0.1, 6))]
