"""K01: kernel matrices accumulate, overwrite and invert as ordinary matrices."""
import numpy as np
import scipy.linalg as sl
from hypothesis import strategies as st

from pbt import gen
from pbt.core import Prop, Sub
from pbt.helpers import close, need


@st.composite
def case(draw, small=False, large=False):
    n = draw(st.integers(20, 60) if large else st.integers(4, 12) if small else st.integers(1, 9))

    def index():
        if small:
            # small sets, so that later ones bridge groups that were separate
            return ["array", draw(st.lists(st.integers(0, n - 1), unique=True, min_size=1, max_size=3))]
        k = draw(st.sampled_from(["array", "array", "slice", "step", "full", "one"]))
        if k == "array":
            return ["array", draw(st.lists(st.integers(0, n - 1), unique=True, min_size=1, max_size=n))]
        if k == "slice":
            a = draw(st.integers(0, n - 1))
            return ["slice", [a, draw(st.integers(a + 1, n)), None]]
        if k == "step":
            a = draw(st.integers(0, n - 1))
            return ["slice", [a, None, draw(st.integers(1, 3))]]
        if k == "full":
            return ["slice", [None, None, None]]
        return ["array", [draw(st.integers(0, n - 1))]]

    ops = [[draw(st.sampled_from(["add", "add", "set"])), draw(st.sampled_from(["vec", "mat", "mat", "mat"] if small else ["vec", "vec", "mat"])), index()] for _ in range(draw(st.integers(10, 40) if small and large else st.integers(3, 10) if small else st.integers(1, 8)))]
    return dict(n=n, init=draw(st.sampled_from(["int", "vec", "vec"])), ops=ops, seed=draw(gen.SEEDS), spread=draw(st.sampled_from([0.0, 0.0, 2.0, 7.0, 20.0])), close=draw(st.booleans()))


def as_index(ix):
    return np.array(ix[1], int) if ix[0] == "array" else slice(*ix[1])


def groups(K):
    return getattr(K, "_cliques", None)


def check_inverse(K, M, what):
    d = np.sqrt(np.abs(np.diag(M)))
    if np.any(np.diag(M) <= 0):
        return False
    S = M / np.outer(d, d)
    w = np.linalg.eigvalsh(S)
    if w[0] <= 1e-9 * w[-1]:
        return False
    cond = w[-1] / w[0]
    keep = np.array(K)
    a, (b, ld) = K.inv(), K.inv(logdet=True)
    need(np.array_equal(keep, np.array(K)), "%s: the matrix changed when it was inverted", what)
    Si = np.linalg.inv(S)
    for got in (a, b):
        got = np.asarray(got)
        need(got.shape == keep.shape, "%s: inverse has shape %s", what, got.shape)
        if got.ndim == 1:
            got = np.diag(got)
        close(got * np.outer(d, d), Si, "%s: scaled inverse" % what, rtol=1e-13 * cond * len(d), scale=np.max(np.abs(Si)))
    want = np.linalg.slogdet(S)[1] + 2 * np.sum(np.log(d))
    close(float(ld), want, "%s: log-determinant" % what, rtol=1e-13 * cond * len(d), scale=abs(want) + 2 * np.sum(np.abs(np.log(d))) + len(d))
    return True


def run(case):
    from enterprise.signals.utils import KernelMatrix

    n = case["n"]
    rng = np.random.default_rng(case["seed"])
    s = 10.0 ** (case["spread"] * rng.uniform(-1, 1, n))  # a scale for each index
    if case["init"] == "int":
        K, M = KernelMatrix(n), np.zeros((n, n))
    else:
        v = s**2 * rng.uniform(0.5, 2, n)
        K, M = KernelMatrix(v.copy()), np.diag(v)
    dense, coupled, inverted = False, [], 0
    for k, (op, kind, ix) in enumerate(case["ops"]):
        idx = as_index(ix)
        i = np.arange(n)[idx]
        if kind == "vec":
            x = s[i] ** 2 * rng.uniform(0.5, 2, len(i))
        else:
            dense = True
            A = rng.normal(size=(len(i), len(i)))
            x = (A @ A.T / len(i) + np.eye(len(i))) * np.outer(s[i], s[i])
            if rng.integers(4) == 0:
                x = np.diag(np.diag(x))
        given, given_idx = x.copy(), i.copy()
        K = getattr(K, op)(x, idx)
        need(np.array_equal(x, given) and (isinstance(idx, slice) or np.array_equal(idx, given_idx)), "the arguments were changed")
        if kind == "vec" and op == "add":
            M[i, i] += x
        elif kind == "vec":
            M[i, i] = x
        elif op == "add":
            M[np.ix_(i, i)] += x
        else:
            M[np.ix_(i, i)] = x
        got = np.asarray(K)
        need(isinstance(K, KernelMatrix) and got.shape == ((n, n) if dense else (n,)), "shape %s after %s of a %s", got.shape, op, kind)
        close(np.diag(got) if got.ndim == 1 else got, M, "matrix after step %d (%s %s at %s)" % (k, op, kind, ix), rtol=1e-14, scale=np.outer(s, s) * 100)
        g = groups(K)
        if dense and g is not None:
            off = np.argwhere(np.triu(M != 0, 1))
            for a, b in off:
                need(g[a] == g[b] and g[a] >= 0, "indices %d and %d are coupled but labelled %r and %r", a, b, g[a], g[b])
        inverted += check_inverse(K, M, "after step %d" % k)
    if case["close"]:
        x = 10 * s**2 * (1 + np.abs(M / np.outer(s, s)).sum(axis=1))
        K = K.add(x, np.arange(n))
        M[np.arange(n), np.arange(n)] += x
        inverted += check_inverse(K, M, "diagonally dominant")
    return {"nontrivial": inverted > 0, "labels": ["dense" if dense else "diagonal"] + sorted({"%s %s %s" % (o, k, i[0]) for o, k, i in case["ops"]})}


# --------------------------------------------------------------------------- hard matrices


@st.composite
def hard_case(draw):
    return dict(n=draw(st.integers(2, 12)), cond=draw(st.floats(0, 9)), scale=draw(st.sampled_from([1.0, 1e-14, 1e20])), kind=draw(st.sampled_from(["spectrum", "kernel", "blocks"])), seed=draw(gen.SEEDS))


def run_hard(case):
    from enterprise.signals.utils import KernelMatrix

    n = case["n"]
    rng = np.random.default_rng(case["seed"])
    if case["kind"] == "spectrum":
        Q = np.linalg.qr(rng.normal(size=(n, n)))[0]
        M = (Q * 10.0 ** (-case["cond"] * rng.uniform(size=n))) @ Q.T
    elif case["kind"] == "kernel":
        x = np.arange(n) / n * (1 + case["cond"])
        M = np.exp(-np.subtract.outer(x, x) ** 2) + 10.0 ** -case["cond"] * np.eye(n)
    else:
        M = sl.block_diag(*[np.eye(1) * (k + 1.0) for k in range(n - 2)], np.array([[1.0, 1 - 10.0 ** -case["cond"]], [1 - 10.0 ** -case["cond"], 1.0]]))
        if case["cond"] < 0.1:
            M = np.eye(n)
    M = 0.5 * (M + M.T) * case["scale"]
    return {"nontrivial": bool(check_inverse(KernelMatrix(M.copy()), M, case["kind"])), "labels": [case["kind"]]}


PROP = Prop(
    "K01",
    "1-8 additions and assignments of vectors and positive matrices at index arrays (any order) and slices, starting from zeros or a vector, over up to 40 decades of scale, with the inverse taken after every step; the same with many small blocks that bridge earlier ones; "
    "positive matrices with prescribed conditioning; non-trivial: at least one inverse was checked",
    [Sub("history", case, run, 6000, 200000), Sub("bridging", lambda: case(small=True), run, 3000, 150000), Sub("wide", lambda: case(large=True), run, 300, 10000), Sub("wide_bridging", lambda: case(small=True, large=True), run, 300, 10000), Sub("inverse", hard_case, run_hard, 4000, 100000)],
    ["indices are not repeated within one operation", "matrices are symmetric"],
)
