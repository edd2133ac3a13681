"""R03: shared-memory deflation, inflation and pickling preserve pulsar data."""
import gc
import os
import pickle
import shutil
import tempfile

import numpy as np
from hypothesis import strategies as st

from pbt import fakes, gen

fakes.install_timing_packages()  # before anything imports enterprise.pulsar

from pbt import actors  # noqa: E402
from pbt.core import Prop, Sub  # noqa: E402
from pbt.helpers import close, need  # noqa: E402
from props import r01  # noqa: E402

SHARED = ["Mmat", "planetssb", "sunssb"]
PRIVATE = ["toas", "stoas", "residuals", "toaerrs", "freqs", "pos_t", "telescope"]

# --------------------------------------------------------------------------- what a process can do


class Arrays(object):
    """Bare arrays taken through PulsarInflater, with the life cycle of a pulsar."""

    def __init__(self, arrays):
        self.arrays, self.status = arrays, "pristine"

    def deflate(self):
        from enterprise.pulsar_inflate import PulsarInflater

        if self.status == "pristine":
            self.arrays = {k: PulsarInflater(a) for k, a in self.arrays.items()}
            self.status = "deflated"

    def inflate(self):
        if self.status == "deflated":
            self.arrays = {k: a.inflate() for k, a in self.arrays.items()}
            self.status = "inflated"

    def destroy(self):
        if self.status == "deflated":
            for a in self.arrays.values():
                a.destroy()
            self.status = "destroyed"


def views(obj):
    """The arrays a user sees (views where the library gives views)."""
    if isinstance(obj, dict):
        return obj
    if isinstance(obj, Arrays):
        return obj.arrays
    out = {k: getattr(obj, k) for k in SHARED + PRIVATE}
    out.update({"flags_" + k: v for k, v in obj.flags.items()})
    return out


def make_array(a):
    rng = np.random.default_rng(a["seed"])
    shape = tuple(a["shape"])
    x = rng.normal(size=shape) * 100
    d = a["dtype"]
    if d == "struct":
        out = np.zeros(shape, dtype=[("f", "U12"), ("x", float), ("k", "i4")])
        out["f"], out["x"], out["k"] = x.astype("U12"), x, x.astype("i4")
    elif d == "flags":
        out = np.zeros(shape, dtype=[("f", "U7"), ("group", "U3")])
        out["f"], out["group"] = x.astype("U7"), x.astype("U3")
    else:
        out = x.astype(d)
    if a["layout"] == "F":
        out = np.asfortranarray(out)
    elif a["layout"] == "strided" and len(shape):
        big = np.repeat(out, 2, axis=0)
        out = big[::2]
    elif a["layout"] == "reversed" and len(shape):
        out = out[::-1].copy()[::-1]
    return out


def make_object(case):
    if case["what"] == "arrays":
        return Arrays({"a%d" % i: make_array(a) for i, a in enumerate(case["arrays"])})
    return r01.build(case, fakes.raw_pulsar(case["spec"]))


def variant(case, seed):
    """The same kind of object with other contents."""
    if case["what"] == "arrays":
        return dict(case, arrays=[dict(a, seed=a["seed"] + 1 + seed) for a in case["arrays"]])
    return dict(case, spec=dict(case["spec"], seed=case["spec"]["seed"] + 1 + seed))


def plain(v):
    return {k: np.array(a) for k, a in v.items()}


def change(a, seed):
    """Write to one place of an array; the same seed gives the same change to an equal array."""
    rng = np.random.default_rng(seed)
    ix = tuple(int(rng.integers(n)) for n in a.shape)
    new = make_array(dict(seed=seed, shape=[], dtype="f8", layout="C"))[()]
    if a.dtype.names:
        f = a.dtype.names[int(rng.integers(len(a.dtype.names)))]
        a[f][ix] = np.array(new).astype(a.dtype[f])
    else:
        a[ix] = np.array(new).astype(a.dtype)


def handler(state, op, *args):
    if op == "make":
        state[args[0]] = make_object(args[1])
        return plain(views(state[args[0]]))
    if op == "load":
        slot, path = args
        with open(path, "rb") as f:
            state[slot] = pickle.load(f)
        return True
    slot = args[0]
    obj = state[slot]
    if op in ("deflate", "inflate", "destroy"):
        getattr(obj, op)()
        return True
    if op == "pickle":
        path = args[1]
        if args[2] and hasattr(obj, "to_pickle"):
            d = path + ".dir"
            obj.to_pickle(outdir=d)
            os.replace(os.path.join(d, obj.name + ".pkl"), path)
        else:
            with open(path, "wb") as f:
                pickle.dump(obj, f)
        return True
    if op == "read":
        return plain(views(obj))
    if op == "write":
        change(views(obj)[args[1]], args[2])
        return True
    if op == "keep":  # only plain array views survive
        v = {k: np.asarray(a) for k, a in views(obj).items()}
        del obj, state[slot]
        gc.collect()
        state[slot] = v
        return True
    raise ValueError(op)


# --------------------------------------------------------------------------- model of the whole system


class Store(object):
    """Contents of one set of arrays; shared ones can be destroyed."""

    def __init__(self, data, shared):
        self.data, self.shared, self.alive = {k: v.copy() for k, v in data.items()}, shared, True


class Slot(object):
    def __init__(self, status, store, private):
        self.status, self.store, self.private = status, store, private


def is_shared(case, k):
    return case["what"] == "arrays" or k in SHARED or k.startswith("flags_")


def equal(got, want, what):
    need(set(got) == set(want), "%s: arrays %s instead of %s", what, sorted(got), sorted(want))
    for k in want:
        g, w = got[k], want[k]
        need(g.dtype == w.dtype and g.shape == w.shape, "%s: %s is %s%s instead of %s%s", what, k, g.dtype, g.shape, w.dtype, w.shape)
        ok = np.array_equal(g, w) if g.dtype.kind not in "fc" else np.array_equal(g, w, equal_nan=True)
        need(ok, "%s: array %s has other values", what, k)


def play(case, tmp):
    procs, slots, stores, log = {}, {}, [], []
    stats = {"made": 0, "cross": 0, "writes seen": 0, "exits": 0, "keeps": 0, "after exit": 0}
    counter = [0]

    def proc(i):
        if i not in procs:
            procs[i] = actors.Actor(handler, [p for p in procs.values()])
        return procs[i]

    def path():
        counter[0] += 1
        return os.path.join(tmp, "p%d.pkl" % counter[0])

    def check(i, s, what):
        sl = slots[(i, s)]
        if sl.status == "deflated" or sl.status == "destroyed":
            return
        got = procs[i].call("read", s)
        if sl.store.shared and not sl.store.alive:
            return
        want = dict(sl.private)
        want.update(sl.store.data)
        equal(got, want, what)
        stats["cross"] += sl.store.shared

    first = proc(0).call("make", 0, case)
    split = lambda d: ({k: v for k, v in d.items() if is_shared(case, k)}, {k: v for k, v in d.items() if not is_shared(case, k)})
    a, b = split(first)
    slots[(0, 0)] = Slot("pristine", Store(a, False), b)
    if case["what"] == "arrays":
        equal(first, plain(views(make_object(case))), "the arrays")
    file = None
    nslot = 1
    gone = False
    for k, (i, op, x, seed) in enumerate(case["ops"]):
        what = "step %d (%s in process %d)" % (k + 1, op, i)
        mine = sorted(s for (j, s) in slots if j == i)
        if op == "make":  # another object of the same kind, in the same process or another one
            data = proc(i).call("make", nslot, variant(case, seed))
            if case["what"] == "arrays":
                equal(data, plain(views(make_object(variant(case, seed)))), "%s: the arrays" % what)
            a, b = split(data)
            slots[(i, nslot)] = Slot("pristine", Store(a, False), b)
            nslot += 1
            stats["made"] += 1
            continue
        if op == "load":
            if file is None:
                continue
            f, status, store, private = file
            proc(i).call("load", nslot, f)
            if not store.shared:
                store = Store(store.data, False)
            slots[(i, nslot)] = Slot(status, store, private)
            check(i, nslot, what)
            stats["after exit"] += gone
            nslot += 1
            continue
        if op == "exit":
            if i in procs:
                procs.pop(i).exit()
                gone = True
                stats["exits"] += 1
                for s in mine:
                    del slots[(i, s)]
            continue
        if not mine:
            continue
        s = mine[x % len(mine)]
        sl, p = slots[(i, s)], procs[i]
        if op == "deflate" and sl.status != "kept":
            p.call("deflate", s)
            if sl.status == "pristine":
                sl.store, sl.status = Store(sl.store.data, True), "deflated"
                f = path()
                p.call("pickle", s, f, False)
                sl.store.handle = f
                stores.append(sl.store)
                file = (f, "deflated", sl.store, sl.private)
        elif op == "inflate" and sl.status != "kept":
            dead = sl.status == "deflated" and not sl.store.alive
            try:
                p.call("inflate", s)
                need(not dead, "%s: destroyed memory could be inflated", what)
            except actors.Remote as exc:
                need(dead and exc.kind == "FileNotFoundError", "%s: %s", what, exc)
                del slots[(i, s)]
                continue
            if sl.status == "deflated":
                sl.status = "inflated"
        elif op == "destroy" and sl.status != "kept":
            if sl.status == "deflated" and not sl.store.alive:
                continue
            p.call("destroy", s)
            if sl.status == "deflated":
                sl.status, sl.store.alive = "destroyed", False
        elif op == "pickle" and sl.status in ("pristine", "deflated", "inflated"):
            f = path()
            p.call("pickle", s, f, bool(seed % 2))
            store = sl.store if sl.status == "deflated" else Store(sl.store.data, False)
            if sl.status == "inflated" and not sl.store.alive:
                continue
            file = (f, sl.status, store, sl.private)
        elif op == "write" and sl.status in ("inflated", "kept") and (case["what"] == "arrays" or not case["sort"]):
            names = sorted(n for n, v in sl.store.data.items() if v.size)
            if names:
                n = names[seed % len(names)]
                p.call("write", s, n, seed)
                change(sl.store.data[n], seed)
                for (j, t), other in list(slots.items()):
                    if other.store is sl.store and other.status in ("inflated", "kept"):
                        check(j, t, what + ", seen from process %d" % j)
                        stats["writes seen"] += j != i
        elif op == "keep" and sl.status in ("inflated", "pristine"):
            p.call("keep", s)
            if sl.store.shared and case["what"] == "pulsar" and case["sort"]:
                sl.store = Store(sl.store.data, False)  # sorted copies
            sl.status = "kept"
            stats["keeps"] += 1
        if (i, s) in slots:
            check(i, s, what)
    # whatever happened, everybody's view still stands ...
    for i, s in sorted(slots):
        check(i, s, "at the end, process %d" % i)
    # ... and the memory can be reached by a newcomer, destroyed by another, and is gone then
    for n, store in enumerate(stores):
        if not store.alive:
            continue
        late, last = actors.Actor(handler, list(procs.values())), None
        try:
            late.call("load", 0, store.handle)
            late.call("inflate", 0)
            got = late.call("read", 0)
            equal({k: v for k, v in got.items() if is_shared(case, k)}, store.data, "a newcomer at the end")
            late.exit()
            last = actors.Actor(handler, list(procs.values()))
            last.call("load", 0, store.handle)
            last.call("destroy", 0)
            last.call("destroy", 0)
            last.call("load", 1, store.handle)
            try:
                last.call("inflate", 1)
                need(False, "destroyed memory could be inflated")
            except actors.Remote as exc:
                need(exc.kind == "FileNotFoundError", "inflating destroyed memory: %s", exc)
        finally:
            late.exit()
            if last is not None:
                last.exit()
    for p in procs.values():
        p.exit()
    return stats


def run(case):
    tmp = tempfile.mkdtemp(prefix="r03_", dir=os.environ.get("VERIF_TMP"))
    try:
        stats = actors.in_root(lambda: play(case, tmp), case["tracker"] == "shared")
    finally:
        shutil.rmtree(tmp, ignore_errors=True)
    return {"nontrivial": stats["cross"] > 0, "labels": [case["tracker"] + " tracker"] + [k for k, v in stats.items() if v]}


OPS = ["load", "load", "load", "inflate", "inflate", "inflate", "write", "write", "keep", "exit", "pickle", "deflate", "deflate", "destroy", "make"]


@st.composite
def history(draw):
    prefix = draw(st.sampled_from([[], [[0, "deflate", 0, 0]], [[0, "deflate", 0, 0], [1, "load", 0, 0], [1, "inflate", 0, 0]], [[0, "deflate", 0, 0], [1, "load", 0, 0], [2, "load", 0, 0], [1, "inflate", 0, 0], [2, "inflate", 0, 0]], [[0, "pickle", 0, 0], [0, "deflate", 0, 0]], [[0, "deflate", 0, 0], [0, "make", 0, 0], [0, "deflate", 1, 0], [1, "load", 0, 0], [1, "inflate", 0, 0]], [[0, "deflate", 0, 0], [1, "load", 0, 0], [1, "inflate", 0, 0], [0, "inflate", 0, 0]]]))
    n = draw(st.integers(1, 10))
    ops = [[draw(st.integers(0, 2)), draw(st.sampled_from(OPS)), draw(st.integers(0, 2)), draw(st.integers(0, 9999))] for _ in range(n)]
    return prefix + ops


SHAPES = st.lists(st.sampled_from([0, 1, 2, 3, 7, 40, 300]), min_size=1, max_size=3).map(lambda s: s if np.prod(s) <= 100000 else s[:2])  # (at most 300 x 300)


@st.composite
def array_case(draw):
    arrs = []
    for _ in range(draw(st.integers(1, 3))):
        arrs.append(dict(seed=draw(gen.SEEDS), shape=draw(SHAPES), dtype=draw(st.sampled_from(["f8", "f8", "f4", "i4", "i8", "?", "U9", "S5", "c16", "g", "struct", "flags"])), layout=draw(st.sampled_from(["C", "F", "strided", "reversed"]))))
    return dict(what="arrays", arrays=arrs, tracker=draw(st.sampled_from(["own", "own", "shared"])), ops=draw(history()))


@st.composite
def psr_case(draw):
    sp = draw(r01.spec())
    sp["n"] = max(2, sp["n"])
    return dict(what="pulsar", spec=sp, kind="tempo2", route="class", planets=True, sort=draw(st.booleans()), tracker=draw(st.sampled_from(["own", "own", "shared"])), ops=draw(history()))


# --------------------------------------------------------------------------- models and other classes


@st.composite
def plain_case(draw):
    sp = draw(r01.spec())
    kind = draw(st.sampled_from(["tempo2", "pint"]))
    sp["n"] = max(8, sp["n"])
    sp["ntm"] = min(sp["ntm"], 3)
    return dict(spec=sp, kind=kind, sort=draw(st.booleans()), planets=draw(st.booleans()), route="class", flag=draw(st.booleans()), twice=draw(st.booleans()), vs=draw(gen.SEEDS))


def run_plain(case):
    """Pickling without deflation keeps everything, and models do not see the difference."""
    raw = fakes.raw_pulsar(case["spec"])
    psr, m = r01.build(case, raw), r01.Model(case, raw)
    if case["flag"] and case["kind"] == "pint":
        vals = np.array(["n%d" % i for i in range(m.n)])
        psr.set_flags("new", vals)
        new = np.empty(m.n, "U80")
        new[m.order_of(psr.toas, psr.freqs)] = vals
        m.flags["new"] = new
    tmp = tempfile.mkdtemp(prefix="r03_", dir=os.environ.get("VERIF_TMP"))
    try:
        for _ in range(1 + case["twice"]):
            out = os.path.join(tmp, "deep", "er")
            psr.to_pickle(outdir=out)
            with open(os.path.join(out, psr.name + ".pkl"), "rb") as f:
                got = pickle.load(f)
            r01.compare(got, m, case)
            r01.compare(psr, m, case)
            for k in ("name", "dm", "dmx", "pdist"):
                need(getattr(got, k) == getattr(psr, k), "%s is %r after pickling", k, getattr(got, k))
            a, b = likelihood(psr, case), likelihood(got, case)
            close(b, a, "likelihood with the unpickled pulsar", rtol=1e-13)
            psr = got
    finally:
        shutil.rmtree(tmp, ignore_errors=True)
    return {"nontrivial": True, "labels": [case["kind"]]}


def likelihood(psr, case):
    from enterprise.signals import gp_signals, parameter, selections, signal_base, utils, white_signals

    mn = white_signals.MeasurementNoise(efac=parameter.Constant(1.3), selection=selections.Selection(selections.by_backend))
    pl = utils.powerlaw(log10_A=parameter.Constant(-13), gamma=parameter.Constant(3))
    rn = gp_signals.FourierBasisGP(pl, components=3, Tspan=1e8)
    eq = white_signals.TNEquadNoise(log10_tnequad=parameter.Constant(-6.5))
    return float(signal_base.PTA([(mn + eq + rn)(psr)]).get_lnlikelihood({}))


PROP = Prop(
    "R03",
    "1-3 real processes (with separate or common resource trackers) that create (one or several objects), deflate, pickle, load, inflate, write, keep only plain views, exit and destroy in random order, against a model of the shared contents; arrays of any type, layout and size (empty too) and "
    "Tempo2Pulsar objects; plain pickling of both pulsar classes with likelihoods; non-trivial: shared contents were compared at least once",
    [Sub("plain", plain_case, run_plain, 400, 8000), Sub("arrays", array_case, run, 240, 10000), Sub("pulsars", psr_case, run, 240, 10000)],
    ["POSIX shared memory", "pulsar objects come from stand-in tempo2/PINT objects"],
)
