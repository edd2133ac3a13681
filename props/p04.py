"""P04: wrapped functions behave as the plain function with their parameters filled in."""
import numpy as np
from hypothesis import strategies as st

from pbt import gen, synth
from pbt.core import Prop, Sub
from pbt.helpers import need

ATTRS = ["toas", "freqs", "toaerrs", "pos", "name", "theta", "backend_flags", "planetssb"]
KW = [["A", "gamma", "B", "log10_A"], ["p", "q", "r_1"], ["s", "t"]]  # by nesting level
FNAMES = ["", "", "fn", "g2"]


@st.composite
def func(draw, level=0, nest=True, attrs=True):
    """A function signature with, for each keyword, what it is bound to."""
    names = draw(st.lists(st.sampled_from(KW[level]), min_size=1, max_size=3, unique=True))
    at = draw(st.lists(st.sampled_from(ATTRS), max_size=2, unique=True)) if attrs else []
    args = []
    for a in at:
        args.append(["attr", a, draw(st.integers(0, 5)) == 0])
    for k in names:
        how = draw(st.sampled_from(["class", "class", "vector", "inst", "const", "constinst", "number", "array", "func", "func", "func", "funcinst", "funcinst", "free"]))
        if how.startswith("func") and (level == 2 or not nest):
            how = "class"
        b = [how]
        if how.startswith("func"):
            b.append(draw(func(level + 1, nest, attrs)))
        elif how == "inst":
            b.append(draw(st.integers(0, 2)))
        elif how in ("const", "constinst", "number"):
            b.append(draw(st.integers(-3, 3)))
            b.append(draw(st.sampled_from([False, False, True])))  # a constant whose value is given with the parameters
        elif how == "class":
            b.append(draw(st.booleans()))  # has a hyperparameter
        args.append(["kw", k, draw(st.booleans()) or (how == "free" and level > 0), b])
    if draw(st.integers(0, 9)) == 0:
        args.append(["psr", "psr", False])
    if draw(st.booleans()):  # attributes first, as in most functions; otherwise anywhere
        args = [args[i] for i in draw(st.permutations(list(range(len(args)))))]
    # arguments with python defaults come last
    args = [a for a in args if not a[2]] + [a for a in args if a[2]]
    return dict(fname=draw(st.sampled_from(FNAMES)), args=args)


@st.composite
def case(draw):
    masked = draw(st.sampled_from(["none", "none", "none", "none", "mask", "mask", "all", "empty"]))
    spec = draw(func(attrs=True)) if masked == "none" else draw(func(nest=False))
    return dict(
        func=spec,
        name=draw(st.sampled_from(["", "J1_sig", "P"])),
        mask=masked,
        psr=draw(st.sampled_from(["own", "own", "own", "call"])) if masked != "none" or not any(a[0] == "kw" and a[3][0].startswith("func") for a in spec["args"]) else "own",
        pos=draw(st.integers(0, 1)),
        over=draw(st.lists(st.sampled_from(KW[0] + ["toas", "freqs"]), max_size=2, unique=True)),
        inner=draw(st.lists(st.sampled_from(KW[1]), max_size=2, unique=True)),  # values given for the arguments of nested functions
        missing=draw(st.integers(0, 5)) == 0,
        via=draw(st.sampled_from(["Function", "function"])),
        seed=draw(gen.SEEDS),
    )


class Undefined(Exception):
    pass


def plain(spec):
    """The plain function: it returns what it received."""
    sig = ", ".join(a[1] + ("='default %s'" % a[1] if a[2] else "") for a in spec["args"])
    body = ", ".join("%r: %s" % (a[1], a[1]) for a in spec["args"])
    ns = {}
    exec("def plain(%s):\n    return {%s}" % (sig, body), ns)
    return ns["plain"]


class Bound(object):
    """One function object (library side) with its reference."""

    def __init__(self, case, psr):
        from enterprise.signals import parameter

        self.P = parameter
        self.case, self.psr = case, psr
        self.shared = [parameter.Uniform(0, 1)("shared%d" % i) for i in range(3)]
        self.rng = np.random.default_rng([case["seed"], 11])
        self.names = {}  # varying parameter -> value
        self.consts = 0
        self.given = {}  # constants given like parameters -> value

    def value(self, name, size=None):
        if name not in self.names:
            self.names[name] = self.rng.uniform(size=size) if size else float(self.rng.uniform())
        return self.names[name]

    def make(self, spec, via="Function"):
        """Function class; its reference is built when it is instantiated, by name."""
        kwargs, ref = {}, {}
        for a in spec["args"]:
            if a[0] != "kw":
                continue
            k, b = a[1], a[3]
            P = self.P
            if b[0] == "class":
                kwargs[k] = P.Normal(mu=P.Uniform(-1, 1), sigma=1.0) if b[1] else P.Uniform(0, 1)
            elif b[0] == "vector":
                kwargs[k] = P.Uniform(0, 1, size=3)
            elif b[0] == "inst":
                kwargs[k] = self.shared[b[1]]
            elif b[0] == "const":
                kwargs[k] = P.Constant(b[1])
            elif b[0] == "constinst":
                self.consts += 1
                ref[k] = "const%d" % self.consts
                kwargs[k] = P.Constant(b[1])(ref[k])
            elif b[0] == "number":
                kwargs[k] = b[1]
            elif b[0] == "array":
                kwargs[k] = ref[k] = self.rng.normal(size=4)
            elif b[0] == "func":
                kwargs[k], ref[k] = self.make(b[1])
            elif b[0] == "funcinst":
                cls, sub = self.make(b[1])
                self.consts += 1
                nm = "inst%d_%s" % (self.consts, k)
                kwargs[k], ref[k] = cls(nm, psr=self.psr), (sub, nm)
        f = plain(spec)
        if via == "function":
            cls = self.P.function(f)(**kwargs)
        else:
            cls = self.P.Function(f, name=spec["fname"], **kwargs)
        if not isinstance(cls, type):
            return None, None
        return cls, (spec, ref, f, spec["fname"] if via == "Function" else "")

    def params_of(self, node, name):
        spec, ref, f, fname = node
        base = "_".join([x for x in [name, fname] if x])
        out = set()
        for a in spec["args"]:
            if a[0] != "kw":
                continue
            k, b = a[1], a[3]
            pn = "_".join([x for x in [base, k] if x])
            if b[0] == "class":
                self.value(pn)
                out.add(pn)
                if b[1]:
                    self.value(pn + "_mu")
                    out.add(pn + "_mu")
            elif b[0] == "vector":
                self.value(pn, 3)
                out.add(pn)
            elif b[0] == "inst":
                self.value("shared%d" % b[1])
                out.add("shared%d" % b[1])
            elif b[0] == "const" and b[2]:
                self.given[pn] = self.rng.uniform()
            elif b[0] == "constinst" and b[2]:
                self.given[ref[k]] = self.rng.uniform()
            elif b[0] == "func":
                out |= self.params_of(ref[k], pn)
            elif b[0] == "funcinst":
                out |= self.params_of(ref[k][0], ref[k][1])
        return out

    def evaluate(self, node, name, params, args=(), over={}, mask=None, inner={}):
        spec, ref, f, fname = node
        base = "_".join([x for x in [name, fname] if x])
        got = {}
        for i, a in enumerate(spec["args"]):
            k = a[1]
            if i < len(args):
                got[k] = args[i]
                continue
            if k in over:
                got[k] = over[k]
                continue
            if a[0] == "psr":
                got[k] = self.psr
                continue
            if a[0] == "attr":
                v = getattr(self.psr, k)
                if mask is not None and isinstance(v, np.ndarray) and len(v) == len(mask):
                    v = v[mask]
                got[k] = v
                continue
            b = a[3]
            pn = "_".join([x for x in [base, k] if x])
            if b[0] in ("class", "vector") and pn in params:
                got[k] = params[pn]
            elif b[0] == "inst" and "shared%d" % b[1] in params:
                got[k] = params["shared%d" % b[1]]
            elif b[0] == "const" and pn in params:
                got[k] = params[pn]
            elif b[0] == "constinst" and ref[k] in params:
                got[k] = params[ref[k]]
            elif b[0] in ("const", "constinst", "number"):
                got[k] = b[1]
            elif b[0] == "array":
                got[k] = ref[k]
            elif b[0] == "func":
                got[k] = self.evaluate(ref[k], pn, params, over=inner)
            elif b[0] == "funcinst":
                got[k] = self.evaluate(ref[k][0], ref[k][1], params, over=inner)
            elif a[2]:
                got[k] = "default %s" % k
            else:
                raise Undefined(k)
        return got


def same(a, b):
    if isinstance(a, dict) or isinstance(b, dict):
        return isinstance(a, dict) and isinstance(b, dict) and set(a) == set(b) and all(same(a[k], b[k]) for k in a)
    if isinstance(a, np.ndarray) or isinstance(b, np.ndarray):
        return isinstance(a, np.ndarray) and isinstance(b, np.ndarray) and a.shape == b.shape and np.array_equal(a, b)
    return a is b or (type(a) is type(b) and a == b)


def run(case):
    psr = synth.make_psr(dict(seed=case["seed"] % 1000, name="J0001+0001", nep=5, kmax=2))
    n = len(psr.toas)
    b = Bound(case, psr)
    spec = case["func"]
    cls, node = b.make(spec, case["via"])
    if cls is None:
        return {"nontrivial": False, "labels": ["no function object"]}
    inst = cls(case["name"], psr=psr) if case["psr"] == "own" else cls(case["name"])
    want = b.params_of(node, case["name"])
    got = {p.name for p in inst.params}
    need(got == want, "parameters %s instead of %s", sorted(got), sorted(want))
    need(inst.name == "_".join([x for x in [case["name"], node[3]] if x]), "function name %r", inst.name)
    params = dict(b.names)
    params.update(b.given)
    params["unrelated"] = 5.0
    if case["missing"] and params:
        drop = sorted(params)[case["seed"] % len(params)]
        del params[drop]
    mask = None
    if case["mask"] != "none":
        mask = {"mask": b.rng.uniform(size=n) < 0.5, "all": np.ones(n, bool), "empty": np.zeros(n, bool)}[case["mask"]]
    args = ()
    if case["pos"] and spec["args"] and spec["args"][0][0] != "psr" and not (spec["args"][0][0] == "kw" and spec["args"][0][3][0] != "free"):
        args = (b.rng.normal(size=2),)
    names = [a[1] for a in spec["args"]]
    over = {k: b.rng.normal(size=2) for k in case["over"] if k in names[len(args):]}
    # unbound required arguments must be given
    for i, a in enumerate(spec["args"]):
        if i >= len(args) and a[0] == "kw" and a[3][0] == "free" and not a[2] and a[1] not in over:
            over[a[1]] = float(b.rng.normal())
    before = {k: np.array(v, copy=True) for k, v in params.items()}
    nested = [x for a in spec["args"] if a[0] == "kw" and a[3][0].startswith("func") for x in a[3][1]["args"] if x[0] == "kw"]
    inner = {k: b.rng.normal(size=3) for k in case.get("inner", []) if not any(x[1] == k and x[3][0] == "free" for x in nested)}
    kw = dict(over, **inner)
    if mask is not None:
        kw["mask"] = mask
    if case["psr"] == "call":
        kw["psr"] = psr
    try:
        ref = b.evaluate(node, case["name"], params, args, over, mask, inner)
    except Undefined:
        return {"nontrivial": False, "labels": ["undefined argument"]}
    for _ in range(2):
        out = inst(*args, params=params, **kw)
        need(same(out, ref), "function received %s instead of %s", show(out), show(ref))
    need(set(params) == set(before) and all(np.array_equal(params[k], before[k]) for k in params), "the parameter dictionary was changed")
    # the next evaluation sees the next values
    params2 = {k: (v + 1.0) for k, v in params.items()}
    need(same(inst(*args, params=params2, **kw), b.evaluate(node, case["name"], params2, args, over, mask, inner)), "second evaluation with new values is wrong")
    kinds = {a[3][0] for a in spec["args"] if a[0] == "kw"}
    # a value replaced in this function object, and in no other one of its class
    plainly = [a[1] for a in spec["args"][len(args) :] if a[0] == "kw" and a[3][0] == "number" and a[1] not in over]
    if plainly:
        twin = cls(case["name"], psr=psr) if case["psr"] == "own" else cls(case["name"])
        inst.add_kwarg(**{plainly[-1]: 17.5})
        need(same(inst(*args, params=params, **kw), dict(ref, **{plainly[-1]: 17.5})), "a replaced value is not used")
        need(same(twin(*args, params=params, **kw), ref), "replacing a value changes another function object")
        kinds.add("replaced")
    return {"nontrivial": bool(want) or "func" in kinds, "labels": sorted(kinds) + ["mask" if mask is not None else "no mask", case["psr"], "attr" if any(a[0] == "attr" for a in spec["args"]) else "no attr"] + (["override"] if over else []) + (["nested override"] if inner and "func" in kinds else []) + (["positional"] if args else []) + (["constants given"] if b.given else [])}


def show(x):
    return {k: (show(v) if isinstance(v, dict) else v if not isinstance(v, np.ndarray) or v.size < 4 else "array%s" % (v.shape,)) for k, v in x.items()} if isinstance(x, dict) else repr(x)


PROP = Prop(
    "P04",
    "random signatures (pulsar attributes, required and defaulted arguments in any order, up to three nesting levels) with arguments bound to parameter "
    "classes, shared instances, vectors, constants, numbers, arrays and other functions, called with positional and keyword overrides, masks, missing "
    "values and two value sets; the function returns what it received, compared with an independent binding; non-trivial: some parameter or nested function",
    [Sub("programs", case, run, 15000, 500000)],
    ["a nested function has no argument named like one of the enclosing function's", "values given for arguments of directly nested functions reach those bound in the function's definition", "nested functions are not combined with masks"],
)
