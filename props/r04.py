"""R04: a pulsar loaded from files holds the data of exactly those files, wherever they are and whatever happens."""
import os
import shutil
import tempfile

import numpy as np
from hypothesis import strategies as st

from pbt import fakes, gen

fakes.install_timing_packages()  # before anything imports enterprise.pulsar

from pbt.core import Prop, Sub  # noqa: E402
from pbt.helpers import close, need  # noqa: E402

DIRS = ["", "par", "tim", "tim/deep", "data/x", "data/x/y", "link", "inlink/y", "my-data/p\u00e1r", "a.par/b.tim"]  # link -> tim/deep, inlink -> data/x
REAL = {"link": "tim/deep", "inlink/y": "data/x/y"}
NAMES = ["J1234+5678", "B1855+09", "1713+0747", "1855+09", "0000+00", "J0437-4715"]


@st.composite
def timdef(draw, depth=0):
    """Lines of a tim file: TOA counts, comments and INCLUDEs in any order."""
    items = []
    for _ in range(draw(st.integers(1, 4 if depth == 0 else 2))):
        k = draw(st.sampled_from(["toas", "toas", "toas", "comment", "include", "cinclude"] if depth < 2 else ["toas", "comment"]))
        if k == "toas":
            items.append([k, draw(st.sampled_from([1, 2, 3, 7, 12, 120, 260]))])
        elif k == "include":
            items.append([k, draw(st.sampled_from(["same", "same", "sub", "abs"])), draw(timdef(depth + 1))])
        else:
            items.append([k])
    return dict(head=draw(st.sampled_from(["", "FORMAT 1", "FORMAT 1\nMODE 1"])), end=draw(st.sampled_from(["", "\n", "\n\n"])), items=items)


@st.composite
def files(draw):
    return dict(
        name=draw(st.sampled_from(NAMES)),
        seed=draw(gen.SEEDS),
        pardir=draw(st.sampled_from(DIRS)),
        timdir=draw(st.sampled_from(DIRS)),
        parname=draw(st.sampled_from(["p.par", "p.par", "J1.x.tim.par", "a b+c.par"])),
        timname=draw(st.sampled_from(["p.tim", "p.tim", "p.toa", "a.par.tim", "a b+c.tim"])),
        tim=draw(timdef()),
    )


@st.composite
def load(draw, n):
    return dict(
        f=draw(st.integers(0, n - 1)),
        cwd=draw(st.sampled_from(DIRS)),
        par=draw(st.sampled_from(["abs", "rel", "rel", "odd"])),
        tim=draw(st.sampled_from(["abs", "rel", "rel", "odd"])),
        order=draw(st.booleans()),
        package=draw(st.sampled_from([None, None, "tempo2", "Tempo2", "pint", "PINT", "pint", "tempo3"])),
        sort=draw(st.booleans()),
        keep=draw(st.booleans()),
        planets=draw(st.booleans()),
        ephem=draw(st.sampled_from([None, "DE421", "DE438"])),
        clk=draw(st.sampled_from([None, None, "TT(BIPM2019)", "TT(BIPM)"])),
        bipm=draw(st.sampled_from([None, None, "BIPM2015"])),
        fail=draw(st.sampled_from([None, None, None, None, None, "no par", "no tim", "no include", "broken", "only par", "only tim"])),
        feather=draw(st.sampled_from([None, None, None, "arg", "kw"])),
    )


@st.composite
def case(draw):
    n = draw(st.integers(1, 2))
    return dict(files=[draw(files()) for _ in range(n)], loads=[draw(load(n)) for _ in range(draw(st.integers(1, 3)))])


class Disk(object):
    """Writes the files of a case; every directory also holds other files of the same names."""

    def __init__(self, root, case):
        self.root = root
        for d in DIRS:
            os.makedirs(os.path.join(root, REAL.get(d, d)), exist_ok=True)
        os.symlink(os.path.join(root, "tim", "deep"), os.path.join(root, "link"))
        os.symlink(os.path.join(root, "data", "x"), os.path.join(root, "inlink"))
        os.makedirs(os.path.join(root, "inlink", "y"), exist_ok=True)
        self.count = 0
        self.t = 53000.0
        for d in sorted({REAL.get(d, d) for d in DIRS}):
            for f in {f["parname"] for f in case["files"]}:
                self.write(os.path.join(d, f), "PSR J9999-9999\nSEED 1\n")
            for f in {f["timname"] for f in case["files"]}:
                self.write(os.path.join(d, f), " decoy 1400 50000.5 1.0 gbt\n")
        self.files = []
        for k, f in enumerate(case["files"]):
            sub = lambda d: os.path.join(d, "f%d" % k)  # each its own directory
            for d in (f["pardir"], f["timdir"]):
                os.makedirs(os.path.join(root, sub(d)), exist_ok=True)
            par, tim = os.path.join(sub(f["pardir"]), f["parname"]), os.path.join(sub(f["timdir"]), f["timname"])
            text = "PSR %s\nSEED %d\n" % (f["name"], f["seed"] % 10**6)
            self.write(par, text)
            self.includes = []
            mjds = self.tim(sub(f["timdir"]), f["timname"], f["tim"])
            self.files.append(dict(par=par, tim=tim, partext=text, mjds=mjds, includes=self.includes, timtext=self.read(tim), name=f["name"]))

    def write(self, path, text):
        with open(os.path.join(self.root, path), "w") as f:
            f.write(text)

    def read(self, path):
        with open(os.path.join(self.root, path)) as f:
            return f.read()

    def tim(self, base, fname, d):
        """Write a tim file (INCLUDEs are relative to the base directory); returns its TOAs in order."""
        out, mjds = [d["head"]] if d["head"] else [], []
        for it in d["items"]:
            if it[0] == "toas":
                for _ in range(it[1]):
                    self.count += 1
                    self.t += 1.0 + (self.count * 7919 % 13)
                    m = self.t if self.count % 3 else self.t - 40.25  # not in time order
                    mjds.append(float("%.6f" % m))
                    out.append(" obs%d 1400.0 %.6f 1.0 gbt" % (self.count, m))
            elif it[0] == "comment":
                out.append("C " + ["obs 1400.0 54321.0 1.0 gbt", "left out"][self.count % 2])
            elif it[0] == "cinclude":
                out.append("C INCLUDE nothing_here.tim")
            else:
                self.count += 1
                inc = "inc%d.tim" % self.count
                if it[1] == "sub":
                    os.makedirs(os.path.join(self.root, base, "sub"), exist_ok=True)
                    inc = os.path.join("sub", inc)
                path = os.path.join(base, inc)
                mjds += self.tim(base, inc, it[2])
                out.append("INCLUDE " + (os.path.join(self.root, path) if it[1] == "abs" else inc))
                self.includes.append(path)
        self.write(os.path.join(base, fname), "\n".join(out) + d["end"])
        return mjds


def spell(path, how, cwd):
    if how == "abs":
        return path
    # relative to the physical current directory, as the operating system resolves it
    rel = os.path.relpath(os.path.realpath(os.path.dirname(path)), os.path.realpath(cwd))
    rel = os.path.join(rel, os.path.basename(path))
    link = os.path.relpath(path, cwd)
    if how == "rel" and os.path.exists(os.path.join(cwd, link)) and os.path.samefile(os.path.join(cwd, link), path):
        return link if not link.startswith("./") else link[2:]
    if how == "rel":
        return rel
    head, tail = os.path.split(rel)
    return os.path.join(".", head, ".", tail)


def ntoas(d):
    return len(d["mjds"])


def one(disk, ld, ep, labs):
    d = disk.files[ld["f"]]
    cwd = os.path.join(disk.root, ld["cwd"])
    os.chdir(cwd)
    cwd = os.getcwd()
    absp = {k: os.path.join(disk.root, d[k]) for k in ("par", "tim")}
    args = [spell(absp["par"], ld["par"], cwd), spell(absp["tim"], ld["tim"], cwd)]
    need(all(os.path.samefile(a, absp[k]) for a, k in zip(args, ("par", "tim"))), "harness: bad spelling %s", args)
    hide, fail = None, ld["fail"]
    if fail == "no include" and not d["includes"]:
        fail = None
    if ld["package"] == "tempo3" and fail in (None, "no include", "broken"):
        fail = "package"
    tempo2 = (ld["package"] or "tempo2").lower() == "tempo2"
    if fail in ("no par", "no tim", "no include"):
        hide = {"no par": absp["par"], "no tim": absp["tim"]}.get(fail) or os.path.join(disk.root, d["includes"][-1])
        os.rename(hide, hide + ".away")
    elif fail == "broken":
        disk.write(d["par"], d["partext"] + "BROKEN 1\n")
    elif fail == "only par":
        args = args[:1]
    elif fail == "only tim":
        args = args[1:]
    if ld["order"]:
        args = args[::-1]
    kw = dict(sort=ld["sort"], planets=ld["planets"])
    kw["drop_t2pulsar" if tempo2 else "drop_pintpsr"] = not ld["keep"]
    for k, v in (("timing_package", ld["package"]), ("ephem", ld["ephem"]), ("clk", ld["clk"]), ("bipm_version", ld["bipm"])):
        if v is not None:
            kw[k] = v
    fakes.LOADED.clear()
    error = psr = None
    try:
        psr = ep.Pulsar(*args, **kw)
    except Exception as e:
        error = e
    finally:
        after = os.getcwd()
        if hide:
            os.rename(hide + ".away", hide)
        elif fail == "broken":
            disk.write(d["par"], d["partext"])
    need(after == cwd, "the working directory changed from %s to %s (%s)", cwd, after, fail or "successful load")
    if fail:
        labs.append(fail)
        want = {"no par": IOError, "no tim": IOError, "no include": IOError, "broken": ValueError, "only par": ValueError, "only tim": ValueError, "package": ValueError}[fail]
        need(isinstance(error, want), "%s: %r instead of %s", fail, error, want.__name__)
        return
    if error is not None:
        raise error
    need(len(fakes.LOADED) == 1, "%d loads", len(fakes.LOADED))
    got = fakes.LOADED[0]
    need(got["package"] == ("tempo2" if tempo2 else "pint"), "loaded by %s", got["package"])
    need(got["partext"] == d["partext"] and got["mjds"] == d["mjds"], "other files were loaded: %r, %d TOAs instead of %r, %d", got["partext"], len(got["mjds"]), d["partext"], ntoas(d))
    need(os.path.samefile(got["cwd"], os.path.dirname(absp["tim"])), "loaded from %s, so that INCLUDEs are not found", got["cwd"])
    need(got["ephem"] == ld["ephem"], "ephemeris %s instead of %s", got["ephem"], ld["ephem"])
    if tempo2:
        need(got["clk"] == ld["clk"], "clock %s instead of %s", got["clk"], ld["clk"])
    else:
        bipm = ld["bipm"] or (ld["clk"][3:-1] if ld["clk"] else None)
        need(got["bipm_version"] == bipm and got["planets"] == ld["planets"], "options %s", got)
    need(type(psr) is (ep.Tempo2Pulsar if tempo2 else ep.PintPulsar) and psr.name == d["name"], "pulsar %s of class %s", psr.name, type(psr))
    toas = np.array(d["mjds"])
    close(psr.toas, (np.sort(toas) if ld["sort"] else toas) * 86400, "TOAs", rtol=1e-14)
    try:
        orbits = psr.planetssb
    except (TypeError, AttributeError):
        orbits = None  # without planets there is nothing to take
    need((orbits is not None) == ld["planets"], "planets %s", ld["planets"])
    if tempo2:
        need(hasattr(psr, "t2pulsar") == ld["keep"], "t2pulsar kept: %s", not ld["keep"])
        if ld["keep"]:
            need(psr.parfile == d["partext"] and psr.timfile == d["timtext"], "other files were kept")
    else:
        need(hasattr(psr, "model") == ld["keep"] and hasattr(psr, "parfile") == ld["keep"], "model kept: %s", not ld["keep"])
    if ld["feather"] and ld["planets"]:
        name = os.path.join(disk.root, "out.feather")
        psr.to_feather(name)
        back = ep.Pulsar(spell(name, ld["par"], cwd)) if ld["feather"] == "arg" else ep.Pulsar(filepath=spell(name, ld["par"], cwd))
        need(isinstance(back, ep.FeatherPulsar) and back.name == psr.name and np.array_equal(back.toas, psr.toas), "another pulsar was read back")
        labs.append("feather")
    labs.append("tempo2" if tempo2 else "pint")
    if d["includes"]:
        labs.append("includes")
    if ntoas(d) > 100:
        labs.append(">100 TOAs")
    for k in ("par", "tim"):
        if os.path.realpath(absp[k]) != os.path.join(os.path.realpath(disk.root), d[k]):
            labs.append("through a link")


def run(case):
    import enterprise.pulsar as ep

    home = os.getcwd()
    root = tempfile.mkdtemp(prefix="vp_r04_")
    labs = []
    try:
        disk = Disk(os.path.realpath(root), case)
        ok = [f for f in disk.files if ntoas(f) >= 2]
        if len(ok) < len(disk.files):  # tempo2 cannot fit a single TOA
            return {"nontrivial": False}
        for ld in case["loads"]:
            one(disk, ld, ep, labs)
    finally:
        os.chdir(home)
        shutil.rmtree(root)
    return {"nontrivial": bool({"tempo2", "pint"} & set(labs)), "labels": sorted(set(labs))}


PROP = Prop(
    "R04",
    "par and tim files written to a scratch tree of directories (with symbolic links, same-named other files everywhere, nested INCLUDEs, comments, up to several hundred TOAs), one to three loads through the Pulsar factory "
    "from any current directory with absolute, relative and unusual spellings, both packages, all options, and failures (missing files, missing INCLUDE, loader exception, unknown package); "
    "the stand-in timing packages really open the files they are told to; non-trivial: at least one successful load",
    [Sub("load", case, run, 4000, 60000)],
    ["timing packages are replaced by stand-ins that read the files with tempo2's INCLUDE rule", "TOA names do not start with 'C'", "at least two TOAs"],
)
