"""R01: pulsar data arrays stay aligned under sorting, flagging and time filtering."""
import copy
import json
import os

import numpy as np
from hypothesis import strategies as st

from pbt import fakes, gen

fakes.install_timing_packages()  # before anything imports enterprise.pulsar

from pbt.core import Prop, Sub  # noqa: E402
from pbt.helpers import close, need  # noqa: E402

DAY = 86400.0
CKMS = 299792.458
PREFERENCE = ["group", "g", "sys", "i", "f"]


@st.composite
def spec(draw):
    flags = draw(st.lists(st.sampled_from(sorted(fakes.FLAGVALS)), unique=True, max_size=6))
    return dict(
        seed=draw(gen.SEEDS),
        n=draw(st.sampled_from([1, 2, 3, 5, 8, 9, 12, 25, 60, 60, 300])),
        order=draw(st.sampled_from(["shuffled", "shuffled", "sorted", "reversed"])),
        ties=draw(st.booleans()),
        ecliptic=draw(st.booleans()),
        flags=flags,
        blanks=draw(st.booleans()),
        ntm=draw(st.integers(0, 5)),
        ndmx=draw(st.sampled_from([0, 0, 1, 4, 12])),
        frozen=draw(st.sampled_from([[], [], [0], [1, 3, 8]])),  # DMX bins that are set, not fitted
        name=draw(st.sampled_from(["J1234+5678", "B1855+09", "1713+0747", "J0437-4715", "1855+09", "0000+00"])),
    )


@st.composite
def case(draw):
    ops = []
    for _ in range(draw(st.integers(0, 5))):
        op = draw(st.sampled_from(["filter", "filter", "filter", "flag", "flag", "sort", "none", "copy"]))
        if op == "filter":
            lo, hi = draw(st.floats(-0.1, 1.0)), draw(st.floats(0.0, 1.1))
            k = draw(st.sampled_from(["both", "lo", "hi"]))
            ops.append(["filter", lo if k != "hi" else None, (hi if hi > lo else lo + 0.3) if k != "lo" else None, draw(st.booleans())])
        elif op == "flag":
            ops.append(["flag", draw(st.sampled_from(["f", "group", "new", "fe"])), draw(gen.SEEDS)])
        else:
            ops.append([op])
    sp, kind = draw(spec()), draw(st.sampled_from(["tempo2", "pint", "pint"]))
    if kind == "tempo2":  # numpy scalars come back for single TOAs; tempo2 cannot fit one anyway
        sp["n"] = max(sp["n"], 2)
    return dict(spec=sp, kind=kind, sort=draw(st.booleans()), planets=draw(st.sampled_from([True, True, True, False])), route=draw(st.sampled_from(["class", "factory"])), keep=draw(st.sampled_from([None, None, True, False])), ops=ops)


def objects(case, raw):
    """What the timing package hands over."""
    return (fakes.FakeT2(raw),) if case["kind"] == "tempo2" else (fakes.FakePintTOAs(raw), fakes.FakePintModel(raw))


def build(case, raw, args=None):
    import enterprise.pulsar as ep

    args = args or objects(case, raw)

    kw = dict(sort=case["sort"], planets=case["planets"])
    if case.get("keep") is not None:
        kw["drop_t2pulsar" if case["kind"] == "tempo2" else "drop_pintpsr"] = not case["keep"]
    if case["kind"] == "tempo2":
        cls = ep.Tempo2Pulsar
    else:
        cls = ep.PintPulsar
    psr = ep.Pulsar(*args, **kw) if case["route"] == "factory" else cls(*args, **kw)
    need(type(psr) is cls, "a %s came out of the factory", type(psr).__name__)
    mine = [("t2pulsar", args[0])] if case["kind"] == "tempo2" else [("pint_toas", args[0]), ("model", args[1])]
    for a, obj in mine:
        need(hasattr(psr, a) == bool(case.get("keep")), "%s kept: %s", a, hasattr(psr, a))
        need(not case.get("keep") or getattr(psr, a) is obj, "another %s is kept", a)
    return psr


def rotate(v):
    """Ecliptic to equatorial rotation of vectors along the last axis."""
    e = np.deg2rad(84381.406 / 3600)
    return np.stack([v[..., 0], v[..., 1] * np.cos(e) - v[..., 2] * np.sin(e), v[..., 1] * np.sin(e) + v[..., 2] * np.cos(e)], axis=-1)


def reference(case, raw):
    """What every array of the pulsar says about each TOA, in input order."""
    ref = dict(toas=raw["toas"] * DAY, stoas=raw["stoas"] * DAY, toaerrs=raw["toaerrs"] * 1e-6, residuals=raw["residuals"], freqs=raw["freqs"], telescope=np.array(raw["telescope"], "U80"), Mmat=raw["Mmat"].copy())
    tempo2 = case["kind"] == "tempo2"
    turn = rotate if tempo2 and case["spec"]["ecliptic"] else (lambda v: v)
    ref["pos_t"] = turn(raw["pos_t"])
    if case["planets"]:
        if tempo2:
            ref["planetssb"] = np.concatenate([turn(raw["planetssb"][..., :3]), turn(raw["planetssb"][..., 3:])], axis=-1)
            ref["sunssb"] = np.concatenate([turn(raw["sunssb"][:, :3]), turn(raw["sunssb"][:, 3:])], axis=-1)
        else:
            tab = raw["table"]
            pl = np.full((len(raw["toas"]), 9, 6), np.nan)
            for i, nm in [(2, "earth"), (4, "jupiter"), (5, "saturn"), (6, "uranus"), (7, "neptune")]:
                pl[:, i, :3] = (tab["obs_%s_pos" % nm] + tab["ssb_obs_pos"]) / CKMS
            ref["planetssb"] = pl
            ref["sunssb"] = np.concatenate([(tab["obs_sun_pos"] + tab["ssb_obs_pos"]) / CKMS, np.zeros((len(pl), 3))], axis=1)
    return ref


class Model(object):
    """Rows in input order, plus column names: the plain-list meaning of every operation."""

    def __init__(self, case, raw):
        self.a = reference(case, raw)
        self.fit = list(raw["fitpars"])
        self.flags = {f: np.array(v, "U80") for f, v in raw["flags"].items()}
        if case["kind"] == "pint":  # a flag no TOA carries does not exist for PINT
            self.flags = {f: v for f, v in self.flags.items() if np.any(v != "")}
        self.sort = case["sort"]

    @property
    def n(self):
        return len(self.a["toas"])

    def filter(self, lo, hi):
        t = self.a["toas"]
        keep = np.ones(len(t), bool)
        if lo is not None:
            keep &= t >= lo * DAY
        if hi is not None:
            keep &= t <= hi * DAY
        self.a = {k: v[keep] for k, v in self.a.items()}
        self.flags = {k: v[keep] for k, v in self.flags.items()}
        cols = [j for j in range(len(self.fit)) if np.any(self.a["Mmat"][:, j] != 0)]
        self.a["Mmat"], self.fit = self.a["Mmat"][:, cols], [self.fit[j] for j in cols]

    def backend(self):
        out = np.array([""] * self.n, "U80")
        for i in range(self.n):
            for f in PREFERENCE:
                if f in self.flags and self.flags[f][i]:
                    out[i] = self.flags[f][i]
                    break
            else:
                if "fe" in self.flags and "be" in self.flags and self.flags["fe"][i] and self.flags["be"][i]:
                    out[i] = self.flags["fe"][i] + "_" + self.flags["be"][i]
        return out

    def order_of(self, toas, freqs):
        """Which row each presented TOA is (frequencies identify rows)."""
        need(len(toas) == self.n, "%d TOAs instead of %d", len(toas), self.n)
        if self.n == 0:
            return np.arange(0)
        order = np.argmin(np.abs(np.subtract.outer(freqs, self.a["freqs"])), axis=1)
        need(len(set(order)) == self.n, "the presented rows are not the input rows, each once")
        if self.sort:
            need(np.all(np.diff(toas) >= 0), "TOAs are not in time order")
        else:
            need(np.array_equal(order, np.arange(self.n)), "TOAs are not in input order")
        return order


def compare(psr, m, case):
    order = m.order_of(psr.toas, psr.freqs)
    for f, want in m.a.items():
        got, w = getattr(psr, f), want[order]
        if f == "telescope":
            need(got.shape == w.shape and np.all(got == w), "%s is not aligned with the TOAs", f)
            continue
        tol = 1e-4 if case["spec"]["ecliptic"] and f in ("pos_t", "planetssb", "sunssb") else 1e-9
        close(got, w, f, rtol=tol, scale=np.nanmax(np.abs(w)) if w.size else 1.0)
    need(list(psr.fitpars) == m.fit, "fitted parameters %s, expected %s", psr.fitpars, m.fit)
    need(psr.Mmat.shape == (m.n, len(m.fit)), "design matrix of shape %s for %d names", psr.Mmat.shape, len(m.fit))
    flags = psr.flags
    need(set(flags) == set(m.flags), "flags %s, expected %s", sorted(flags), sorted(m.flags))
    for f in flags:
        need(np.array_equal(np.array(flags[f], "U80"), m.flags[f][order]), "flag %s: %s, expected %s", f, list(flags[f][:6]), list(m.flags[f][order][:6]))
    want = m.backend()[order]
    got = psr.backend_flags
    need(len(got) == m.n and np.all(np.array(got, "U80") == want), "backend labels %s, expected %s", list(got[:6]), list(want[:6]))
    probe = np.arange(m.n)
    need(np.array_equal(probe[psr.isort][psr.iisort], probe), "iisort does not undo isort")
    close(psr.toas, m.a["toas"][psr.isort], "toas by isort", rtol=1e-15)
    th, ph = psr.theta, psr.phi
    close(psr.pos, [np.sin(th) * np.cos(ph), np.sin(th) * np.sin(ph), np.cos(th)], "position vector", rtol=1e-12, scale=1.0)
    return order


def distances():
    if not _DIST:
        import enterprise

        with open(os.path.join(enterprise.__path__[0], "datafiles", "pulsar_distances.json")) as f:
            _DIST.update(json.load(f))
    return _DIST


_DIST = {}


def compare_scalars(psr, raw, case):
    """What does not depend on the TOAs: sky position, distance, dispersion."""
    name = raw["name"]
    want = next((distances()[k] for k in ([name] if name[0] in "JB" else ["J" + name, "B" + name]) if k in distances()), (1.0, 0.2))
    need(tuple(psr.pdist) == tuple(want), "distance of %s: %s instead of %s", name, psr.pdist, want)
    lon, lat = raw["lon"], raw["lat"]
    v = np.array([np.cos(lat) * np.cos(lon), np.cos(lat) * np.sin(lon), np.sin(lat)])
    if not raw["ecliptic"]:
        close(psr.pos, v, "position of %s" % name, rtol=1e-9, scale=1.0)
    elif "B" not in name:
        close(psr.pos, rotate(v), "position of %s" % name, rtol=3e-6, scale=1.0)
    need(psr.name == name and psr.dm == raw["dm"], "name %s, DM %s", psr.name, psr.dm)
    need(len(set(psr.setpars)) == len(psr.setpars) and set(psr.setpars) == set(raw["setpars"]), "other set parameters %s instead of %s", psr.setpars, raw["setpars"])
    got, ref = psr.dmx, raw["dmx"]
    if ref and not (got and set(got) == set(ref)):  # (PINT pulsars list the fitted bins only)
        need(case["kind"] == "pint", "DMX bins %s instead of %s", got, ref)
        ref = {k: d for k, d in ref.items() if d["fit"]} or None
    need((got is None) == (ref is None) and (ref is None or set(got) == set(ref)), "DMX bins %s instead of %s", got, ref)
    for k in ref or {}:
        need(got[k] == ref[k], "DMX bin %s: %s instead of %s", k, got[k], ref[k])


def run(case):
    raw = fakes.raw_pulsar(case["spec"])
    args = objects(case, raw)
    raw["setpars"] = [p for p in (args[0].pars(which="set") if len(args) == 1 else args[1].params) if p not in raw["fitpars"]]
    psr, m = build(case, raw, args), Model(case, raw)
    order = compare(psr, m, case)
    compare_scalars(psr, raw, case)
    labs = [case["kind"], "sort" if case["sort"] else "nosort"]
    moved = not np.array_equal(order, np.arange(m.n))
    cut = 0
    for op in case["ops"]:
        if op[0] == "filter":
            # limits half way between neighbouring TOAs, or right on TOAs at whole days, so that rounding cannot matter
            edge = np.unique(m.a["toas"]) / DAY
            on = len(op) > 3 and op[3] and case["spec"]["ties"] and len(edge) > 0
            mid = edge if on else np.concatenate([[edge[0] - 1], (edge[1:] + edge[:-1]) / 2, [edge[-1] + 1]]) if len(edge) else np.array([53000.0])
            pick = lambda x: None if x is None else float(mid[int(round(min(max(x, 0), 1) * (len(mid) - 1)))])
            lo, hi = pick(op[1]), pick(op[2])
            before, cols = m.n, len(m.fit)
            kw = {k: v for k, v in (("start_time", lo), ("end_time", hi)) if v is not None}
            psr.filter_data(**kw)
            m.filter(lo, hi)
            cut += 0 < m.n < before
            labs += ["limits on TOAs"] if on and kw else []
            labs += (["partial cut"] if 0 < m.n < before else []) + (["all cut"] if m.n == 0 else []) + (["columns dropped"] if 0 < len(m.fit) < cols else [])
        elif op[0] == "none":
            psr.filter_data()
            m.filter(None, None)
        elif op[0] == "sort":
            psr.sort_data()
        elif op[0] == "copy":
            psr = copy.deepcopy(psr)
        elif op[0] == "flag":
            rng = np.random.default_rng(op[2])
            vals = np.array(["%s%d" % ("v" * int(rng.integers(1, 6)), int(x)) for x in rng.integers(0, 4, m.n)], "U80")
            if m.n and rng.integers(2):
                vals[int(rng.integers(m.n))] = ""
            order = m.order_of(psr.toas, psr.freqs)
            try:
                psr.set_flags(op[1], vals.copy())
            except NotImplementedError:  # documented for record-array flags
                need(case["kind"] == "tempo2", "flags cannot be set")
                continue
            need(case["kind"] == "pint", "flags were set on a record array")
            new = np.empty(m.n, "U80")
            new[order] = vals
            m.flags[op[1]] = new
            need(np.array_equal(psr.flags[op[1]], vals), "flag %s read back differs from what was set", op[1])
            labs.append("flag set")
        compare(psr, m, case)
    compare_scalars(psr, raw, case)
    return {"nontrivial": moved or cut > 0, "labels": labs}


PROP = Prop(
    "R01",
    "real Tempo2Pulsar/PintPulsar objects built from stand-in timing-package objects (1-60 TOAs in any input order, ties, blank flags, 0-6 flags, DMX-like columns), then up to five filters, flag changes, re-sorts and copies, "
    "every public array compared with a list of rows after each step; non-trivial: the presented order differs from the input order or a filter removed some TOAs",
    [Sub("history", case, run, 3000, 60000)],
    ["filter limits fall between TOAs or on TOAs at whole days", "flags are strings", "tempo2 pulsars have at least two TOAs", "timing packages are replaced by stand-ins that serve exactly the values enterprise reads"],
)
