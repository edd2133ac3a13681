"""A stand-in for the object tempo2 hands to the library, so that the real Pulsar class can be built offline."""
import numpy as np


class _Par(object):
    def __init__(self, val, err=0.0):
        self.val, self.err = val, err


class FakeTempo2(object):
    """Implements exactly the tempo2-object interface that enterprise's Tempo2Pulsar reads.

    spec: seed, n, sorted(bool), ecliptic(bool), flags (dict flag -> list of str), ties(bool), dmx(bool), name
    """

    def __init__(self, spec):
        rng = np.random.default_rng(spec["seed"])
        n = spec["n"]
        self.name = spec.get("name", "J1234+5678")
        t = 53000 + rng.uniform(0, 2000, n)
        if spec.get("ties"):
            t = np.round(t / 100) * 100.0
        if spec.get("sorted"):
            t = np.sort(t)
        self._toas = t
        self.stoas = t + rng.uniform(-0.005, 0.005, n)
        self._res = rng.normal(size=n) * 1e-6
        self.toaerrs = rng.uniform(0.1, 5, n)
        self._fit = list(spec.get("fit", ["F0", "F1"]))
        k = len(self._fit) + 1
        self._dm = rng.normal(size=(n, k))
        self._dm[:, 0] = 1.0
        self._ecl = bool(spec.get("ecliptic"))
        self._set = list(self._fit) + ["DM", "PEPOCH"]
        self._pars = {p: _Par(float(rng.normal())) for p in self._fit}
        self._pars["DM"] = _Par(float(rng.uniform(5, 50)))
        self._pars["PEPOCH"] = _Par(55000.0)
        if self._ecl:
            names = ["ELONG", "ELAT"]
            self._pars["ELONG"] = _Par(float(rng.uniform(0, 6.2)))
            self._pars["ELAT"] = _Par(float(rng.uniform(-1.2, 1.2)))
        else:
            names = ["RAJ", "DECJ"]
            self._pars["RAJ"] = _Par(float(rng.uniform(0, 6.2)))
            self._pars["DECJ"] = _Par(float(rng.uniform(-1.2, 1.2)))
        self._set += names
        if spec.get("dmx"):
            edges = np.linspace(t.min() - 1, t.max() + 1, 4)
            for i in range(3):
                tag = "%04d" % (i + 1)
                self._pars["DMX_" + tag] = _Par(float(rng.normal() * 1e-3), 1e-4)
                self._pars["DMXR1_" + tag] = _Par(edges[i])
                self._pars["DMXR2_" + tag] = _Par(edges[i + 1])
                self._set += ["DMX_" + tag, "DMXR1_" + tag, "DMXR2_" + tag]
        for i in range(1, 10):
            self._pars["DMASSPLANET%d" % i] = _Par(0.0)
        self._freqs = rng.uniform(400, 3000, n) * 1e6
        self._tel = rng.choice(np.array([b"arecibo", b"gbt", b"parkes"]), n)
        self._flags = {f: np.array([v[i % len(v)] for i in range(n)], dtype="U24") for f, v in spec["flags"].items()}
        if spec.get("shuffle_flags", True):
            for f in self._flags:
                self._flags[f] = self._flags[f][rng.permutation(n)]
        self.psrPos = rng.normal(size=(n, 3))
        self.psrPos /= np.sqrt((self.psrPos**2).sum(axis=1))[:, None]
        for pl in "mercury venus earth mars jupiter saturn uranus neptune pluto sun".split():
            setattr(self, pl + "_ssb", rng.normal(size=(n, 6)) * 100)

    def toas(self):
        return self._toas.copy()

    def residuals(self):
        return self._res.copy()

    def designmatrix(self):
        return self._dm.copy()

    def ssbfreqs(self):
        return self._freqs.copy()

    def telescope(self):
        return self._tel.copy()

    def pars(self, which="fit"):
        return tuple(self._fit) if which == "fit" else tuple(self._set)

    def flags(self):
        return list(self._flags)

    def flagvals(self, f):
        return self._flags[f].copy()

    def formbats(self):
        pass

    def __getitem__(self, p):
        return self._pars[p]


# --------------------------------------------------------------------------- PINT


class _FakeColumnTable(dict):
    @property
    def colnames(self):
        return list(self)


class FakePintTOAs(object):
    """The TOA-table interface of PINT that enterprise's PintPulsar reads."""

    def __init__(self, raw):
        import astropy.units as u

        self.raw = raw
        self.ntoas = len(raw["toas"])
        self.table = _FakeColumnTable({k: v * u.km for k, v in raw["table"].items()})

    def get_mjds(self):
        import astropy.units as u

        return self.raw["stoas"] * u.d

    def get_errors(self):
        import astropy.units as u

        return self.raw["toaerrs"] * u.us

    def get_obss(self):
        return self.raw["telescope"].copy()

    def get_flags(self):
        return [dict(d) for d in self.raw["flagrows"]]

    def write_TOA_file(self, f):
        f.write("FORMAT 1\n")


class _PintPar(object):
    def __init__(self, value, unit=None, frozen=True, err=None):
        self.value, self.frozen, self.uncertainty_value, self._unit = value, frozen, err, unit

    @property
    def quantity(self):
        return self.value * self._unit


class _Astrometry(object):
    def __init__(self, pos_t, toas):
        self.pos_t, self.toas = pos_t, toas

    def ssb_to_psb_xyz_ICRS(self, epoch):
        import astropy.units as u

        assert len(epoch) == len(self.pos_t)
        off = np.asarray(epoch.mjd, float) - self.toas  # positions are those at the given epochs
        return (self.pos_t + np.where(np.abs(off) < 1e-6, 0.0, off)[:, None]) * u.dimensionless_unscaled


class FakePintModel(object):
    def __init__(self, raw):
        import astropy.units as u

        self.raw = raw
        self._p = {"PSR": _PintPar(raw["name"])}
        if raw["ecliptic"]:
            self._p["ELONG"] = _PintPar(np.rad2deg(raw["lon"]), u.deg)
            self._p["ELAT"] = _PintPar(np.rad2deg(raw["lat"]), u.deg)
        else:
            self._p["RAJ"] = _PintPar(np.rad2deg(raw["lon"]) / 15, u.hourangle)
            self._p["DECJ"] = _PintPar(np.rad2deg(raw["lat"]), u.deg)
        self._p["DM"] = _PintPar(raw["dm"], frozen=True)
        for k, d in (raw["dmx"] or {}).items():
            self._p[k] = _PintPar(d["DMX"], frozen=not d["fit"], err=d["DMXerr"])
            self._p[k.replace("DMX_", "DMXR1_")] = _PintPar(d["DMXR1"])
            self._p[k.replace("DMX_", "DMXR2_")] = _PintPar(d["DMXR2"])
        for k in raw["fitpars"]:
            if k not in self._p and k != "Offset":
                self._p[k] = _PintPar(1.0, frozen=False)
        self.params = [k for k in self._p if k != "PSR"]
        self.components = {"AstrometryEcliptic" if raw["ecliptic"] else "AstrometryEquatorial": _Astrometry(raw["pos_t"], raw["toas"])}

    def __getattr__(self, k):
        if k.startswith("_") or k not in self._p:
            raise AttributeError(k)
        return self._p[k]

    def __getitem__(self, k):
        return self._p[k]

    def get_barycentric_toas(self, toas):
        import astropy.units as u

        self._mine(toas)
        return self.raw["toas"] * u.d

    def _mine(self, toas):
        if getattr(toas, "raw", None) is not self.raw:
            raise TypeError("not the TOAs of this model: %r" % (toas,))

    def designmatrix(self, toas):
        self._mine(toas)
        return self.raw["Mmat"].copy(), list(self.raw["fitpars"]), ["" for _ in self.raw["fitpars"]]

    def barycentric_radio_freq(self, toas):
        self._mine(toas)
        return self.raw["freqs"].copy()

    def as_parfile(self):
        return "PSR " + self.raw["name"] + "\n"


class FakePintResiduals(object):
    def __init__(self, toas, model):
        import astropy.units as u

        self.time_resids = toas.raw["residuals"] * u.s


class FakeT2(object):
    """The tempo2 object for a raw data dictionary (see raw_pulsar)."""

    def __init__(self, raw, timfile=None, maxobs=None, ephem=None, clk=None):
        if timfile is not None:  # called with file names
            raw, what = load_files(raw, timfile)
            what.update(package="tempo2", maxobs=maxobs, ephem=ephem, clk=clk)
            LOADED.append(what)
            if len(raw["toas"]) > maxobs:
                raise RuntimeError("%d TOAs, storage for %d" % (len(raw["toas"]), maxobs))
        self.raw, self.name = raw, raw["name"]
        self.stoas, self.toaerrs, self.psrPos = raw["stoas"].copy(), raw["toaerrs"].copy(), raw["pos_t"].copy()
        self._fit = [p for p in raw["fitpars"] if p != "Offset"]
        self._pars = {p: _Par(1.0) for p in self._fit}
        self._pars.update({"DM": _Par(raw["dm"]), "PEPOCH": _Par(55000.0)})
        lon, lat = ("ELONG", "ELAT") if raw["ecliptic"] else ("RAJ", "DECJ")
        self._pars.update({lon: _Par(raw["lon"]), lat: _Par(raw["lat"])})
        for k, d in (raw["dmx"] or {}).items():
            self._pars[k] = _Par(d["DMX"], d["DMXerr"])
            self._pars[k.replace("DMX_", "DMXR1_")] = _Par(d["DMXR1"])
            self._pars[k.replace("DMX_", "DMXR2_")] = _Par(d["DMXR2"])
        self._set = list(self._pars)
        for i in range(1, 10):
            self._pars["DMASSPLANET%d" % i] = _Par(0.0)
        for i, pl in enumerate("mercury venus earth mars jupiter saturn uranus neptune pluto".split()):
            setattr(self, pl + "_ssb", raw["planetssb"][:, i, :].copy())
        self.sun_ssb = raw["sunssb"].copy()

    def toas(self):
        return self.raw["toas"].copy()

    def residuals(self):
        return self.raw["residuals"].copy()

    def designmatrix(self):
        return self.raw["Mmat"].copy()

    def ssbfreqs(self):
        return self.raw["freqs"] * 1e6

    def telescope(self):
        return np.array([t.encode("ascii") for t in self.raw["telescope"]], dtype="S12")

    def pars(self, which="fit"):
        return tuple(self._fit) if which == "fit" else tuple(self._set)

    def flags(self):
        return list(self.raw["flags"])

    def flagvals(self, f):
        return np.array(self.raw["flags"][f])

    def formbats(self):
        pass

    def __getitem__(self, p):
        return self._pars[p]


LOADED = []  # every load from files by the stand-ins: what was read, from where, with which options


def read_tim(timfile):
    """TOA lines of a tim file, INCLUDEs resolved from the current directory as tempo2 does."""
    out = []
    with open(timfile) as f:
        for ln in f.read().split("\n"):
            w = ln.split()
            if not w or w[0] in ("C", "#", "FORMAT", "MODE"):
                continue
            if w[0] == "INCLUDE":
                out += read_tim(w[1])
            else:
                out.append(float(w[2]))
    return out


def load_files(parfile, timfile):
    import os

    with open(parfile) as f:
        text = f.read()
    par = dict(ln.split(None, 1) for ln in text.split("\n") if ln.strip())
    mjds = read_tim(timfile)
    if "BROKEN" in par:
        raise ValueError("cannot fit this pulsar")
    raw = raw_pulsar(dict(seed=int(par["SEED"]), n=len(mjds), name=par["PSR"], order="shuffled"))
    raw["stoas"] = raw["stoas"] + np.array(mjds) - raw["toas"]
    raw["toas"] = np.array(mjds)
    return raw, dict(partext=text, mjds=mjds, cwd=os.getcwd())


def get_model_and_toas(parfile, timfile, ephem=None, bipm_version=None, planets=False):
    raw, what = load_files(parfile, timfile)
    what.update(package="pint", ephem=ephem, bipm_version=bipm_version, planets=planets)
    LOADED.append(what)
    return FakePintModel(raw), FakePintTOAs(raw)


def install_timing_packages():
    """Put stand-in 'libstempo' and 'pint' modules in place *before* enterprise.pulsar is imported (one process only)."""
    import sys
    import types

    if "enterprise.pulsar" in sys.modules and getattr(sys.modules["enterprise.pulsar"], "t2", None) is None:
        from .core import HarnessError

        raise HarnessError("enterprise.pulsar was imported before the stand-in timing packages")
    t2 = types.ModuleType("libstempo")
    t2.tempopulsar = FakeT2
    pint = types.ModuleType("pint")
    mods = {"pint.models": dict(TimingModel=FakePintModel, get_model_and_toas=get_model_and_toas), "pint.residuals": dict(Residuals=FakePintResiduals), "pint.toa": dict(TOAs=FakePintTOAs)}
    sys.modules["libstempo"], sys.modules["pint"] = t2, pint
    for name, attrs in mods.items():
        m = types.ModuleType(name)
        m.__dict__.update(attrs)
        setattr(pint, name.split(".")[1], m)
        sys.modules[name] = m


FLAGVALS = {
    "group": ["", "G1", "G2_x", "L-wide_PUPPI_after_the_move_of_the_backend_in_2015"],
    "g": ["", "short", "a-longer-one"],
    "sys": ["", "EFF.EBPP.1360", "WSRT"],
    "i": ["", "i1", "i22"],
    "f": ["", "430_ASP", "L-wide_PUPPI", "S-wide_PUPPI"],
    "fe": ["", "L-wide", "430", "Rcvr1_2"],
    "be": ["", "ASP", "PUPPI", "GUPPI"],
    "B": ["10CM", "20CM", "50CM"],
    "pta": ["NANOGrav", "PPTA", ""],
    "my_flag_2": ["x", "y_z", "", "/data/2009-11-05/guppi_55140_J1713+0747_0017.11y.x.sum.sm.zap.ff"],
    "toaname": ["t%d" % i for i in range(1, 400)],
}


def raw_pulsar(spec):
    """Raw per-TOA data in input order; every entry of every array identifies its row.

    spec: seed, n, order (sorted|shuffled|reversed), ties, ecliptic, flags (names), blanks, ntm, ndmx, name
    """
    rng = np.random.default_rng(spec["seed"])
    n = spec["n"]
    t = 53000 + rng.uniform(0, 2000, n)
    if spec.get("ties"):
        t = 53000 + np.round(rng.uniform(0, 2000, n) / 250) * 250.0
    if spec.get("order") == "sorted":
        t = np.sort(t)
    elif spec.get("order") == "reversed":
        t = np.sort(t)[::-1].copy()
    k, nd = spec.get("ntm", 2), spec.get("ndmx", 0)
    M = rng.normal(size=(n, k + 1 + nd))
    M[:, 0] = 1.0
    fit = ["Offset"] + (["RAJ", "DECJ"] if not spec.get("ecliptic") else ["ELONG", "ELAT"])[:k] + ["F%d" % i for i in range(max(0, k - 2))]
    dmx = {}
    edges = np.linspace(52999, 55001, nd + 1)
    for i in range(nd):
        key = "DMX_%04d" % (i + 1)
        fit.append(key)
        M[:, k + 1 + i] *= (t >= edges[i]) & (t < edges[i + 1])
        dmx[key] = dict(DMX=float(rng.normal()), DMXerr=float(rng.uniform(0.1, 1)), DMXR1=float(edges[i]), DMXR2=float(edges[i + 1]), fit=i not in spec.get("frozen", []))
    free = [j for j, key in enumerate(fit) if dmx.get(key, {}).get("fit", True)]
    fit, M = [fit[j] for j in free], M[:, free]
    raw = dict(name=spec.get("name", "J1234+5678"), toas=t, stoas=t + rng.uniform(-0.005, 0.005, n), toaerrs=rng.uniform(0.1, 5, n), residuals=rng.normal(size=n) * 1e-6, freqs=rng.uniform(400, 3000, n), telescope=np.array([str(x) for x in rng.choice(["arecibo", "gbt", "parkes_64"], n)]), Mmat=M, fitpars=fit, dmx=dmx or None, dm=float(rng.uniform(5, 50)), ecliptic=bool(spec.get("ecliptic")), lon=float(rng.uniform(0.1, 6.2)), lat=float(rng.uniform(-1.2, 1.2)))
    p = rng.normal(size=(n, 3))
    raw["pos_t"] = p / np.sqrt((p**2).sum(axis=1))[:, None]
    raw["planetssb"], raw["sunssb"] = rng.normal(size=(n, 9, 6)) * 100, rng.normal(size=(n, 6))
    raw["table"] = {k: rng.normal(size=(n, 3)) * 1e8 for k in ["obs_earth_pos", "obs_jupiter_pos", "obs_saturn_pos", "obs_uranus_pos", "obs_neptune_pos", "obs_sun_pos", "ssb_obs_pos"]}
    flags = {}
    for f in spec.get("flags", []):
        vals = [v for v in FLAGVALS[f] if v or spec.get("blanks")]
        flags[f] = [vals[int(i)] for i in rng.integers(0, len(vals), n)]
    raw["flags"] = flags
    raw["flagrows"] = [{f: v[i] for f, v in flags.items() if v[i]} for i in range(n)]
    return raw
