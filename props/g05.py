"""G05: overlap reduction functions are valid correlations with their closed forms."""
import numpy as np
from hypothesis import strategies as st
from scipy import special

from pbt import gen, synth
from pbt.core import Prop, Sub
from pbt.helpers import close, need

TWO_PI = 2 * np.pi


@st.composite
def position(draw):
    """[phi, theta], with the poles, the equator and round angles."""
    phi = draw(st.one_of(st.floats(0, TWO_PI), st.sampled_from([0.0, np.pi / 2, np.pi, 3 * np.pi / 2])))
    theta = draw(st.one_of(st.floats(0.001, np.pi - 0.001), st.floats(0.3, 2.8), st.sampled_from([0.0, np.pi / 2, np.pi])))
    return [phi, theta]


@st.composite
def case(draw):
    pos = draw(st.lists(position(), min_size=2, max_size=6))
    rel = draw(st.sampled_from(["none", "none", "antipode", "near", "closer", "turn", "same"]))
    if rel == "antipode":
        pos.append([pos[0][0] + np.pi, np.pi - pos[0][1]])
    elif rel == "near":
        pos.append([pos[0][0], min(max(pos[0][1], 0.01), 3.1) + 10.0 ** draw(st.floats(-6.5, -1))])
    elif rel == "closer":  # down to the last bit of the position
        pos.append([pos[0][0], min(max(pos[0][1], 0.01), 3.1) + 10.0 ** draw(st.floats(-16, -6.5))])
    elif rel == "turn":
        pos.append([pos[0][0] + TWO_PI, pos[0][1]])
    elif rel == "same":
        pos.append(list(pos[0]))
    return dict(pos=pos, rel=rel, rot=[draw(st.floats(0, TWO_PI)) for _ in range(3)], how=draw(st.sampled_from(["call", "function"])))


def vector(loc):
    phi, th = loc
    return np.array([np.sin(th) * np.cos(phi), np.sin(th) * np.sin(phi), np.cos(th)])


def rotation(a):
    c, s = np.cos(a), np.sin(a)
    rz = np.array([[c[0], -s[0], 0], [s[0], c[0], 0], [0, 0, 1]])
    ry = np.array([[c[1], 0, s[1]], [0, 1, 0], [-s[1], 0, c[1]]])
    rx = np.array([[1, 0, 0], [0, c[2], -s[2]], [0, s[2], c[2]]])
    return rz @ ry @ rx


def angle(a, b):
    return 2 * np.arctan2(np.linalg.norm(a - b), np.linalg.norm(a + b))


def closed(kind, z):
    if kind == "hd":
        x = np.sin(z / 2) ** 2
        return 1.5 * x * np.log(x) - 0.25 * x + 0.5 if x > 0 else 0.5
    return np.cos(z) if kind == "dipole" else 1.0


AUTO = {"hd": 1.0, "dipole": 1 + 1e-5, "monopole": 1 + 1e-5}


def run(c):
    from enterprise.signals import utils

    pos = [vector(p) for p in c["pos"]]
    R = rotation(np.array(c["rot"]))
    for kind in ("hd", "dipole", "monopole"):
        f = getattr(utils, kind + "_orf")
        if c["how"] == "function":
            g = f()("orf")
            f = lambda a, b, g=g: g(a, b, params={"unused": 1.0})
        n = len(pos)
        G = np.zeros((n, n))
        distinct = list(range(n))
        for i in range(n):
            for j in range(n):
                equal = i == j or np.array_equal(pos[i], pos[j])
                z = angle(pos[i], pos[j])
                v = f(pos[i], pos[j])
                need(np.ndim(v) == 0 and np.isfinite(v), "%s returns %r", kind, v)
                G[i, j] = v
                want = AUTO[kind] if equal else closed(kind, z)
                close(v, want, "%s at %.6g rad" % (kind, z), rtol=1e-10, atol=1e-10)
                if not equal and not np.array_equal(R @ pos[i], R @ pos[j]):
                    close(f(R @ pos[i], R @ pos[j]), v, "%s after a rotation of the sky" % kind, rtol=1e-7, atol=1e-9)
                elif equal and i != j:
                    distinct = [k for k in distinct if k != max(i, j)]
        need(np.array_equal(G, G.T), "%s is not symmetric", kind)
        G = G[np.ix_(distinct, distinct)]
        w = np.linalg.eigvalsh(G)
        need(w[0] > 0, "%s correlation matrix of distinct pulsars has eigenvalue %r", kind, w[0])
        need(np.max(np.abs(G)) <= 1 + 1.1e-5, "%s correlation above one", kind)
        if kind == "hd":
            off = G[~np.eye(len(G), dtype=bool)]
            need(np.all(off <= 0.5 + 1e-12) and np.all(off >= -0.153), "Hellings-Downs values out of range")
    return {"nontrivial": True, "labels": [c["rel"], c["how"], "n=%d" % len(pos)]}


# --------------------------------------------------------------------------- anisotropic backgrounds


@st.composite
def anis_case(draw):
    n = draw(st.integers(1, 4))
    return dict(
        locs=[[draw(st.floats(0, TWO_PI)), draw(st.floats(0.05, np.pi - 0.05))] for _ in range(n)],
        lmax=draw(st.integers(0, 4)),
        nside=draw(st.sampled_from([2, 4, 8])),
        seed=draw(gen.SEEDS),
        how=draw(st.sampled_from(["orf", "array"])),
    )


def ylm(l, m, theta, phi):
    """Real spherical harmonics with the Condon-Shortley phase."""
    a = abs(m)
    norm = np.sqrt((2 * l + 1) / (4 * np.pi) * special.factorial(l - a) / special.factorial(l + a))
    P = special.lpmv(a, l, np.cos(theta))
    if m == 0:
        return norm * P
    return np.sqrt(2) * norm * P * (np.cos(a * phi) if m > 0 else np.sin(a * phi))


def antenna(pos, k):
    """Products of plus and cross responses to waves travelling along k are summed, so any polarization basis does."""
    ref = np.where(np.abs(k[:, [2]]) < 0.9, np.array([[0, 0, 1.0]]), np.array([[1.0, 0, 0]]))
    u = np.cross(k, ref)
    u /= np.linalg.norm(u, axis=1, keepdims=True)
    v = np.cross(k, u)
    pu, pv, pk = u @ pos, v @ pos, k @ pos
    return 0.5 * (pu**2 - pv**2) / (1 + pk), pu * pv / (1 + pk)


def run_anis(c):
    import healpy as hp
    from enterprise.signals import anis_coefficients as ac
    from enterprise.signals import gp_priors, gp_signals, parameter, signal_base, utils

    rng = np.random.default_rng([c["seed"], 41])
    nside, lmax = c["nside"], c["lmax"]
    npix = hp.nside2npix(nside)
    th, ph = hp.pix2ang(nside, np.arange(npix))
    k = np.array([np.sin(th) * np.cos(ph), np.sin(th) * np.sin(ph), np.cos(th)]).T
    locs = np.array(c["locs"])
    pos = [vector(p) for p in locs]
    n = len(pos)
    if np.min([np.min(np.abs(1 + k @ p)) for p in pos]) < 1e-6:
        return {"nontrivial": False, "labels": ["pulsar on a pixel"]}
    if any(np.allclose(pos[i], pos[j], atol=1e-7) for i in range(n) for j in range(i)):
        return {"nontrivial": False, "labels": ["coincident pulsars"]}
    F = [antenna(p, k) for p in pos]
    nlm = (lmax + 1) ** 2
    Y = np.array([ylm(l, m, th, ph) for l in range(lmax + 1) for m in range(-l, l + 1)])
    pair = np.array([[1.5 / npix * (F[i][0] * F[j][0] + F[i][1] * F[j][1]) * (2.0 if i == j else 1.0) for j in range(n)] for i in range(n)])
    want = np.einsum("ijp,lp->lij", pair, Y)
    scale = np.max(np.abs(pair).sum(axis=-1))
    B = np.array(ac.anis_basis(locs, lmax, nside=nside))
    need(B.shape == (nlm, n, n), "anisotropic basis of shape %s", B.shape)
    close(B, want, "anisotropic basis", atol=1e-9 * scale, rtol=0)
    # a sky map gives the same correlations as its coefficients, and linearly
    clm = rng.normal(size=nlm)
    sky = clm @ Y
    close(ac.orfFromMap_fast(locs, sky), np.einsum("ijp,p->ij", pair, sky), "correlations of a sky map", atol=1e-8 * scale * nlm, rtol=0)
    resp = ac.signalResponse_fast(locs[:, 1], locs[:, 0], th, ph)
    need(resp.shape == (n, 2 * npix), "signal response of shape %s", resp.shape)
    one = np.array([[1.5 / npix * (F[i][0] * F[j][0] + F[i][1] * F[j][1]) for j in range(n)] for i in range(n)])
    close(resp[:, None, ::2] * resp[None, :, ::2] + resp[:, None, 1::2] * resp[None, :, 1::2], one, "power of the signal response", atol=1e-9 * scale, rtol=0)
    # the two polarizations one by one, with and without the normalization
    pphi, gphi = np.meshgrid(locs[:, 0], ph, indexing="ij")
    pth, gth = np.meshgrid(locs[:, 1], th, indexing="ij")
    for plus in (True, False):
        for norm in (True, False):
            got = ac.createSignalResponse_pol(pphi, pth, gphi, gth, plus=plus, norm=norm)
            close(got * (1.0 if norm else np.sqrt(1.5)), resp[:, (0 if plus else 1) :: 2], "response to one polarization", atol=1e-9 * np.max(np.abs(resp)), rtol=0)
    close(ac.orfFromMap_fast(locs, sky, response=resp), ac.orfFromMap_fast(locs, sky), "correlations with a given response", atol=1e-9 * scale * nlm, rtol=0)
    close(ac.getCov(clm, nside, resp), np.einsum("l,lij->ij", clm, want), "correlations of coefficients", atol=1e-8 * scale * nlm, rtol=0)
    pos_map = np.abs(sky) + 1e-3
    G = np.asarray(ac.orfFromMap_fast(locs, pos_map))
    need(np.array_equal(G, G.T) or np.allclose(G, G.T, rtol=0, atol=1e-12 * scale * np.max(pos_map)), "correlations are not symmetric")
    need(np.linalg.eigvalsh((G + G.T) / 2)[0] > 0, "correlations of a positive sky are not positive definite")
    # isotropic power reproduces the closed form
    H = np.array([[AUTO["hd"] if i == j else closed("hd", angle(pos[i], pos[j])) for j in range(n)] for i in range(n)])
    close(2 * np.sqrt(np.pi) * B[0], H, "isotropic anisotropic basis against Hellings-Downs", atol={2: 0.12, 4: 0.03, 8: 0.01}[nside], rtol=0)
    # coefficients of the array
    par = rng.normal(size=nlm - 1) * 0.3
    full = np.concatenate([[2 * np.sqrt(np.pi)], par])
    C = np.einsum("l,lij->ij", full, want)
    psrs_pos = pos
    if c["how"] == "array" and lmax > 0:
        orf = utils.anis_orf(params=parameter.Uniform(-5, 5, size=nlm - 1), anis_basis=B, psrs_pos=psrs_pos, lmax=lmax)
        sig = gp_signals.FourierBasisCommonGP(gp_priors.powerlaw(log10_A=parameter.Uniform(-18, -12), gamma=parameter.Uniform(0, 7)), orf, components=2, Tspan=3e8, name="gw")
        psrs = []
        for i in range(n):
            p = synth.make_psr(dict(seed=c["seed"] % 1000 + i, name="J%04d+0000" % i, nep=4))
            p.pos = pos[i]
            psrs.append(p)
        pta = signal_base.PTA([signal_base.SignalCollection([sig])(p) for p in psrs])
        names = sorted(["gw_log10_A", "gw_gamma"] + ["gw_params_%d" % i for i in range(nlm - 1)])
        need(sorted(pta.param_names) == names, "parameters %s", pta.param_names)
        vals = {"gw_log10_A": -14.0, "gw_gamma": 3.0, "gw_params": par if nlm > 2 else par}
        phi = pta.get_phi(vals)
        S = np.asarray(gp_priors.powerlaw(np.repeat(np.arange(1, 3) / 3e8, 2), log10_A=-14.0, gamma=3.0))
        if n == 1:
            got = np.asarray(phi[0]) / S
            close(got, np.full(4, C[0, 0]), "anisotropic prior of one pulsar", rtol=1e-8, atol=1e-8 * scale)
        else:
            phi = np.asarray(phi)
            phi = phi if phi.ndim == 2 else np.diag(np.concatenate(list(phi)))
            want_phi = np.kron(C, np.diag(S))
            close(phi, want_phi, "anisotropic prior of the array", atol=1e-8 * np.max(S) * scale, rtol=0)
    else:
        for i in range(n):
            for j in range(n):
                v = utils.anis_orf(pos[i], pos[j], par, anis_basis=B, psrs_pos=psrs_pos, lmax=lmax)
                close(v, C[i, j], "anis_orf", atol=1e-8 * scale * nlm, rtol=0)
    return {"nontrivial": n > 1, "labels": ["lmax=%d" % lmax, "nside=%d" % nside, c["how"], "n=%d" % n]}


# --------------------------------------------------------------------------- sky maps and coefficients


@st.composite
def sky_case(draw):
    return dict(lmax=draw(st.integers(0, 6)), nside=draw(st.sampled_from([4, 8, 16])), seed=draw(gen.SEEDS), sparse=draw(st.booleans()))


def run_sky(c):
    import healpy as hp
    from enterprise.signals import anis_coefficients as ac

    rng = np.random.default_rng([c["seed"], 43])
    lmax, nside = c["lmax"], c["nside"]
    nlm = (lmax + 1) ** 2
    clm = rng.normal(size=nlm)
    if c["sparse"]:
        clm = np.where(np.arange(nlm) == rng.integers(nlm), clm, 0.0)
    clm0 = clm.copy()
    npix = hp.nside2npix(nside)
    th, ph = hp.pix2ang(nside, np.arange(npix))
    Y = np.array([ylm(l, m, th, ph) for l in range(lmax + 1) for m in range(-l, l + 1)])
    want = clm @ Y
    s = np.sqrt(np.sum(clm**2)) * nlm
    alm = ac.almFromClm(clm)
    need(len(alm) == (lmax + 1) * (lmax + 2) // 2, "%d complex coefficients", len(alm))
    close(ac.clmFromAlm(alm), clm, "clm -> alm -> clm", rtol=1e-12, atol=1e-14 * s)
    a2 = rng.normal(size=len(alm)) + 1j * rng.normal(size=len(alm))
    a2[: lmax + 1] = a2[: lmax + 1].real  # m = 0 comes first
    back = np.asarray(ac.almFromClm(ac.clmFromAlm(a2)))
    need(np.allclose(back, a2, rtol=1e-12, atol=1e-12), "alm -> clm -> alm")
    for name, f in (("mapFromClm", ac.mapFromClm), ("mapFromClm_fast", ac.mapFromClm_fast)):
        h = np.asarray(f(clm, nside))
        need(h.shape == (npix,), "%s: shape %s", name, h.shape)
        close(h, want, name, rtol=0, atol=1e-9 * s)
    for i, (l, m) in enumerate([(l, m) for l in range(lmax + 1) for m in range(-l, l + 1)]):
        if i == c["seed"] % nlm:
            close(ac.real_sph_harm(m, l, ph, th), Y[i], "real_sph_harm(%d, %d)" % (m, l), rtol=0, atol=1e-10 * nlm)
    quad = (Y @ want) * 4 * np.pi / npix
    close(ac.clmFromMap(want, lmax), quad, "clmFromMap", rtol=0, atol=1e-9 * s)
    tol = {4: 0.15, 8: 0.03, 16: 0.01}[nside] * s
    if lmax <= 2 * nside:
        close(quad, clm, "harness: pixel quadrature", rtol=0, atol=tol)
        close(ac.clmFromMap_fast(want, lmax), clm, "clmFromMap_fast", rtol=0, atol=max(1e-3 * s, 0.0) if nside >= 8 else 0.02 * s)
    need(np.array_equal(clm, clm0), "the coefficients were changed")
    return {"nontrivial": lmax > 0, "labels": ["lmax=%d" % lmax, "nside=%d" % nside]}


PROP = Prop(
    "G05",
    "closed: 2-7 positions with poles, antipodes, close and coincident pulsars, random rotations, against the closed forms of the angle; anisotropic: bases, "
    "sky maps and coefficients against pixel sums over an independent antenna pattern, alone and as the prior of an array; sky: maps, harmonics and "
    "coefficients against written-out spherical harmonics; non-trivial: more than one pulsar / more than the monopole",
    [Sub("closed", case, run, 4000, 200000), Sub("anisotropic", anis_case, run_anis, 2000, 40000), Sub("sky", sky_case, run_sky, 500, 20000)],
    ["positions closer than 1e-7 rad (but different) are not probed", "pulsars exactly opposite to a pixel centre are skipped"],
)
