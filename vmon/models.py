"""The waveform models as their users see them, and the workload generators.

Only public entry points of ripplegw are used: ripplegw.waveforms.<model>.gen_*.
"""
import numpy as np
import jax

from ripplegw.waveforms import IMRPhenomD, IMRPhenomXAS, IMRPhenomPv2, TaylorF2
from ripplegw.waveforms import IMRPhenomD_NRTidalv2 as NRT

# geometrised solar mass (s): CODATA/IAU values, fixed here so that an altered constant
# in the package is seen as a deviation, not followed
GT = 6.67430e-11 * 1.988409902147041637325262574352366540e30 / 299792458.0 ** 3
MPC_S = 3.085677581491367278913937957796471611e22 / 299792458.0


class Model:
    def __init__(self, name, fn, kind, lam=None, fcut=None):
        self.name, self.fn, self.kind, self.lam = name, fn, kind, lam
        self.fcut = fcut  # documented end of the model, in units of 1/M
        self._jit = {}

    @property
    def bns(self):
        return self.kind == "bns"

    def theta(self, p):
        m1, m2 = p["m1"], p["m2"]
        mc, eta = mc_eta(m1, m2)
        if self.kind == "prec":
            body = [*p["s1"], *p["s2"]]
        else:
            body = [p["chi1"], p["chi2"]]
        if self.lam == "tilde":
            body += list(lt_dlt(p["lam1"], p["lam2"], m1, m2))
        elif self.lam == "comp":
            body += [p["lam1"], p["lam2"]]
        return np.array([mc, eta, *body, p["D"], p["tc"], p["phic"], p["inc"]], dtype=float)

    def jit(self, f, theta, fref):
        """hp, hc through one jitted wrapper per model (compiled once per grid length)."""
        if "g" not in self._jit:
            if self.name.startswith("T"):  # f_ref must be static: `if f_ref != 0`
                g = jax.jit(lambda f, t, r: self.fn(f, t, r), static_argnums=2)
            else:
                g = jax.jit(lambda f, t, r: self.fn(f, t, r))
            self._jit["g"] = g
        hp, hc = self._jit["g"](np.asarray(f), np.asarray(theta), fref)
        return np.asarray(hp), np.asarray(hc)

    def eager(self, f, theta, fref):
        hp, hc = self.fn(jax.numpy.asarray(f), jax.numpy.asarray(theta), fref)
        return np.asarray(hp), np.asarray(hc)


MODELS = {m.name: m for m in [
    Model("D", lambda f, t, r: IMRPhenomD.gen_IMRPhenomD_hphc(f, t, r), "bbh", fcut=0.2),
    Model("X", lambda f, t, r: IMRPhenomXAS.gen_IMRPhenomXAS_hphc(f, t, r), "bbh", fcut=0.3),
    Model("P", lambda f, t, r: IMRPhenomPv2.gen_IMRPhenomPv2_hphc(f, t, r), "prec", fcut=0.2),
    Model("T", lambda f, t, r: TaylorF2.gen_TaylorF2_hphc(f, t, r), "bns", "tilde"),
    Model("T2", lambda f, t, r: TaylorF2.gen_TaylorF2_hphc(f, t, r, use_lambda_tildes=False), "bns", "comp"),
    Model("N", lambda f, t, r: NRT.gen_IMRPhenomD_NRTidalv2_hphc(f, t, r), "bns", "tilde", fcut=0.2),
    Model("N2", lambda f, t, r: NRT.gen_IMRPhenomD_NRTidalv2_hphc(f, t, r, use_lambda_tildes=False), "bns", "comp", fcut=0.2),
    Model("NT", lambda f, t, r: NRT.gen_IMRPhenomD_NRTidalv2_hphc(f, t, r, use_lambda_tildes=False, no_taper=True), "bns", "comp", fcut=0.2),
]}


def mc_eta(m1, m2):
    eta = m1 * m2 / (m1 + m2) ** 2
    return (m1 * m2) ** 0.6 / (m1 + m2) ** 0.2, min(eta, 0.25)


def dcond(p, k=2000.0):
    """Error floor from reconstructing the mass difference from eta in double precision:
    eps/(2 delta), and sqrt(eps) for (nearly) equal masses."""
    q = p["m2"] / p["m1"]
    return k * 2.2e-16 / max((1 - q) / (1 + q), 1.5e-8)


def ms_from(mc, eta):
    """Component masses in extended precision."""
    mc, eta = np.longdouble(mc), np.longdouble(eta)
    M = mc / eta ** np.longdouble(0.6)
    d = np.sqrt(max(1 - 4 * eta, np.longdouble(0)))
    return float(M * (1 + d) / 2), float(M * (1 - d) / 2)


def wade(eta):
    """The 2x2 matrix (l1, l2) -> (lambda tilde, delta lambda tilde), Wade et al. 2014 eqs (5), (6)."""
    eta = np.longdouble(eta)
    d = np.sqrt(max(1 - 4 * eta, np.longdouble(0)))
    a = 1 + 7 * eta - 31 * eta ** 2
    b = d * (1 + 9 * eta - 11 * eta ** 2)
    k = np.longdouble(1319)
    c = d * (1 - 13272 / k * eta + 8944 / k * eta ** 2)
    e = 1 - 15910 / k * eta + 32850 / k * eta ** 2 + 3380 / k * eta ** 3
    f8 = np.longdouble(8) / 13
    return np.array([[f8 * (a + b), f8 * (a - b)], [(c + e) / 2, (c - e) / 2]], dtype=np.longdouble)


def lt_dlt(l1, l2, m1, m2):
    W = wade(mc_eta(m1, m2)[1])
    return float(W[0, 0] * l1 + W[0, 1] * l2), float(W[1, 0] * l1 + W[1, 1] * l2)


# ------------------------------------------------------------------ workload generators
def pick(rng, *alts):
    return alts[rng.integers(len(alts))]


def q_stratum(rng, kind):
    """(label, q<=1)"""
    if kind == "bns":
        s = pick(rng, "eq", "near", "mid", "mid", "low")
        return s, {"eq": 1.0, "near": 1 - 10 ** rng.uniform(-5, -2), "mid": rng.uniform(0.5, 1), "low": rng.uniform(0.25, 0.5)}[s]
    s = pick(rng, "eq", "near", "mid", "mid", "log", "log", "ext")
    hi = 20. if kind == "prec" else 100.
    return s, {"eq": 1.0, "near": 1 - 10 ** rng.uniform(-5, -2), "mid": rng.uniform(0.4, 1),
               "log": 10 ** rng.uniform(-1.3, 0), "ext": 1 / rng.uniform(hi / 2, hi)}[s]


def spin_stratum(rng, cmax=1.0):
    s = pick(rng, "zero", "eq", "ext", "ext", "unif", "unif", "one0", "small", "anti")
    u = rng.uniform(-cmax, cmax, 2)
    e = cmax * np.array([pick(rng, -1., 1., -.99, .99, -.9, .9), pick(rng, -1., 1., -.99, .99, .9, -.9)])
    return s, {"zero": (0., 0.), "eq": (u[0], u[0]), "ext": tuple(e), "unif": tuple(u),
               "one0": pick(rng, (u[0], 0.), (0., u[1])), "small": tuple(u * 0.01), "anti": (u[0], -u[0])}[s]


def inplane_stratum(rng):
    s = pick(rng, "zero", "one", "one", "gen", "gen", "gen", "big", "tiny", "xonly")
    th = rng.uniform(0, 2 * np.pi, 2)
    r = {"zero": (0., 0.), "one": pick(rng, (rng.uniform(0, .9), 0.), (0., rng.uniform(0, .9))), "gen": rng.uniform(0, .9, 2),
         "big": rng.uniform(.8, .99, 2), "tiny": 10 ** rng.uniform(-6, -2, 2), "xonly": rng.uniform(0, .9, 2)}[s]
    if s == "xonly":
        th = th * 0 + pick(rng, 0., np.pi)
    return s, [(float(r[i] * np.cos(th[i])), float(r[i] * np.sin(th[i]))) for i in range(2)]


def lam_stratum(rng):
    s = pick(rng, "zero", "lt1", "one", "mid", "mid", "big", "mix0", "mix1")
    lo, mid, big = rng.uniform(0, 1, 2), rng.uniform(1, 3000, 2), rng.uniform(3000, 8000, 2)
    return s, {"zero": (0., 0.), "lt1": tuple(lo), "one": (1., 1.), "mid": tuple(mid), "big": tuple(big),
               "mix0": pick(rng, (0., mid[1]), (mid[0], 0.)), "mix1": pick(rng, (lo[0], mid[1]), (mid[0], lo[1]))}[s]


def params(rng, kind, cmax=None, mass=None):
    """One physical parameter set; p['strata'] describes it coarsely."""
    sq, q = q_stratum(rng, kind)
    if kind == "bns":
        m1 = rng.uniform(1.0, 3.0)
        M = m1 * (1 + q)
    else:
        M = 10 ** rng.uniform(*(mass or (0.4, 2.7)))
        m1 = M / (1 + q)
    m2 = m1 * q
    ss, (c1, c2) = spin_stratum(rng, cmax if cmax is not None else (0.7 if kind == "bns" else 1.0))
    p = dict(m1=float(m1), m2=float(m2), chi1=float(c1), chi2=float(c2))
    strata = [kind, sq, ss]
    if kind == "bns":
        sl, (l1, l2) = lam_stratum(rng)
        p.update(lam1=float(l1), lam2=float(l2))
        strata.append(sl)
    if kind == "prec":
        si, xy = inplane_stratum(rng)
        sp = []
        for (x, y), z in zip(xy, (c1, c2)):
            n = np.sqrt(x * x + y * y + z * z)
            k = 1.0 if n <= 1.0 else 1 / n / 1.0000001
            sp.append([float(x * k), float(y * k), float(z * k)])
        p.update(s1=sp[0], s2=sp[1])
        strata.append(si)
    si = pick(rng, "face-on", "edge-on", "face-off", "gen", "gen", "gen")
    p["inc"] = float({"face-on": 0., "edge-on": np.pi / 2, "face-off": np.pi, "gen": rng.uniform(0, np.pi)}[si])
    p["D"] = float(10 ** rng.uniform(-1, 5))
    p["phic"] = float(pick(rng, 0., rng.uniform(-np.pi, np.pi), rng.uniform(-20, 20)))
    p["tc"] = float(pick(rng, 0., rng.uniform(-0.1, 0.1), rng.uniform(-5, 5)))
    strata.append(si)
    p["strata"] = strata
    return p


def grid(rng, p, kind, n=64, top=None):
    """(stratum, frequencies in Hz): broad grids, and narrow windows at the places where the
    models switch between regions."""
    Ms = (p["m1"] + p["m2"]) * GT
    if kind == "bns":
        s = pick(rng, "full", "full", "lin", "late", "early", "zoom")
        c = pick(rng, 0.018, 0.014, rng.uniform(0.01, 0.07)) / Ms
        w = 10 ** rng.uniform(-4, -1)
        lo, hi = {"full": (10, 4000), "lin": (20, 2048), "late": (600, 3500), "early": (5, 200), "zoom": (c * (1 - w), c * (1 + w))}[s]
        f = np.linspace(lo, hi, n) if s in ("lin", "late", "zoom") else np.geomspace(lo, hi, n)
        return s, f
    top = top or 0.199
    s = pick(rng, "full", "full", "late", "trans", "early", "lin", "zoom")
    c = pick(rng, 0.018, 0.014, rng.uniform(0.01, 0.15))
    w = 10 ** rng.uniform(-4, -1)
    lo, hi = {"full": (0.0004, top), "late": (0.03, top), "trans": (0.01, 0.06), "early": (0.0002, 0.004), "lin": (0.002, top),
              "zoom": (c * (1 - w), c * (1 + w))}[s]
    f = (np.geomspace(lo, hi, n) if s not in ("late", "trans", "lin", "zoom") else np.linspace(lo, hi, n)) / Ms
    return s, f


def f_ref(rng, f):
    s = pick(rng, "low", "in", "in", "on", "below", "high")
    return s, float({"low": f[0], "in": f[rng.integers(len(f))] * 1.001, "on": f[rng.integers(len(f) - 3)],
                     "below": f[0] * 0.6, "high": f[-1] * 0.97}[s])


def case(rng, name, n=64, cmax=None, mass=None, top=None):
    m = MODELS[name]
    p = params(rng, m.kind, cmax, mass)
    sg, f = grid(rng, p, m.kind, n, top)
    sr, fr = f_ref(rng, f)
    if m.fcut:  # the reference frequency is inside the model's band
        fr = min(fr, 0.95 * m.fcut / ((p["m1"] + p["m2"]) * GT))
    if name.startswith("T"):
        fr = float(pick(rng, 0.0, 20.0, 50.0, 100.0, 10.0, 1000.0))  # static under jit: few values
        sr = "T%g" % fr
    return dict(model=name, p=p, fgrid=[sg, float(f[0]), float(f[-1]), n], f=f, fref=fr, strata=p["strata"] + [sg, sr])


def total_j(p):
    """Smallest L + S_parallel (units of M^2) in the band.  Where it changes sign the published
    precession angle itself (cos(beta) taken positive) has a kink, in LALSimulation too."""
    M = p["m1"] + p["m2"]
    eta = p["m1"] * p["m2"] / M ** 2
    v = np.linspace(0.03, (np.pi * 0.2) ** (1 / 3), 200)
    L = eta / v * (1 + (1.5 + eta / 6) * v ** 2 + (3.375 - 19 * eta / 8 - eta ** 2 / 24) * v ** 4)
    return np.min(L + (p["m1"] / M) ** 2 * p["s1"][2] + (p["m2"] / M) ** 2 * p["s2"][2])


def grid_of(c):
    """Rebuild the frequency grid (also from a replay file)."""
    if "f" in c and c["f"] is not None:
        return np.asarray(c["f"], dtype=float)
    raise KeyError("f")
