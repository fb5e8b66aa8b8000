"""Independent references (oracles): LALSimulation, and published formulas written out here.

Nothing in this file uses ripplegw.  Every reference returns (hp, hc) for the parameter
dictionary p, including the time shift exp(-2 pi i f tc).
"""
import numpy as np
import lal
import lalsimulation as ls

from .models import GT

PI = np.pi
# component masses are handed to LAL scaled so that G M is the same number as in ripple
# (the two packages differ by 1.6e-8 in G*Msun)
S = GT / lal.MTSUN_SI
MPC = 3.085677581491367278913937957796471611e22


def seq(a):
    s = lal.CreateREAL8Vector(len(a))
    s.data = np.asarray(a, dtype=float)
    return s


def shift(f, tc):
    return np.exp(-2j * PI * np.asarray(f) * tc) if tc else 1.0


def choose(f, p, fref, approx, s1, s2, d=None):
    hp, hc = ls.SimInspiralChooseFDWaveformSequence(
        p["phic"], p["m1"] * S * lal.MSUN_SI, p["m2"] * S * lal.MSUN_SI, *s1, *s2, float(fref),
        p["D"] * MPC, p["inc"], d, approx, seq(f))
    e = shift(f, p["tc"])
    return hp.data.data * e, hc.data.data * e


def imrphenomd(f, p, fref):
    return choose(f, p, fref, ls.IMRPhenomD, (0, 0, p["chi1"]), (0, 0, p["chi2"]))


def imrphenomxas(f, p, fref):
    return choose(f, p, fref, ls.IMRPhenomXAS, (0, 0, p["chi1"]), (0, 0, p["chi2"]))


def imrphenompv2(f, p, fref):
    return choose(f, p, fref, ls.IMRPhenomPv2, p["s1"], p["s2"])


def quad(lam):
    """Spin-induced quadrupole of the Love-Q relation (BH value 1 at lambda = 0)."""
    return ls.SimUniversalRelationQuadMonVSlambda2Tidal(lam)


def tidal_dict(p, nrt=False):
    d = lal.CreateDict()
    ls.SimInspiralWaveformParamsInsertTidalLambda1(d, p["lam1"])
    ls.SimInspiralWaveformParamsInsertTidalLambda2(d, p["lam2"])
    ls.SimInspiralWaveformParamsInsertdQuadMon1(d, quad(p["lam1"]) - 1)
    ls.SimInspiralWaveformParamsInsertdQuadMon2(d, quad(p["lam2"]) - 1)
    return d


def taylorf2(f, p, fref):
    d = tidal_dict(p)
    pn = ls.SimInspiralTaylorF2AlignedPhasing(p["m1"], p["m2"], p["chi1"], p["chi2"], d)
    h = ls.SimInspiralTaylorF2Core(seq(f), p["phic"], p["m1"] * S * lal.MSUN_SI, p["m2"] * S * lal.MSUN_SI,
                                   float(fref), 0.0, p["D"] * MPC, d, pn).data.data
    h = h * shift(f, p["tc"])
    c = np.cos(p["inc"])
    return h * (1 + c * c) / 2, -1j * h * c


def planck(f, fm):
    """Planck taper of the NRTidal models: 1 below fm, 0 from 1.2 fm."""
    f = np.asarray(f, dtype=float)
    out = np.ones_like(f)
    out[f >= 1.2 * fm] = 0.0
    i = (f > fm) & (f < 1.2 * fm)
    z = 0.2 * fm / (f[i] - fm) + 0.2 * fm / (f[i] - 1.2 * fm)
    with np.errstate(over="ignore"):
        out[i] = 1 / (1 + np.exp(-z))
    return out


def kappa2(p):
    m1, m2 = p["m1"], p["m2"]
    X1, X2 = m1 / (m1 + m2), m2 / (m1 + m2)
    return 3 / 13 * ((1 + 12 * X2 / X1) * X1 ** 5 * p["lam1"] + (1 + 12 * X1 / X2) * X2 ** 5 * p["lam2"])


def f_merger(p):
    k = kappa2(p)
    q = max(p["m1"] / p["m2"], p["m2"] / p["m1"])
    w = 0.3586 * q ** -0.5 * (1 + 3.35411203e-2 * k + 4.31460284e-5 * k * k) / (1 + 7.54224145e-2 * k + 2.23626859e-4 * k * k)
    return w / (2 * PI) / ((p["m1"] + p["m2"]) * GT)


def nrt_phase(x, k, X1, X2):
    """Dietrich et al. 2019 (1905.06011), eqs (17)-(20)."""
    num = 1 - 12.615214237993088 * x + 19.0537346970349 * x ** 1.5 - 21.166863146081035 * x ** 2 \
        + 90.55082156324926 * x ** 2.5 - 60.25357801943598 * x ** 3
    den = 1 - 15.111207827736678 * x + 22.195327350624694 * x ** 1.5 + 8.064109635305156 * x ** 2
    return -k * 2.4375 / (X1 * X2) * x ** 2.5 * num / den


def nrt_amp(x, k):
    """Tidal amplitude in units where the (l,m)=(2,2) prefactor is 2 sqrt(pi/5) * amp0, eq. (24)."""
    num = 1 + 4.157407407407407 * x + 2519.111111111111 * x ** 2.89
    return -9 * k * x ** 3.25 * num / (1 + 13477.8073677 * x ** 4)


def nrt_spin(x, p):
    """Section III C of 1905.06011 (2PN/3PN/3.5PN spin-squared and 3.5PN spin-cubed, BBH part removed)."""
    m1, m2 = p["m1"], p["m2"]
    M = m1 + m2
    eta = m1 * m2 / M ** 2
    q1, q2 = quad(p["lam1"]), quad(p["lam2"])
    X, c, Q = (m1 / M, m2 / M), (p["chi1"], p["chi2"]), (q1 - 1, q2 - 1)
    ss2 = sum(-50 * Q[i] * c[i] ** 2 * X[i] ** 2 for i in (0, 1))
    ss3 = sum(5 / 84 * (9407 + 8218 * X[i] - 2016 * X[i] ** 2) * Q[i] * X[i] ** 2 * c[i] ** 2 for i in (0, 1))
    ss35, sss35 = ls.SimInspiralGetHOSpinTerms(X[0], X[1], c[0], c[1], q1, q2)
    return 3 / (128 * eta) * (ss2 * x ** -0.5 + ss3 * x ** 0.5 + (ss35 + sss35) * x)


def nrtidalv2(f, p, fref, taper=True):
    f = np.asarray(f, dtype=float)
    M = p["m1"] + p["m2"]
    c = np.cos(p["inc"])
    q = dict(p, inc=0.0)
    L, _ = imrphenomd(f, q, fref)
    x = (PI * M * GT * f) ** (2 / 3)
    k = kappa2(p)
    amp0 = 2 * np.sqrt(5 / (64 * PI)) * M * (GT * 299792458.0) * M * GT / (p["D"] * MPC) * 2 * np.sqrt(PI / 5)
    A = np.abs(L)
    u = np.where(A > 0, L / np.where(A > 0, A, 1), 0)
    h = (A + amp0 * nrt_amp(x, k)) * u
    h = h * np.exp(-1j * (nrt_phase(x, k, p["m1"] / M, p["m2"] / M) + nrt_spin(x, p)))
    if taper:
        h = h * planck(f, f_merger(p))
    return h * (1 + c * c) / 2, -1j * h * c


def lal_nrtidalv2(f, p, fref):
    return choose(f, p, fref, ls.IMRPhenomD_NRTidalv2, (0, 0, p["chi1"]), (0, 0, p["chi2"]), tidal_dict(p))


REF = dict(D=imrphenomd, X=imrphenomxas, P=imrphenompv2, T=taylorf2, T2=taylorf2, N=nrtidalv2, N2=nrtidalv2,
           NT=lambda f, p, r: nrtidalv2(f, p, r, taper=False))
