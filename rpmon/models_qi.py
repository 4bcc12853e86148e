"""Independent models of the quantitative-interpretation computations (class QI)."""
import numpy as np
from .engine import Elem, Case
from .models_em import nu_of
from .models_fluid import gassmann
from .models_gm import softsand, contactcement, muhs, constantcement, hs2, _below

VELS = lambda K, G, rho: (1000 * np.sqrt((K + 4 * G / 3) / rho), 1000 * np.sqrt(G / rho))


def hill(f, M):
    f, M = np.asarray(f, float), np.asarray(M, float)
    return 0.5 * (np.sum(f * M, -1) + 1 / np.sum(f / M, -1))


def fractions(vsh, phi_c, phi_0):
    """shale, grains, cement as fractions of the solid; the cement fills phi_c - phi_0"""
    s = 1 - phi_0
    return vsh / s, 1 - vsh / s - (phi_c - phi_0) / s, (phi_c - phi_0) / s


def matrix_modulus(vsh, phi_c, phi_0, M_sh, M_g, M_c):
    a, b, c = fractions(vsh, phi_c, phi_0)
    v = a * M_sh + b * M_g + c * M_c
    return 0.5 * (v + 1 / (a / M_sh + b / M_g + c / M_c))


def den_matrix(vsh, phi_c, phi_0, den_sh, den_g, den_c):
    a, b, c = fractions(vsh, phi_c, phi_0)
    return a * den_sh + b * den_g + c * den_c


def _g_mm(r, n):
    pc = r.u(.25, .5, n, sp=[.36, .4])
    return dict(vsh=np.where(r.rng.random(n) < .1, r.log(1e-7, .01, n), r.u(0, .4, n, sp=[0, 0., .1, .2], wide=(0, .75))), phi_c=pc, phi_0=pc * r.u(0, 1, n, sp=[0, 1, .5]), M_sh=r.log(5, 60, n, sp=[21, 7]), M_g=r.log(5, 120, n, sp=[37, 45]), M_c=r.log(5, 120, n, sp=[37, 45]))


_okmm = lambda c: (c["phi_0"] <= c["phi_c"]) & (c["vsh"] <= 1 - c["phi_c"])
Elem("QI.matrix_modulus", "vsh phi_c phi_0 M_sh M_g M_c", _g_mm, matrix_modulus, vec="phi_0", size1=True, nd=False, valid=_okmm)
Elem("QI.den_matrix", "vsh phi_c phi_0 den_sh den_g den_c", lambda r, n: dict(zip("vsh phi_c phi_0 den_sh den_g den_c".split(), list(_g_mm(r, n).values())[:3] + [r.u(2, 3, n, sp=[2.6, 2.65]) for _ in range(3)])), den_matrix, vec="phi_0", size1=True, nd=False, valid=_okmm)


def rock_par(r):
    """mineral, shale, cement, brine parameters"""
    while True:
        Kq, Gq = r.mineral(lo=20, hi=100, numin=.02, numax=.38)
        Ks, Gs = r.mineral(lo=8, hi=40, numin=.1, numax=.42)
        Kc, Gc = r.mineral(lo=20, hi=100, numin=.02, numax=.38) if r.rng.random() < .7 else (Kq, Gq)
        if 1 < Gs and 1 < Gq and 1 < Gc and nu_of(Kq, Gq) > .01 and nu_of(Ks, Gs) > .01 and nu_of(Kc, Gc) > .01:
            break
    d = lambda: r.u(2.3, 3.0, sp=[2.6, 2.65], wide=(1.2, 6))
    pc = r.u(.3, .45, sp=[.36, .4], wide=(.26, .6))
    return dict(Dqz=d(), Kqz=Kq, Gqz=Gq, Dsh=d(), Ksh=Ks, Gsh=Gs, Dc=d(), Kc=Kc, Gc=Gc, Db=r.u(.9, 1.2, sp=[1.0], wide=(.1, 1.4)), Kb=r.u(1.8, 3.2, sp=[2.2, 2.5], wide=(.02, 5)),
                phi_c=pc, sigma=r.u(1, 60, sp=[10, 20]), vsh=r.pick([0, 0.0, .1, r.u(0, .4, sp=[0, .1, .2]), r.u(0, 1 - pc), r.log(1e-6, .01)]), scheme=r.pick([1, 2]), f=r.u(0, 1, sp=[0, 1, .5]), Cn=r.u(6, 12, sp=[8.6, 9]))


def _mix(p):
    v = p["vsh"]
    m = lambda a, b: float(hill([v, 1 - v], [a, b]))
    return m(p["Ksh"], p["Kqz"]), m(p["Gsh"], p["Gqz"]), p["Dsh"] * v + p["Dqz"] * (1 - v)


_SC = "Dqz Kqz Gqz Dsh Ksh Gsh Dc Kc Gc Db Kb phib_p phi_c sigma vsh scheme f Cn".split()


def screening(*a):
    p = dict(zip(_SC, a))
    K0, G0, D0 = _mix(p)
    pc, pb = p["phi_c"], p["phib_p"]
    phi = 1e-7 + (pc - 1e-7) * np.arange(100) / 99
    phi[-1] = pc
    sat = lambda K, G, Km: gassmann(K, G, Km, p["Kb"], phi)
    with np.errstate(all="ignore"):
        a1 = sat(*softsand(K0, G0, phi, pc, p["Cn"], p["sigma"], p["f"]), K0)
        Km = matrix_modulus(p["vsh"], pc, phi, p["Ksh"], p["Kqz"], p["Kc"])
        a3 = sat(*contactcement(K0, G0, p["Kc"], p["Gc"], phi, pc, p["Cn"], p["scheme"]), Km)
        a2 = sat(*muhs(K0, G0, p["Kc"], p["Gc"], phi, pb, pc, p["Cn"], p["scheme"]), K0)
        r0 = D0 + phi * (p["Db"] - D0)
        dm = den_matrix(p["vsh"], pc, phi, p["Dsh"], p["Dqz"], p["Dc"])
        r3 = dm + phi * (p["Db"] - dm)
        v1, v2, v3 = VELS(*a1, r0), VELS(*a2, r0), VELS(*a3, r3)
    lo, hi = phi < pb, phi > pb
    n = lambda x, m: np.where(m, np.nan, x)
    return [phi, v1[0], n(v2[0], hi), n(v3[0], lo), v1[1], n(v2[1], hi), n(v3[1], lo)]


def off_grid(p, k):
    """where a sampled porosity and the end member agree to rounding either side is fine: not drawn"""
    phi = 1e-7 + (p["phi_c"] - 1e-7) * np.arange(100) / 99
    if np.min(np.abs(phi - p[k])) < 1e-9:
        p[k] += 1e-6
    return p


def screening_case(r):
    p = rock_par(r)
    p["phib_p"] = p["phi_c"] - r.u(.01, .15, sp=[.1, .05])
    off_grid(p, "phib_p")
    return [p[k] for k in _SC], {}


Case("QI.screening", screening_case, screening, nan="match", rtol=1e-7, weight=.6, atol=1e-6)


def _g_norm(r):
    n = r.size(2000)
    d = r.u(0, 1, n, sp=[0, 1]) * r.log(1e-6, 1e3)
    d[r.int(0, n - 1)] += 1e-3
    if r.rng.random() < .25:        # density estimates by diffusion can be slightly negative
        m = r.rng.random(n) < .2
        d[m] *= -r.log(1e-12, .3)
        d[r.int(0, n - 1)] = np.abs(d).max() + 1e-3
    if r.rng.random() < .4:
        k = r.int(1, 12)
        d = np.resize(d, (k, max(1, n // k)))
        d[0, 0] += .01
    return [d], {}


Case("QI.normalize", _g_norm, lambda d: np.asarray(d, float) / np.max(d), atol=1e-11)

_CV = "phi_b K0 D0 G0 phi phi_c Cn Kc Gc Db Kb scheme vsh Dsh Dqz Dc".split()


def cst_vels(*a):
    p = dict(zip(_CV, a))
    phi = np.asarray(p["phi"], float)
    K, G = constantcement(p["phi_b"], p["K0"], p["G0"], p["Kc"], p["Gc"], phi, p["phi_c"], p["Cn"], p["scheme"])
    D = den_matrix(p["vsh"], p["phi_c"], p["phi_b"], p["Dsh"], p["Dqz"], p["Dc"])
    with np.errstate(all="ignore"):
        v = VELS(*gassmann(K, G, p["K0"], p["Kb"], phi), D + phi * (p["Db"] - D))
    return [np.where(phi > p["phi_b"], np.nan, x) for x in v]


def _cst_case(r):
    p = rock_par(r)
    p["K0"], p["G0"], p["D0"] = _mix(p)
    p["phi_b"] = p["phi_c"] - r.u(.01, .15, sp=[.1, .05])
    n = r.size(800)
    p["phi"] = r.u(1e-4, p["phi_c"], n, sp=[.1, .2, .3])
    if r.rng.random() < .4:                      # a sample exactly where the line ends
        p["phi"][r.int(0, n - 1)] = p["phi_b"]
    return [p[k] for k in _CV], {}


Case("QI.cst_vels", _cst_case, cst_vels, nan="match", rtol=1e-7, atol=1e-6)

_CA = "Dqz Kqz Gqz Dsh Ksh Gsh Dc Kc Gc Db Kb phi_b phi_c vsh phi scheme".split()


def cal_v_const(*a):
    p = dict(zip(_CA, a))
    K0, G0, D0 = _mix(p)
    phi = np.asarray(p["phi"], float)
    Cn = 20 - 34 * p["phi_c"] + 14 * p["phi_c"] ** 2
    with np.errstate(all="ignore"):
        K, G = constantcement(p["phi_b"], K0, G0, p["Kc"], p["Gc"], phi, p["phi_c"], Cn, p["scheme"])
        v = VELS(*gassmann(K, G, K0, p["Kb"], phi), D0 + phi * (p["Db"] - D0))
    return [v[0], v[1]]


def _cal_case(r):
    p = rock_par(r)
    p["phi_b"] = p["phi_c"] - r.u(.005, .15, sp=[.1, .05])
    over = (p["phi_b"], 1.15 * p["phi_b"])       # a log has samples above the critical porosity too
    p["phi"] = r.u(1e-3, p["phi_b"], sp=[.1, .2], wide=over) if r.rng.random() < .3 else r.u(1e-3, p["phi_b"], r.size(800), sp=[.1, .2, .3], wide=over)
    return [p[k] for k in _CA], {}


Case("QI.cal_v_const", _cal_case, cal_v_const, rtol=1e-7)

EC = "Kqz Gqz Ksh Gsh phi_c Cn Kc Gc Db Kb scheme vsh Dsh Dqz Dc".split()


def cement_lines(p, seeds, phi):
    return np.array([cal_v_const(*[dict(p, phi_b=p["phi_c"] - s, phi=phi)[k] for k in _CA])[0] for s in seeds])


def estimate_cem(Vp, phi, seeds, p):
    """piecewise linear inversion of the constant-cement lines, clamped to [0, largest seed];
    NaN (not judged) where the lines are not increasing or the value sits on a line to rounding"""
    L = cement_lines(p, seeds, phi)
    out = np.empty(len(Vp))
    for i, v in enumerate(Vp):
        a = L[:, i]
        if not np.all(np.isfinite(a)) or np.any(np.diff(a) <= 1e-6 * a[:-1]):
            out[i] = np.nan
        elif v <= a[0]:
            out[i] = 0 if abs(v - a[0]) > 1e-7 * v else np.nan
        elif v >= a[-1]:
            out[i] = seeds[-1]
        else:
            out[i] = np.interp(v, a, seeds)
    return out
