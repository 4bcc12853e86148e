"""Independent models of the granular-medium functions (class GM)."""
import numpy as np
from .engine import Elem, Case, DEFAULT
from .models_em import nu_of, vti

pi = np.pi


def hs2(f, Ka, Ga, Kb, Gb, Kr, Gr):
    """Hashin-Shtrikman type mixture of a (fraction f) and b, built on the reference moduli Kr, Gr"""
    z1 = 4 * Gr / 3
    z2 = Gr * (9 * Kr + 8 * Gr) / (6 * (Kr + 2 * Gr))
    K = (Ka + z1) * (Kb + z1) / (f * (Kb + z1) + (1 - f) * (Ka + z1)) - z1
    G = (Ga + z2) * (Gb + z2) / (f * (Gb + z2) + (1 - f) * (Ga + z2)) - z2
    return K, G


# ------------------------------------------------------------------------ sand-shale
def _g_ts(r, n):
    return dict(phi_sand=r.u(0.02, 0.5, n, sp=[0.3, 0.4], wide=(0, 1)), phi_sh=r.u(0.01, 0.5, n, sp=[0.1, 0.2], wide=(0, 1)), vsh=r.u(0, 1, n, sp=[0, 1, .3, .5]))


def thomas_stieber(phi_sand, phi_sh, vsh):
    dirty = phi_sand - vsh + vsh * phi_sh
    return np.where(dirty > phi_sh * vsh, dirty, phi_sh * vsh), phi_sand * (1 - vsh) + phi_sh * vsh


Elem("GM.ThomasStieber", "phi_sand phi_sh vsh", _g_ts, thomas_stieber, vec="phi_sand phi_sh vsh", absof="phi_sand phi_sh vsh")


def _g_ss(r, n):
    Kq, Gq = r.mineral(n, lo=15)
    Ks, Gs = r.mineral(n, lo=5, hi=40)
    return dict(C=r.u(0, 1, n, sp=[0, 1, .5]), Kq=Kq, Gq=Gq, Ksh=Ks, Gsh=Gs)


Elem("GM.silty_shale", "C Kq Gq Ksh Gsh", _g_ss, lambda C, Kq, Gq, Ksh, Gsh: hs2(C, Ksh, Gsh, Kq, Gq, Ksh, Gsh), vec="C Kq Gq Ksh Gsh", absof="Kq Gq Ksh Gsh")


def _g_shs(r, n):
    Ks, Gs = r.mineral(n, lo=3, hi=60)
    Kc, Gc = r.mineral(n, lo=3, hi=60)
    phis = r.u(0.2, 0.6, n, sp=[.4, .36], wide=(.01, 1))
    return dict(phis=phis, C=phis * r.u(0, 1, n, sp=[0, 1, .5]), Kss=Ks, Gss=Gs, Kcc=Kc, Gcc=Gc)


Elem("GM.shaly_sand", "phis C Kss Gss Kcc Gcc", _g_shs, lambda phis, C, Kss, Gss, Kcc, Gcc: hs2(C / phis, Kcc, Gcc, Kss, Gss, Kss, Gss),
     vec="phis C Kss Gss Kcc Gcc", absof="Kss Gss Kcc Gcc", valid=lambda c: c["C"] <= c["phis"])


# ------------------------------------------------------------------------ contact models
def contactcement(K0, G0, Kc, Gc, phi, phic, Cn, scheme):
    nu, nuc = nu_of(K0, G0), nu_of(Kc, Gc)
    al = np.where(np.asarray(scheme) == 1, 2 * ((phic - phi) / (3 * Cn * (1 - phic))) ** 0.25, np.sqrt(2 * (phic - phi) / (3 * (1 - phic))))
    ln = 2 * Gc / (pi * G0) * (1 - nu) * (1 - nuc) / (1 - 2 * nuc)
    lt = Gc / (pi * G0)
    Sn = -0.024153 * ln ** -1.3646 * al ** 2 + 0.20405 * ln ** -0.89008 * al + 0.00024649 * ln ** -1.9864
    St = (-1e-2 * (2.26 * nu ** 2 + 2.07 * nu + 2.3) * lt ** (0.079 * nu ** 2 + 0.1754 * nu - 1.342) * al ** 2
          + (0.0573 * nu ** 2 + 0.0937 * nu + 0.202) * lt ** (0.0274 * nu ** 2 + 0.0529 * nu - 0.8765) * al
          + 1e-4 * (9.654 * nu ** 2 + 4.945 * nu + 3.1) * lt ** (0.01867 * nu ** 2 + 0.4011 * nu - 1.8186))
    K = Cn * (1 - phic) * (Kc + 4 * Gc / 3) * Sn / 6
    return K, 0.6 * K + 0.15 * Cn * (1 - phic) * Gc * St


def cement(r, n, K0=None, G0=None):
    Kc, Gc = r.mineral(n, lo=10, hi=100, numin=0.02, numax=0.4)
    if K0 is not None:
        same = r.rng.random(n) < 0.25
        Kc, Gc = np.where(same, K0, Kc), np.where(same, G0, Gc)
    return Kc, Gc


def _g_cc(r, n):
    K0, G0 = r.mineral(n, lo=15, numin=0.02, numax=0.4)
    Kc, Gc = cement(r, n, K0, G0)
    phi, phic = r.porosity(n, fmin=0.25)
    if r.wide:
        k = r.rng.random(n) < .1
        phi = np.where(k, phic * r.u(0, .25, n), phi)
        k = r.rng.random(n) < .06
        G0 = np.where(k, 1.5 * K0 * r.u(1., 2., n), G0)          # auxetic grains
    return dict(K0=K0, G0=G0, Kc=Kc, Gc=Gc, phi=phi, phic=phic, Cn=r.u(3, 16, n, sp=[6, 8, 9]))


_below = lambda c: c["phi"] <= c["phic"]
_nucheck = lambda c: (nu_of(c["K0"], c["G0"]) > -0.62) & (nu_of(c["K0"], c["G0"]) < 0.47)
_nucc = lambda c: _nucheck(c) & (nu_of(c["Kc"], c["Gc"]) > -0.62) & (nu_of(c["Kc"], c["Gc"]) < 0.47)
Elem("GM.contactcement", "K0 G0 Kc Gc phi phic Cn scheme", _g_cc, contactcement, vec="phi K0 G0 Kc Gc phic Cn", opts=dict(scheme=[1, 2]), valid=lambda c: _below(c) & _nucc(c), absof="Kc")


def hertzmindlin(K0, G0, phic, Cn, sigma, f):
    nu = nu_of(K0, G0)
    K = ((Cn * (1 - phic) * G0 / (pi * (1 - nu))) ** 2 * (sigma * 1e-3) / 18) ** (1 / 3)
    # smooth packs G = 3K/5; rough ones 3K/5 (5-4nu)/(2-nu); f interpolates
    return K, 0.6 * K * ((1 - f) + f * (5 - 4 * nu) / (2 - nu))


def _g_hm(r, n):
    K0, G0 = r.mineral(n, lo=10)
    return dict(K0=K0, G0=G0, phic=r.u(0.25, 0.6, n, sp=[.36, .4], wide=(0, .95)), Cn=r.u(3, 16, n, sp=[6, 8, 9], wide=(.5, 40)), sigma=r.u(0, 150, n, sp=[0, 1, 5, 10, 20, 50, 1000 / 18], wide=(0, 3000)), f=r.u(0, 1, n, sp=[0, 1, .5]))


Elem("GM.hertzmindlin", "K0 G0 phic Cn sigma f", _g_hm, hertzmindlin, vec="sigma K0 G0 phic Cn f", valid=_nucheck)
Elem("GM.Walton", "K0 G0 phic Cn sigma f", _g_hm, hertzmindlin, vec="sigma K0 G0 phic Cn f", valid=_nucheck)


def _g_sand(r, n):
    c = _g_hm(r, n)
    phi, phic = r.porosity(n)
    c["sigma"] = np.maximum(c["sigma"], 1e-3)
    return dict(K0=c["K0"], G0=c["G0"], phi=phi, phic=phic, Cn=c["Cn"], sigma=c["sigma"], f=c["f"])


def softsand(K0, G0, phi, phic, Cn, sigma, f):
    K, G = hertzmindlin(K0, G0, phic, Cn, sigma, f)
    return hs2(phi / phic, K, G, K0, G0, K, G)


def stiffsand(K0, G0, phi, phic, Cn, sigma, f):
    K, G = hertzmindlin(K0, G0, phic, Cn, sigma, f)
    return hs2(phi / phic, K, G, K0, G0, K0, G0)


_V7 = "phi sigma K0 G0 phic Cn f"
_oksand = lambda c: _below(c) & _nucheck(c) & (c["sigma"] > 0)
Elem("GM.softsand", "K0 G0 phi phic Cn sigma f", _g_sand, softsand, vec=_V7, valid=_oksand, absof="K0 G0")
Elem("GM.stiffsand", "K0 G0 phi phic Cn sigma f", _g_sand, stiffsand, vec=_V7, valid=_oksand, absof="K0 G0")


def constantcement(phi_b, K0, G0, Kc, Gc, phi, phic, Cn, scheme):
    K, G = contactcement(K0, G0, Kc, Gc, phi_b, phic, Cn, scheme)
    return hs2(phi / phi_b, K, G, K0, G0, K, G)


def muhs(K0, G0, Kc, Gc, phi, phi_b, phic, Cn, scheme):
    K, G = contactcement(K0, G0, Kc, Gc, phi_b, phic, Cn, scheme)
    return hs2(phi / phi_b, K, G, K0, G0, K0, G0)


def _g_cst(r, n):
    c = _g_cc(r, n)
    phic = c["phic"]
    phi_b = phic * (1 - r.u(0.005, 0.3, n, sp=[.1, .05]))
    t = r.u(0, 1, n, sp=[0, 1, .5])
    c["phi_b"] = phi_b
    c["phi"] = np.where(t == 1, phi_b, phi_b * t)
    if r.wide:          # up to the critical porosity the same formula continues beyond the high-porosity end member
        c["phi"] = np.where(r.rng.random(n) < .05, phi_b + (np.minimum(phic, 1.05 * phi_b) - phi_b) * r.rng.random(n), c["phi"])
    return c


_okcst = lambda c: (c["phi"] <= np.minimum(1.0500001 * c["phi_b"], c["phic"])) & (c["phi_b"] <= c["phic"]) & _nucc(c)
Elem("GM.constantcement", "phi_b K0 G0 Kc Gc phi phic Cn scheme", _g_cst, constantcement, vec="phi phi_b K0 G0 Kc Gc phic Cn", opts=dict(scheme=[1, 2]), valid=_okcst, absof="K0 G0")
Elem("GM.MUHS", "K0 G0 Kc Gc phi phi_b phic Cn scheme", _g_cst, muhs, vec="phi phi_b K0 G0 Kc Gc phic Cn", opts=dict(scheme=[1, 2]), valid=_okcst, absof="K0 G0")


def digby(K0, G0, phi, Cn, sigma, a_R):
    """d^3 + 3/2 (a/R)^2 d = 3 pi (1-nu) P / (2 C (1-phi) G): the positive root by Cardano/sinh"""
    nu = nu_of(K0, G0)
    c = 3 * pi * (1 - nu) * (sigma * 1e-3) / (2 * Cn * (1 - phi) * G0)
    s = np.maximum(a_R, 1e-300) / np.sqrt(2)
    d = np.where(a_R > 0, 2 * s * np.sinh(np.arcsinh(c / (2 * s ** 3)) / 3), np.cbrt(c))
    d = np.where(c == 0, 0, d)
    b = np.hypot(d, a_R)
    Sn = 4 * G0 * b / (1 - nu)
    St = 8 * G0 * a_R / (2 - nu)
    return Cn * (1 - phi) * Sn / (12 * pi), Cn * (1 - phi) * (Sn + 1.5 * St) / (20 * pi)


def _g_digby(r, n):
    K0, G0 = r.mineral(n, lo=10)
    return dict(K0=K0, G0=G0, phi=r.u(0.1, 0.6, n, sp=[.36, .4], wide=(0, .95)), Cn=r.u(3, 16, n, sp=[6, 8, 9], wide=(1, 40)), sigma=r.u(0, 100, n, sp=[0, 1, 5, 10, 20], wide=(0, 1000)), a_R=r.u(0, 0.2, n, sp=[0, .01, .02], wide=(0, .9)))


Elem("GM.Digby", "K0 G0 phi Cn sigma a_R", _g_digby, digby, vec="sigma", size1=True, rtol=1e-7, weight=0.4,
     atolf=lambda c: [1e-9 * c["G0"]] * 2, nd=True)


# ------------------------------------------------------------------------ Johnson
def johnson(K0, G0, n, phi, epsilon, epsilon_axial, path="together", defect=False):
    nu = nu_of(K0, G0)
    Cn, Ct = 4 * G0 / (1 - nu), 8 * G0 / (2 - nu)
    B = 2 / (pi * Cn)
    C = 4 / pi * (1 / Ct - 1 / Cn)
    g = 3 / 32 * Cn * Ct * n * (1 - phi) * np.sqrt(-epsilon)
    al = np.sqrt(epsilon / epsilon_axial)
    rt = np.sqrt(1 + al * al)
    I0 = 0.5 * (rt + al * al * np.log((1 + rt / al) if defect else (1 + rt) / al))
    I2 = 0.25 * (rt ** 3 - al * al * I0)
    I4 = (rt ** 3 - 3 * al * al * I2) / 6
    k = g / al
    C11 = k * (2 * B * (I0 - I2) + 0.75 * C * (I0 - 2 * I2 + I4))
    if defect:
        C11 = k * (4 * B / 3 + 2 * C / 5 + al * al * (2 * B / 15 + C / 35))
    M = vti(C11, k * (4 * B * I2 + 2 * C * I4), k * C * (I2 - I4), k * (B * (I0 + I2) / 2 + C * (I2 - I4)), k * (B * (I0 - I2) + C / 4 * (I0 - 2 * I2 + I4)))
    T = -(-epsilon) ** 1.5 * (1 - phi) * n / (4 * pi * al ** 3)
    J = al * al * I0 + (1 - al * al) * I2 - I4
    t = {"together": I2 - I4, "uni_iso": 1 / 12}.get(path, J - 2 * al ** 3 / 3)
    return M, 2 * T * (Ct * t + Cn * (al * al * I2 + I4)), T * (-Ct * t + Cn * J)


def johnson_case(r):
    K0, G0 = r.mineral(lo=10)
    e3 = -r.log(1e-6, 5e-3, wide=(1e-9, .2))
    ra = r.log(1e-2, 30, sp=[1.0], wide=(1e-4, 3000))
    a = [K0, G0, r.u(4, 12, sp=[6, 9], wide=(1, 40)), r.u(0.25, 0.5, sp=[.36, .4], wide=(0, .95)), e3 * ra, e3]
    k = r.rng.random()
    if k < 0.2:
        return a, {}
    p = r.pick(["together", "uni_iso", "iso_uni"])
    return (a + [p], {}) if k < 0.6 else (a, dict(path=p))


Case("GM.johnson", johnson_case, johnson, scale=True, rtol=1e-7, alts=[("johnson-I0-C11", lambda *a, **k: johnson(*a, defect=True, **k))])


# ------------------------------------------------------------------------ patchy cement
def _ends(sigma, K0, G0, phic, v_cem, v_ci, Kc, Gc, Cn, scheme, f_):
    Ku, Gu = hertzmindlin(K0, G0, phic, Cn, sigma, f_)
    K1, G1 = contactcement(K0, G0, Kc, Gc, phic - v_cem, phic, Cn, scheme)
    K2, G2 = muhs(K0, G0, Kc, Gc, phic - v_cem, phic - v_ci, phic, Cn, scheme)
    few = v_cem <= v_ci
    return Ku, Gu, np.where(few, K1, K2), np.where(few, G1, G2)


def pcm(f, sigma, K0, G0, phi, phic, v_cem, v_ci, Kc, Gc, Cn, mode, scheme, f_):
    Ku, Gu, Kc_, Gc_ = _ends(sigma, K0, G0, phic, v_cem, v_ci, Kc, Gc, Cn, scheme, f_)
    # a Hashin-Shtrikman shell: the cemented one when stiff, the loose one when soft
    K, G = hs2(f, Kc_, Gc_, Ku, Gu, *((Kc_, Gc_) if mode == "stiff" else (Ku, Gu)))
    return hs2(phi / phic, K, G, K0, G0, K, G)


def vpcm(alpha, f, sigma, K0, G0, phi, phic, v_cem, v_ci, Kc, Gc, Cn, scheme, f_):
    Ku, Gu, Kc_, Gc_ = _ends(sigma, K0, G0, phic, v_cem, v_ci, Kc, Gc, Cn, scheme, f_)
    a, b = hs2(f, Kc_, Gc_, Ku, Gu, Kc_, Gc_), hs2(f, Kc_, Gc_, Ku, Gu, Ku, Gu)
    K, G = a[0] + alpha * (b[0] - a[0]), a[1] + alpha * (b[1] - a[1])
    return hs2(phi / phic, K, G, K0, G0, K, G)


def _g_pcm(r, n):
    c = _g_sand(r, n)
    K0, G0 = r.mineral(n, lo=20, numin=0.02, numax=0.4)
    Kc, Gc = cement(r, n, K0, G0)
    v_cem = r.u(0.002, 0.15, n, sp=[.02, .05, .1])
    v_ci = r.u(0.002, 0.15, n, sp=[.04, .1])
    if r.wide:
        v_cem = np.where(r.rng.random(n) < .08, r.log(1e-6, .002, n), v_cem)
        v_ci = np.where(r.rng.random(n) < .08, r.log(1e-6, .002, n), v_ci)
    v_ci = np.where(r.rng.random(n) < 0.15, v_cem, v_ci)
    return dict(f=r.u(0, 1, n, sp=[0, 1, .5]), sigma=c["sigma"], K0=K0, G0=G0, phi=c["phi"], phic=c["phic"], v_cem=v_cem, v_ci=v_ci, Kc=Kc, Gc=Gc, Cn=c["Cn"], f_=c["f"])


def _okpcm(c):
    """both end members positive and distinct (the published formula divides by their difference)"""
    if not np.size(c["K0"]):
        return np.zeros(0, bool)
    ok = (c["phi"] <= c["phic"]) & _nucc(c) & (c["sigma"] > 0) & (c["v_ci"] < 0.9 * c["phic"]) & (c["v_cem"] < 0.9 * c["phic"])
    for s in (1, 2):
        Ku, Gu, Kx, Gx = _ends(c["sigma"], c["K0"], c["G0"], c["phic"], c["v_cem"], c["v_ci"], c["Kc"], c["Gc"], c["Cn"], s, c["f_"])
        ok &= (np.abs(Kx / Ku - 1) > .02) & (np.abs(Gx / Gu - 1) > .02) & (Kx > 0) & (Gx > 0)
    return ok


def _reject(r, n, g, ok):
    out = None
    for _ in range(80):
        c = g(r, max(n, 16))
        m = ok(c)
        c = {k: v[m] for k, v in c.items()}
        out = c if out is None else {k: np.concatenate([out[k], c[k]]) for k in c}
        if len(next(iter(out.values()))) >= n:
            break
    return {k: v[:n] for k, v in out.items()}


_PV = "phi sigma f K0 G0 phic Kc Gc Cn f_"
Elem("GM.pcm", "f sigma K0 G0 phi phic v_cem v_ci Kc Gc Cn mode scheme f_", lambda r, n: _reject(r, n, _g_pcm, _okpcm), pcm, vec=_PV,
     opts=dict(mode=["stiff", "soft"], scheme=[1, 2]), valid=_okpcm, absof="K0 G0", nan="skip")


def _g_vpcm(r, n):
    c = _reject(r, n, _g_pcm, _okpcm)
    return dict(alpha=r.u(0, 1, n, sp=[0, 1, .5]), **c)


Elem("GM.vpcm", "alpha f sigma K0 G0 phi phic v_cem v_ci Kc Gc Cn scheme f_", _g_vpcm, vpcm, vec="alpha " + _PV, opts=dict(scheme=[1, 2]), valid=_okpcm, absof="K0 G0")


def _g_dil(r, n):
    s0 = r.u(1, 100, n, sp=[10, 20, 50])
    return dict(k=r.u(0, 2, n, sp=[1, .5], wide=(0, 50)), sigma0=s0, sigma=np.where(r.rng.random(n) < 0.1, s0, s0 * r.u(0, 1.5, n, sp=[0, 1])), m=r.u(0.2, 8, n, sp=[1, 2, 3], wide=(.01, 40)))


def diluting(k, sigma0, sigma, m):
    x = 1 - sigma / sigma0
    with np.errstate(all="ignore"):
        v = k * np.power(x, m)
    return np.where(np.isnan(v), 0.0, v)


Elem("GM.diluting", "k sigma0 sigma m", _g_dil, diluting, vec="sigma k sigma0 m", needarray=("sigma",), scalars=False, lists=False)
