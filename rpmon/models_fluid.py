"""Independent models of fluid substitution, dispersion (class Fluid) and fluid properties (BW)."""
import math
import numpy as np
import scipy.special as sps
from .engine import Elem, Case, DEFAULT
from .models_em import ti_stiffness, vti, nu_of

pi = np.pi


def rock(r, n, numin=0.02):
    """(K0, G0, Kdry, Gdry, phi) with Kdry < K0(1-phi) so that Gassmann is well posed"""
    K0, G0 = r.mineral(n, lo=10, numin=numin)
    phi = r.u(0.004, 0.85, n, sp=[0.1, 0.2, 0.3, 0.4, 0.5])
    t = r.u(0.03, 0.9, n, sp=[0.5])
    Kd = K0 * (1 - phi) * t
    Gd = G0 * (1 - phi) * t * r.u(0.5, 1.0, n)
    return K0, G0, Kd, Gd, phi


def fluidK(r, n):
    return r.log(0.01, 3.5, n, sp=[2.2, 2.25, 0.05, 1.0, 2.0])


def rockw(r, n):
    """the same with nearly tight and suspension-like rocks, empty frames and stiff pore fillings"""
    K0, G0, Kd, Gd, phi = rock(r, n)
    if not r.wide:
        return K0, G0, Kd, Gd, phi, fluidK(r, n)
    phi = np.where(r.rng.random(n) < .1, r.log(1e-5, .03, n), phi)
    phi = np.where(r.rng.random(n) < .04, r.u(.85, .999, n), phi)
    t = np.where(r.rng.random(n) < .08, r.u(0, .03, n, sp=[0.]), Kd / K0 / (1 - phi))
    Kd = K0 * (1 - phi) * np.minimum(t, .9)
    kf = fluidK(r, n)
    k = r.rng.random(n)
    kf = np.where(k < .06, K0 * r.log(.1, 8, n), np.where(k < .1, r.log(1e-5, .01, n), kf))
    kf = np.where(np.abs(kf / K0 - 1) < .05, .5 * K0, kf)
    return K0, G0, Kd, Gd, phi, kf


Elem("Fluid.Brie", "Kw Kgas Sw e", lambda r, n: dict(Kw=r.u(1.5, 3.5, n, sp=[2, 2.2], wide=(.01, 20)), Kgas=r.log(0.005, 1.0, n, wide=(1e-6, 30)), Sw=r.u(0, 1, n, sp=[0, 1, .5]), e=r.u(0.5, 40, n, sp=[1, 2, 3, 5], wide=(0, 200))),
     lambda Kw, Kgas, Sw, e: Kgas * (1 - Sw ** e) + Kw * Sw ** e, vec="Kw Kgas Sw e")


def gassmann(K_dry, G_dry, K_mat, Kf, phi):
    # storage form: K = Kdry + b^2 M, 1/M = phi/Kf + (b - phi)/K0
    b = 1 - K_dry / K_mat
    K = K_dry + b * b * Kf / (phi + (b - phi) * Kf / K_mat)
    return K, np.broadcast_to(np.asarray(G_dry, float), np.shape(K))


def _g_gass(r, n):
    K0, _, Kd, Gd, phi, kf = rockw(r, n)
    return dict(K_dry=Kd, G_dry=Gd, K_mat=K0, Kf=kf, phi=phi)


_okg = lambda kd, k0: (lambda c: (c[kd] < 0.97 * c[k0] * (1 - c["phi"])) & (c["phi"] > 0))
Elem("Fluid.Gassmann", "K_dry G_dry K_mat Kf phi", _g_gass, gassmann, vec="K_dry G_dry K_mat Kf phi", valid=_okg("K_dry", "K_mat"))


def _g_sub(r, n):
    K0, _, Kd, Gd, phi, k1 = rockw(r, n)
    k2 = fluidK(r, n)
    k1, k2 = (np.where(r.rng.random(n) < .5, k1, k2), np.where(r.rng.random(n) < .5, k2, k1))
    k2 = np.where(r.rng.random(n) < 0.1, k1, k2)
    return dict(phi=phi, K0=K0, Ksat1=gassmann(Kd, Gd, K0, k1, phi)[0], Kfl1=k1, Kfl2=k2)


def gsub(phi, K0, Ksat1, Kfl1, Kfl2):
    h = lambda x: x / (K0 - x)
    y = h(Ksat1) + (h(Kfl2) - h(Kfl1)) / phi
    return K0 * y / (1 + y)


def _oksub(c):
    h = lambda x: x / (c["K0"] - x)
    y0 = h(c["Ksat1"]) - h(c["Kfl1"]) / c["phi"]
    return (np.abs(c["Ksat1"] / c["K0"] - 1) > 0.01) & (np.abs(c["Kfl1"] / c["K0"] - 1) > .04) & (np.abs(c["Kfl2"] / c["K0"] - 1) > .04) & (np.abs(1 + y0) > .005) & (np.abs(1 + y0 + h(c["Kfl2"]) / c["phi"]) > .005)


Elem("Fluid.Gassmann_sub", "phi K0 Ksat1 Kfl1 Kfl2", _g_sub, gsub, vec="phi K0 Ksat1 Kfl1 Kfl2", valid=_oksub)


def _g_vels(r, n):
    K0, _, Kd, Gd, phi, kf = rockw(r, n)
    return dict(K_dry=Kd, G_dry=Gd, K0=K0, D0=r.u(2.3, 3.0, n, sp=[2.65], wide=(.8, 8)), Kf=kf, Df=r.u(0.05, 1.2, n, sp=[1.0], wide=(1e-4, 5)), phi=phi)


def vels(K_dry, G_dry, K0, D0, Kf, Df, phi):
    K = gassmann(K_dry, G_dry, K0, Kf, phi)[0]
    rho = D0 + (Df - D0) * phi
    return 1e3 * ((3 * K + 4 * G_dry) / (3 * rho)) ** .5, 1e3 * (G_dry / rho) ** .5, rho


Elem("Fluid.vels", "K_dry G_dry K0 D0 Kf Df phi", _g_vels, vels, vec="K_dry G_dry K0 D0 Kf Df phi", valid=_okg("K_dry", "K0"))


def _g_gv(r, n):
    c = _g_sub(r, n)
    G = 0.6 * c["Ksat1"] * r.u(0.3, 1.2, n)
    f1, f2 = r.u(0.05, 1.2, n, wide=(1e-4, 3)), r.u(0.05, 1.2, n, wide=(1e-4, 3))
    rho = r.u(2.4, 2.9, n) * (1 - c["phi"]) + c["phi"] * f1
    si = r.rng.random(n) < .35
    M, D = np.where(si, 1e9, 1.), np.where(si, 1e3, 1.)
    return dict(Vp1=((c["Ksat1"] + 4 * G / 3) / rho * M / D) ** .5, Vs1=(G / rho * M / D) ** .5, rho1=rho * D, rhofl1=f1 * D, Kfl1=c["Kfl1"] * M, rhofl2=f2 * D, Kfl2=c["Kfl2"] * M, K0=c["K0"] * M, phi=c["phi"])


def gvels(Vp1, Vs1, rho1, rhofl1, Kfl1, rhofl2, Kfl2, K0, phi):
    G = rho1 * Vs1 ** 2
    K = gsub(phi, K0, rho1 * Vp1 ** 2 - G / 0.75, Kfl1, Kfl2)
    rho = rho1 + phi * (rhofl2 - rhofl1)
    return ((K + G / 0.75) / rho) ** .5, (G / rho) ** .5


Elem("Fluid.Gassmann_vels", "Vp1 Vs1 rho1 rhofl1 Kfl1 rhofl2 Kfl2 K0 phi", _g_gv, gvels, vec="Vp1 Vs1 rho1 rhofl1 Kfl1 rhofl2 Kfl2 K0 phi",
     valid=lambda c: _oksub(dict(phi=c["phi"], K0=c["K0"], Kfl1=c["Kfl1"], Kfl2=c["Kfl2"], Ksat1=c["rho1"] * (c["Vp1"] ** 2 - c["Vs1"] ** 2 / .75)))
     & (c["rho1"] > 1.05 * c["phi"] * c["rhofl1"])
     & (np.abs(c["rho1"] * (c["Vp1"] ** 2 - c["Vs1"] ** 2 / .75)) > 0.005 * c["K0"]))


def _g_ga(r, n):
    c = _g_sub(r, n)
    return dict(Msat1=c["Ksat1"], M0=c["K0"], Mfl1=c["Kfl1"], phi=c["phi"], Mfl2=c["Kfl2"])


Elem("Fluid.Gassmann_approx", "Msat1 M0 Mfl1 phi Mfl2", _g_ga, lambda Msat1, M0, Mfl1, phi, Mfl2: gsub(phi, M0, Msat1, Mfl1, Mfl2), vec="Msat1 M0 Mfl1 phi Mfl2",
     valid=lambda c: _oksub(dict(phi=c["phi"], K0=c["M0"], Ksat1=c["Msat1"], Kfl1=c["Mfl1"], Kfl2=c["Mfl2"])))


# ---------------------------------------------------------------------- Brown and Korringa
def spd(r, K0, tight=False):
    """dry stiffness: TI, orthorhombic or fully anisotropic, softer than the mineral"""
    k = r.rng.random()
    sc = K0 * (r.u(0.1, 0.5) if not tight and (r.rng.random() < .85 or not r.wide) else 1 - 10.0 ** r.plain(-5, -.3))
    if k < 0.15:
        K, nu = sc, r.u(0.05, 0.35)
        G = 3 * K * (1 - 2 * nu) / (2 + 2 * nu)
        C = vti(K + 4 * G / 3, K + 4 * G / 3, K - 2 * G / 3, G, G)
    elif k < 0.5:
        C = vti(*ti_stiffness(r))
    else:
        A = r.rng.normal(size=(6, 6))
        B = A @ A.T
        iso = vti(1.7, 1.7, 0.5, 0.6, 0.6)
        C = iso + (0.12 if k < 0.8 else 0.04) * B
        if k < 0.65:      # orthorhombic: no coupling
            m = np.zeros((6, 6))
            m[:3, :3] = 1
            m[range(6), range(6)] = 1
            C = C * m
    if r.wide and r.rng.random() < .2:       # strongly anisotropic, weakly coupled
        d = r.log(1e-4, 1, 6)
        C = C * np.sqrt(np.outer(d, d))
    Kv = C[:3, :3].sum() / 9
    return C * (sc / Kv)


def bk_case_dry(r):
    K0, G0 = r.mineral(lo=15, numin=0.0)
    tight = r.wide and r.rng.random() < .08      # hardly any pores in a rock nearly as stiff as its mineral
    S = np.linalg.inv(spd(r, K0, tight))
    S = (S + S.T) / 2
    if tight:
        return (S, K0, G0, float(fluidK(r, 1)[0]), r.log(1e-8, 1e-3)), {}
    return (S, K0, G0, float(fluidK(r, 1)[0]), r.u(0.02, 0.4, sp=[.1, .2]) if r.rng.random() < .85 else r.log(1e-8 if r.wide and r.rng.random() < .5 else 1e-4, .02)), {}


def bk_dry2sat(S, K0, G0, Kfl, phi):
    S = np.asarray(S, float)
    d = S[:, :3].sum(axis=1) - np.array([1, 1, 1, 0, 0, 0]) / (3 * K0)
    return S - np.outer(d, d) / ((S[:3, :3].sum() - 1 / K0) + phi * (1 / Kfl - 1 / K0))


def bk_sat2dry(S, K0, G0, Kfl, phi):
    S = np.asarray(S, float)
    d = S[:, :3].sum(axis=1) - np.array([1, 1, 1, 0, 0, 0]) / (3 * K0)
    return S + np.outer(d, d) / (phi * (1 / Kfl - 1 / K0) - (S[:3, :3].sum() - 1 / K0))


def bk_case_sat(r):
    (S, K0, G0, Kfl, phi), _ = bk_case_dry(r)
    return (bk_dry2sat(S, K0, G0, Kfl, phi), K0, G0, Kfl, phi), {}


def bk_case_sub(r):
    (S, K0, G0, Kfl, phi), _ = bk_case_sat(r)
    C = np.linalg.inv(S)
    return ((C + C.T) / 2, K0, G0, Kfl, r.pick([Kfl, float(fluidK(r, 1)[0]), float(fluidK(r, 1)[0])]), phi), {}


def bk_sub(C, K0, G0, k1, k2, phi):
    S = bk_dry2sat(bk_sat2dry(np.linalg.inv(C), K0, G0, k1, phi), K0, G0, k2, phi)
    return np.linalg.inv(S), S


Case("Fluid.Brown_Korringa_dry2sat", bk_case_dry, bk_dry2sat, scale=True)
Case("Fluid.Brown_Korringa_sat2dry", bk_case_sat, bk_sat2dry, scale=True, rtol=1e-7)
Case("Fluid.Brown_Korringa_sub", bk_case_sub, bk_sub, scale=True, rtol=1e-7)


# ---------------------------------------------------------------------- Biot
def biot_F(z):
    z = np.asarray(z, float)
    zc = np.minimum(np.maximum(z, 1e-9), 1e3) * np.exp(-1j * pi / 4)
    T = np.exp(0.75j * pi) * sps.jve(1, zc) / sps.jve(0, zc)
    T = np.where(z > 1e3, np.exp(0.25j * pi), T)
    F = z * T / (4 * (1 + 2j * T / np.maximum(z, 1e-9)))
    return np.where(z < 0.1, 1.0 + 0j, F)


def biot(Kdry, Gdry, K0, Kfl, rho0, rhofl, eta, phi, kapa, a, alpha, freq):
    rho = rho0 + phi * (rhofl - rho0)
    w = 2 * pi * np.asarray(freq, float)
    F = biot_F(np.sqrt(w * rhofl / eta) * a)
    # storage form of the coefficients
    b = 1 - Kdry / K0
    M = 1 / ((b - phi) / K0 + phi / Kfl)
    C = b * M
    H = Kdry + 4 * Gdry / 3 + b * b * M
    q = alpha * rhofl / phi - 1j * eta * F / (w * kapa)
    A = M * H - C * C
    B = H * q + M * rho - 2 * C * rhofl
    D = rho * q - rhofl ** 2
    s = np.sqrt(B * B - 4 * A * D)
    # A x^2 - B x + D = 0, x = slowness squared
    x1, x2 = (B - s) / (2 * A), (B + s) / (2 * A)
    xs = D / (Gdry * q)

    def vq(x):
        m = 1 / x
        return 1 / np.sqrt(x).real, m.imag / m.real
    (v1, q1), (v2, q2), (vs, qs) = vq(x1), vq(x2), vq(xs)
    return v1, v2, vs, q1, q2, qs


def _g_biot(r, n):
    """GPa, g/cc, km/s system: kapa, eta scaled so that the critical frequency is inside the band"""
    K0, _, Kd, Gd, phi = rock(r, n)
    si = r.rng.random(n) < 0.5
    rhofl = r.u(0.3, 1.2, n, sp=[1.0], wide=(.02, 2))
    rho0 = r.u(2.4, 3.0, n, sp=[2.65], wide=(1.2, 7))
    eta = r.log(3e-4, 5e-2, n, sp=[1e-3], wide=(1e-5, 10))
    kap = r.log(1e-14, 1e-11, n, wide=(1e-18, 1e-8))
    a = r.log(5e-6, 2e-4, n, wide=(1e-7, 5e-3))
    fac = np.where(si, 1e9, 1.0)
    rf = np.where(si, 1e3, 1.0)
    # in the GPa-g/cc system keep eta/(rho kapa) in 1/s the same
    return dict(Kdry=Kd * fac, Gdry=Gd * fac, K0=K0 * fac, Kfl=r.log(0.3, 3.0, n, sp=[2.2], wide=(.005, 6)) * fac, rho0=rho0 * rf, rhofl=rhofl * rf, eta=eta * rf / 1e3, phi=phi, kapa=kap, a=a,
                alpha=r.u(1.0, 4.0, n, sp=[1, 2, 3], wide=(1, 40)), freq=np.where(r.rng.random(n) < .12, r.log(1e9, 1e12, n), r.log(1e-1, 1e9, n)))


def _okbiot(c):
    z = np.sqrt(2 * pi * c["freq"] * c["rhofl"] / c["eta"]) * c["a"]
    near = ((z > 900) & (z < 1e3 * (1 + 1e-9))) | (np.abs(z / 0.1 - 1) < 1e-9)
    q = c["eta"] / (2 * pi * c["freq"] * c["kapa"]) / c["rhofl"]
    return (c["Kdry"] < 0.97 * c["K0"] * (1 - c["phi"])) & (c["rho0"] > c["rhofl"]) & ~near & (q < 1e4) & (c["K0"] > 3 * c["Kfl"])


def _g_biot_ok(r, n):
    return _reject(r, n, _g_biot, _okbiot)


def _reject(r, n, g, ok):
    out = None
    for _ in range(60):
        c = g(r, max(n, 8))
        m = ok(c)
        c = {k: v[m] for k, v in c.items()}
        out = c if out is None else {k: np.concatenate([out[k], c[k]]) for k in c}
        if len(next(iter(out.values()))) >= n:
            break
    return {k: v[:n] for k, v in out.items()}


def _biot_atol(c):
    """rounding of the attenuations: the fast root is a small difference at low frequency"""
    z = np.sqrt(2 * pi * c["freq"] * c["rhofl"] / c["eta"]) * c["a"]
    q = 1 + c["eta"] / (2 * pi * c["freq"] * c["kapa"]) / c["rhofl"] * (1 + z / 4)
    t = 1e-13 * q * (1 + c["K0"] / c["Kfl"])
    return [0, 0, 0, t, t, t]


# low-frequency end: the slow/fast split loses digits like q; tolerance 1e-6
Elem("Fluid.Biot", "Kdry Gdry K0 Kfl rho0 rhofl eta phi kapa a alpha freq", _g_biot_ok, biot, vec="freq", needarray=("freq",), valid=_okbiot, size1=True,
     rtol=1e-6, weight=0.6, nd=False, scalars=False, atolf=_biot_atol, series=False)


def biot_hf(Kdry, Gdry, K0, Kfl, rho0, rhofl, phi, alpha):
    # as the eta=0 limit of the same equations
    rho = rho0 + phi * (rhofl - rho0)
    b = 1 - Kdry / K0
    M = 1 / ((b - phi) / K0 + phi / Kfl)
    H = Kdry + 4 * Gdry / 3 + b * b * M
    q = alpha * rhofl / phi
    A, B, D = M * H - (b * M) ** 2, H * q + M * rho - 2 * b * M * rhofl, rho * q - rhofl ** 2
    s = np.sqrt(B * B - 4 * A * D)
    return np.sqrt((B + s) / (2 * D)), np.sqrt((B - s) / (2 * D)), np.sqrt(Gdry * q / D)


def _g_bhf(r, n):
    c = _g_biot(r, n)
    return {k: c[k] for k in "Kdry Gdry K0 Kfl rho0 rhofl phi alpha".split()}


_okb2 = lambda c: (c["Kdry"] < 0.97 * c["K0"] * (1 - c["phi"])) & (c["rho0"] > c["rhofl"]) & (c["K0"] > 3 * c["Kfl"]) & (c["Gdry"] < 2 * c["K0"]) & (c["Gdry"] > 1e-4 * c["K0"]) & (c["Kdry"] > 1e-4 * c["K0"]) & (c["Kfl"] > 1e-4 * c["K0"]) & (c["rhofl"] > 0.05 * c["rho0"])
Elem("Fluid.Biot_HF", "Kdry Gdry K0 Kfl rho0 rhofl phi alpha", _g_bhf, biot_hf, vec="Kdry Gdry K0 Kfl rho0 rhofl phi alpha", valid=_okb2, rtol=1e-7)


def gs_hf(Kdry, Gdry, K0, Kfl, rho0, rhofl, phi, alpha):
    rho = rho0 + phi * (rhofl - rho0)
    b = 1 - Kdry / K0
    ia = 1.0 / alpha
    den = (1 - phi) * rho0 + phi * rhofl * (1 - ia)
    num = phi * rho * ia / rhofl + b * b - 2 * b * phi * ia
    return np.sqrt((Kdry + 4 * Gdry / 3 + num / ((b - phi) / K0 + phi / Kfl)) / den), np.sqrt(Gdry / den)


Elem("Fluid.Geertsma_Smit_HF", "Kdry Gdry K0 Kfl rho0 rhofl phi alpha", _g_bhf, gs_hf, vec="Kdry Gdry K0 Kfl rho0 rhofl phi alpha", valid=_okb2, ints=False)


def gs_lf(Vp0, Vpinf, freq, phi, rhofl, kapa, eta):
    x = (phi * eta / (2 * pi * rhofl * kapa * freq)) ** 2
    return np.sqrt((Vpinf ** 4 + Vp0 ** 4 * x) / (Vpinf ** 2 + Vp0 ** 2 * x))


def _g_gslf(r, n):
    v0 = r.u(1.5, 6, n, sp=[2, 3]) * np.where(r.rng.random(n) < .5, 1, 1000)
    return dict(Vp0=v0, Vpinf=v0 * r.u(1.0, 1.3, n, sp=[1.0], wide=(.7, 3)), freq=r.log(1e-2, 1e7, n, sp=[1, 10, 50, 100]), phi=r.u(0.01, .45, n, sp=[.1, .3], wide=(1e-4, .99)), rhofl=r.u(0.1, 1200, n, sp=[1, 1000]), kapa=r.log(1e-15, 1e-9, n), eta=r.log(1e-5, 1, n, sp=[1e-3]))


Elem("Fluid.Geertsma_Smit_LF", "Vp0 Vpinf freq phi rhofl kapa eta", _g_gslf, gs_lf, vec="Vp0 Vpinf freq phi rhofl kapa eta")


# ---------------------------------------------------------------------- squirt, patchy
def mavko_jizba(Vp_hs, Vs_hs, Vpdry, Vsdry, K0, rhodry, rhofl, Kfl, phi):
    kd = rhodry * (Vpdry ** 2 - Vsdry ** 2 / .75) / 1e6
    gd = rhodry * Vsdry ** 2 / 1e6
    kh = rhodry * (Vp_hs ** 2 - Vs_hs ** 2 / .75) / 1e6
    K = gassmann(kh, 1.0, K0, Kfl, phi)[0]
    G = 15 / (15 / gd - 4 * (1 / kd - 1 / kh))
    rho = rhodry + phi * rhofl
    return K, G, 1e3 * ((K + G / .75) / rho) ** .5, 1e3 * (G / rho) ** .5


def _g_mj(r, n):
    K0 = r.u(25, 80, n, sp=[37, 36], wide=(8, 200))
    phi = r.u(0.02, 0.3, n, sp=[.1, .2], wide=(.001, .6))
    kh = K0 * (1 - phi) * r.u(.3, .9, n)
    gh = kh * r.u(.5, 1.2, n)
    s = r.u(.5, 1, n, sp=[1.0])
    kd = kh * s
    gd = gh * r.u(.5, 1, n, sp=[1.0])
    rho = r.u(1.6, 2.7, n, sp=[2.0, 2.5], wide=(.5, 6))
    v = lambda k, g: (1e3 * ((k + g / .75) / rho) ** .5, 1e3 * (g / rho) ** .5)
    a, b = v(kh, gh)
    c, d = v(kd, gd)
    return dict(Vp_hs=a, Vs_hs=b, Vpdry=c, Vsdry=d, K0=K0, rhodry=rho, rhofl=r.u(.1, 1.2, n, sp=[1.0], wide=(.001, 2)), Kfl=fluidK(r, n), phi=phi)


def _okmj(c):
    kd = c["rhodry"] * (c["Vpdry"] ** 2 - c["Vsdry"] ** 2 / .75) / 1e6
    gd = c["rhodry"] * c["Vsdry"] ** 2 / 1e6
    kh = c["rhodry"] * (c["Vp_hs"] ** 2 - c["Vs_hs"] ** 2 / .75) / 1e6
    return (kd > .2) & (kh > .2) & (kh < .97 * c["K0"] * (1 - c["phi"])) & (1 / gd - 4 / 15 * (1 / kd - 1 / kh) > .02 / gd)


Elem("Fluid.Mavko_Jizba", "Vp_hs Vs_hs Vpdry Vsdry K0 rhodry rhofl Kfl phi", lambda r, n: _reject(r, n, _g_mj, _okmj), mavko_jizba, vec="Vpdry Vsdry", together=[("Vpdry", "Vsdry")], valid=_okmj)


def squirt(Sdry, Shp):
    S, H = np.asarray(Sdry, float), np.asarray(Shp, float)
    d = S - H
    tr = 2 * (d[0] + d[1] + 2 * d[2]) + d[3]
    t11, t12, t13, t33, t44 = d / tr
    al = (6 * t11 - 4 * t12 + t33 + 4 * t44 - 1) / 4
    T = 1 - 4 * al
    g11 = t11 - 4 * al * (t12 + t13) / T
    g33 = t33 - 8 * al * t13 / T
    g = np.array([g11, t12 / T, t13 / T, g33, (4 * t44 - t11 - t13) / (4 * T) + (g11 + g33) / 4])
    return S - tr * g


def ti_comp(C):
    S = np.linalg.inv(C)
    return np.array([S[0, 0], S[0, 1], S[0, 2], S[2, 2], S[3, 3]])


def squirt_case(r):
    while True:
        C = vti(*ti_stiffness(r))
        hp = ti_comp(C)
        k = r.rng.random()
        # crack compliance added: normal + tangential, aligned (3-axis) and random parts
        zn, zt, iso = r.u(0.0, 1.0) / C[2, 2], r.u(0.0, 1.0) / C[3, 3], r.u(0.0, .5, sp=[0.0])
        d = np.array([0, 0, 0, zn, zt]) + iso * hp * np.array([1, .4, .4, 1, 1.2])
        S = hp + d
        tr = 2 * (d[0] + d[1] + 2 * d[2]) + d[3]
        if tr < 1e-4 * hp[0]:
            continue
        t = d / tr
        if abs(2 - (6 * t[0] - 4 * t[1] + t[3] + 4 * t[4])) < 0.05:
            continue
        if k < 0.3:
            return (list(map(float, S)), list(map(float, hp))), {}
        return (S, hp), {}


Case("Fluid.Squirt_anisotropic", squirt_case, squirt, lists=True, scale=True)


def white(Kdry, Gdry, K0, phi, rho0, rhofl1, rhofl2, Kfl1, Kfl2, eta1, eta2, kapa, a, sg, freq):
    w = 2 * pi * np.asarray(freq, float)
    b = a / np.cbrt(sg)
    B = 1 - Kdry / K0
    K1, K2 = gassmann(Kdry, 0., K0, Kfl1, phi)[0], gassmann(Kdry, 0., K0, Kfl2, phi)[0]
    G = Gdry
    den = K2 * (3 * K1 + 4 * G) + 4 * G * (K1 - K2) * sg
    R1 = (K1 - Kdry) / B * (3 * K2 + 4 * G) / den
    R2 = (K2 - Kdry) / B * (3 * K1 + 4 * G) / den
    KA1, KA2 = [1 / (phi / k + (1 - phi) / K0 - Kdry / K0 ** 2) for k in (Kfl1, Kfl2)]
    KE = lambda k, K, KA: KA * (1 - k * (1 - K / K0) * B / (phi * K * (1 - k / K0)))
    x1 = np.sqrt(1j * w * eta1 / (kapa * KE(Kfl1, K1, KA1)))
    x2 = np.sqrt(1j * w * eta2 / (kapa * KE(Kfl2, K2, KA2)))
    z = x1 * a
    Z1 = eta1 * a / kapa * np.sinh(z) / (z * np.cosh(z) - np.sinh(z))
    h = x2 * (b - a)
    # numerator/denominator divided by exp(h)
    Z2 = -eta2 * a / kapa * (2 * x2 * b * np.cosh(h) - 2 * np.sinh(h)) / ((x2 * b + 1) * (x2 * a - 1) * np.exp(-h) - (x2 * b - 1) * (x2 * a + 1) * np.exp(h))
    Q1, Q2 = B * KA1 / K1, B * KA2 / K2
    W = 3 * a ** 2 * (R1 - R2) * (Q2 - Q1) / (b ** 3 * 1j * w * (Z1 + Z2))
    Kinf = den / (3 * K1 + 4 * G - 3 * (K1 - K2) * sg)
    Ks = Kinf / (1 - Kinf * W)
    M = Ks + 4 * G / 3
    rho = (1 - phi) * rho0 + phi * (sg * rhofl1 + (1 - sg) * rhofl2)
    th = np.arctan(M.imag / M.real)
    V = np.sqrt(np.abs(M) / rho) / np.cos(th / 2)
    return V, w / V * np.tan(th / 2), Ks


def _g_white(r, n):
    K0, _, Kd, Gd, phi = rock(r, n)
    return dict(Kdry=Kd * 1e9, Gdry=Gd * 1e9, K0=K0 * 1e9, phi=phi, rho0=r.u(2400, 2900, n, sp=[2650], wide=(1300, 6000)), rhofl1=r.u(50, 900, n, wide=(.5, 1200)), rhofl2=r.u(900, 1150, n, sp=[1000], wide=(300, 1900)),
                Kfl1=r.log(0.01, 1.0, n, wide=(1e-4, 3)) * 1e9, Kfl2=r.u(1.5, 3.2, n, sp=[2.25], wide=(.2, 6)) * 1e9, eta1=r.log(1e-5, 1e-3, n, wide=(1e-6, 1)), eta2=r.log(3e-4, 5e-3, n, sp=[1e-3], wide=(1e-5, 1)),
                kapa=r.log(1e-14, 1e-11, n, wide=(1e-17, 1e-9)), a=r.log(1e-3, 1.0, n, sp=[.1], wide=(1e-5, 30)), sg=np.where(r.rng.random(n) < .1, r.log(1e-4, .01, n), r.u(0.005, 0.5, n, sp=[.1, .2], wide=(.4, .95))), freq=r.log(1e-1, 1e5, n, sp=[1, 10, 50, 100], wide=(1e-3, 1e7)))


def _okw(c):
    b = c["a"] / np.cbrt(c["sg"])
    x = lambda k, e: np.sqrt(2 * pi * c["freq"] * e / (c["kapa"] * k * 2.))
    x1, x2 = x(c["Kfl1"], c["eta1"]) * c["a"], x(c["Kfl2"], c["eta2"]) * b
    K0 = c["K0"]
    return (c["Kdry"] < .97 * K0 * (1 - c["phi"])) & (x1 > 0.1) & (x2 > 0.1) & (x1 < 1e5) & (x2 < 1e5) & (c["Gdry"] < 2 * K0)


Elem("Fluid.White_Dutta_Ode", "Kdry Gdry K0 phi rho0 rhofl1 rhofl2 Kfl1 Kfl2 eta1 eta2 kapa a sg freq", lambda r, n: _reject(r, n, _g_white, _okw), white, vec="freq", rtol=1e-6, valid=_okw, weight=0.6, atolf=lambda c: [0, 3e-14 * c["freq"], 0])


# ---------------------------------------------------------------------- Batzle and Wang
def _h(T):
    return 0.45 + 8 * (0.56 - 1 / T) ** 2


def dzdp(P, T):
    return 0.03 + 0.00527 * (3.5 - T) ** 3 - 0.109 * (3.85 - T) ** 2 * 1.2 * P ** 0.2 * _h(T) / T * np.exp(-_h(T) * P ** 1.2 / T)


def zfac(P, T):
    return (0.03 + 0.00527 * (3.5 - T) ** 3) * P + 0.642 * T - 0.007 * T ** 4 - 0.52 + 0.109 * (3.85 - T) ** 2 * np.exp(-_h(T) * P ** 1.2 / T)


def gasprop(P, Ta, Pp, Tp, G):
    Z = zfac(Pp, Tp)
    g0 = 0.85 + 5.6 / (Pp + 2) + 27.1 / (Pp + 3.5) ** 2 - 8.7 * np.exp(-0.65 * (Pp + 1))
    return 28.8 * G * P / (8.3145 * Z * Ta), g0 * P / (1 - Pp * dzdp(Pp, Tp) / Z) / 1000


def gas(P, T, G):
    Ta = T + 273.15
    return gasprop(P, Ta, P / (4.892 - 0.4048 * G), Ta / (94.72 + 170.75 * G), G)


def co2(P, T, G, zero=273.15):
    return gasprop(P, T + 273.15, P / 7.4, (T + 273.15) / (31.1 + zero), G)


_pt = dict(P=(0.1, 95, [1, 10, 20, 50]), T=(1, 190, [20, 50, 60, 100]))


def _g_gas(r, n, Gr=(0.55, 1.6)):
    return dict(P=r.u(0.1, 95, n, sp=[1, 10, 20, 50], wide=(.001, 300)), T=r.u(1, 190, n, sp=[20, 50, 60, 100, 0], wide=(-60, 400)), G=r.u(*Gr, n, sp=[0.6, 0.7, 1.5349], wide=(.1, 3)))


def _okgas(f):
    def ok(c):
        rho, K = f(**c)
        return (rho > 1e-6) & (K > 1e-7) & (rho < 3) & (K < 20)
    return ok


Elem("BW.dz_dp", "P_pr T_pr", lambda r, n: dict(P_pr=r.u(0.02, 18, n, sp=[1, 2, 3], wide=(1e-4, 60)), T_pr=r.u(0.9, 3.0, n, sp=[1, 1.5, 2, 3.5, 3.85], wide=(.5, 6))), lambda P_pr, T_pr: dzdp(P_pr, T_pr), vec="P_pr T_pr", absone=True)
Elem("BW.pseudo_p_t", "P T G", _g_gas, lambda P, T, G: (T + 273.15, P / (4.892 - .4048 * G), (T + 273.15) / (94.72 + 170.75 * G)), vec="P T G")
Elem("BW.rho_K_gas", "P T G", lambda r, n: _reject(r, n, _g_gas, _okgas(gas)), gas, vec="P T G", valid=_okgas(gas))
Elem("BW.rho_K_co2", "P T G", lambda r, n: _reject(r, n, _g_gas, _okgas(co2)), co2, vec="P T G", valid=_okgas(co2),
     alts=[("CO2-critical-temperature", lambda P, T, G: co2(P, T, G, 273.5))])


def oilv(rho, T, P):
    return 2096 * np.sqrt(rho / (2.6 - rho)) - 3.7 * T + 4.64 * P + 0.0115 * (4.12 * np.sqrt(1.08 / rho - 1) - 1) * T * P


def oil(P, T, den):
    rp = den + (0.00277 * P - 1.71e-7 * P ** 3) * (den - 1.15) ** 2 + 3.49e-4 * P
    rho = rp / (0.972 + 3.81e-4 * (T + 17.78) ** 1.175)
    return rho, rho * oilv(den, T, P) ** 2 / 1e6


Elem("BW.rho_K_oil", "P T den", lambda r, n: dict(P=r.u(0.1, 95, n, sp=[1, 10, 20, 50], wide=(0, 200)), T=r.u(1, 190, n, sp=[20, 50, 100, 0], wide=(-17, 300)), den=r.u(0.62, 1.07, n, sp=[.8, .7, 1.0], wide=(.3, 1.07))), oil, vec="P T den")


def liveoil(P, T, den, G, Rg):
    if Rg is None:
        Rg = 0.02123 * G * (P * np.exp(4.072 / den - 0.00377 * T)) ** 1.205
    B = 0.972 + 0.00038 * (2.4 * Rg * np.sqrt(G / den) + T + 17.8) ** 1.175
    rp = den / (B * (1 + 0.001 * Rg))
    rho = (den + 0.0012 * G * Rg) / B
    return rho, rho * oilv(rp, T, P) ** 2 / 1e6


def _g_go(r, n):
    return dict(P=r.u(0.1, 60, n, sp=[1, 10, 20, 50], wide=(0, 150)), T=r.u(5, 150, n, sp=[20, 50, 100, 0], wide=(-15, 250)), den=r.u(0.65, 1.0, n, sp=[.8, .9], wide=(.4, 1.05)), G=r.u(.56, 1.3, n, sp=[.6, .7], wide=(.2, 2)))


def _go_case(r):
    while True:
        c = _g_go(r, 1)
        P, T, d, G = [float(c[k][0]) for k in ("P", "T", "den", "G")]
        Rg = None if r.rng.random() < .45 else r.u(0, 250, sp=[0, 100], wide=(0, 1500))
        if r.rng.random() < .25:
            P = np.linspace(P, P * 1.3, r.pick([2, 5, 50]))
        w = liveoil(P, T, d, G, Rg)
        if np.all(np.isfinite(w[1])) and np.all(w[0] < 2) and np.all(w[0] > .05):
            return (P, T, d, G, Rg), {}


Case("BW.rho_K_go", _go_case, liveoil, weight=2)

_W = [[1402.85, 1.524, 3.437e-3, -1.197e-5], [4.871, -0.0111, 1.739e-4, -1.628e-6], [-0.04783, 2.747e-4, -2.135e-6, 1.237e-8],
      [1.487e-4, -6.503e-7, -1.455e-8, 1.327e-10], [-2.197e-7, 7.987e-10, 5.23e-11, -4.614e-13]]


def vwater(T, P):
    v = 0.0
    for i in reversed(range(5)):
        row = 0.0
        for j in reversed(range(4)):
            row = row * P + _W[i][j]
        v = v * T + row
    return v


def water(T, P):
    rho = 1 + 1e-6 * (((0.00175 * T - 3.3) * T - 80) * T + P * (489 - 2 * T + 0.016 * T ** 2 - 1.3e-5 * T ** 3) - P ** 2 * (0.333 + 0.002 * T))
    return rho, rho * vwater(T, P) ** 2 / 1e6


def vbrine(T, P, S):
    return vwater(T, P) + S * (1170 - 9.6 * T + .055 * T ** 2 - 8.5e-5 * T ** 3 + P * (2.6 - .0029 * T) - .0476 * P ** 2) + S ** 1.5 * (780 - 10 * P + .16 * P ** 2) - 820 * S ** 2


def brine(T, P, S):
    rho = water(T, P)[0] + .668 * S + .44 * S ** 2 + 1e-6 * S * (300 * P - 2400 * P * S + T * (80 + 3 * T - 3300 * S - 13 * P + 47 * P * S))
    return rho, rho * vbrine(T, P, S) ** 2 / 1e6


_gtp = lambda r, n: dict(T=r.u(0, 220, n, sp=[20, 25, 50, 80, 100], wide=(-30, 400)), P=r.u(0.0, 180, n, sp=[1, 10, 50, 100], wide=(0, 400)))
_gtps = lambda r, n: dict(_gtp(r, n), S=r.u(0, 0.35, n, sp=[0, .035, .1, .2], wide=(0, 1)))
Elem("BW.v_water", "T P", _gtp, vwater, vec="T P")
Elem("BW.rho_K_water", "T P", _gtp, water, vec="T P")
Elem("BW.v_brine", "T P S", _gtps, vbrine, vec="T P S")
Elem("BW.rho_K_brine", "T P S", _gtps, brine, vec="T P S")


def co2brine(temperature, pressure, salinity, Sco2, brie_component, bw, zero=273.15):
    rc, kc = gas(pressure, temperature, 1.5349) if bw else co2(pressure, temperature, 1.5349, zero)
    rb, kb = brine(temperature, pressure, salinity)
    rho = rb + Sco2 * (rc - rb)
    if brie_component is None:
        return rho, kb * kc / ((1 - Sco2) * kc + Sco2 * kb)
    return rho, kc + (kb - kc) * (1 - Sco2) ** brie_component


def _g_cb(r, n):
    return dict(temperature=r.u(5, 120, n, sp=[20, 50, 80, 0], wide=(-20, 250)), pressure=r.u(1, 60, n, sp=[5, 10, 20], wide=(.01, 150)), salinity=r.u(0, .3, n, sp=[0, .035, .1], wide=(0, .9)), Sco2=r.u(0, 1, n, sp=[0, 1, .5]))


def _okcb(c):
    a = co2(c["pressure"], c["temperature"], 1.5349)
    b = gas(c["pressure"], c["temperature"], 1.5349)
    return (a[0] > 1e-3) & (a[1] > 1e-5) & (b[0] > 1e-3) & (b[1] > 1e-5) & (a[1] < 10) & (b[1] < 10)


Elem("BW.co2_brine", "temperature pressure salinity Sco2 brie_component bw", lambda r, n: _reject(r, n, _g_cb, _okcb), co2brine, vec="temperature pressure salinity Sco2", valid=_okcb,
     opts=dict(brie_component=[DEFAULT, None, 1, 2.5, 3, 5, 40, 60.5, 0.5], bw=[DEFAULT, False, True]), optkw=("brie_component", "bw"), defaults=dict(brie_component=None, bw=False), weight=1.5,
     alts=[("CO2-critical-temperature", lambda **k: co2brine(zero=273.5, **k))])
