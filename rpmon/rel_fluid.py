"""Relations between results of the fluid functions (C06-C09, C20)."""
import math
import numpy as np
from .rel import relation
from . import models_fluid as F
from .models_em import vti, nu_of, mat9
from .models_aniso import rotate, rotmat


def iso(K, G):
    return mat9(*(K + 4 * G / 3,) * 3, *(K - 2 * G / 3,) * 3, G, G, G)


# ------------------------------------------------------------------------------- C06
@relation
def gassmann(e, log):
    for _ in range(log.n(25, 500)):
        c = e.cols("Fluid.Gassmann", 400)
        Kd, Gd, K0, Kf, phi = (c[k] for k in ("K_dry", "G_dry", "K_mat", "Kf", "phi"))
        Ks, Gs = e.run("Fluid.Gassmann", c)
        log.close("saturation leaves the shear modulus", Gs, Gd, 1e-12, **c)
        log.holds("saturated bulk modulus between dry and mineral", (Ks >= Kd * (1 - 1e-9)) & (Ks <= K0 * (1 + 1e-9)), **c)
        k2 = np.where(e.rng.random(len(Kf)) < .2, Kf, F.fluidK(e.r, len(Kf)))
        K2 = e("Fluid.Gassmann_sub", phi, K0, Ks, Kf, k2)
        D2, _g = e("Fluid.Gassmann", Kd, Gd, K0, k2, phi)
        s = dict(rtol=1e-6, atol=1e-9 * K0)
        log.close("substitution equals saturating the dry rock with the new fluid", K2, D2, **s, **c)
        log.close("substituting the same fluid changes nothing", e("Fluid.Gassmann_sub", phi, K0, Ks, Kf, Kf), Ks, **s, **c)
        log.close("substituting there and back restores the rock", e("Fluid.Gassmann_sub", phi, K0, K2, k2, Kf), Ks, **s, **c)
        k3 = F.fluidK(e.r, len(Kf))
        log.close("two substitutions in a row equal one", e("Fluid.Gassmann_sub", phi, K0, K2, k2, k3), e("Fluid.Gassmann_sub", phi, K0, Ks, Kf, k3), **s, **c)
        up = Kf * e.rng.uniform(1.01, 3)
        ok = up < .5 * K0
        Ku, _g = e("Fluid.Gassmann", Kd[ok], Gd[ok], K0[ok], up[ok], phi[ok])
        log.holds("a stiffer fluid gives a stiffer rock", Ku >= Ks[ok] * (1 - 1e-10))
        c = e.cols("Fluid.vels", 400)
        vp, vs, rho = e.run("Fluid.vels", c)
        K, G = e("Fluid.Gassmann", c["K_dry"], c["G_dry"], c["K0"], c["Kf"], c["phi"])
        log.close("saturated velocities carry the Gassmann moduli", np.array([rho * vs ** 2 / 1e6, rho * (vp ** 2 - 4 * vs ** 2 / 3) / 1e6]), np.array([G, K]), 1e-7, atol=1e-9 * c["K0"], **c)
        log.close("saturated density is the volume average", rho, (1 - c["phi"]) * c["D0"] + c["phi"] * c["Df"], 1e-9, **c)
        c = e.cols("Fluid.Gassmann_vels", 400)
        v2 = e.run("Fluid.Gassmann_vels", c)
        rho2 = c["rho1"] + c["phi"] * (c["rhofl2"] - c["rhofl1"])
        back = e("Fluid.Gassmann_vels", v2[0], v2[1], rho2, c["rhofl2"], c["Kfl2"], c["rhofl1"], c["Kfl1"], c["K0"], c["phi"])
        log.close("velocity substitution there and back", np.array(back), np.array([c["Vp1"], c["Vs1"]]), 1e-6, **c)
        same = e("Fluid.Gassmann_vels", c["Vp1"], c["Vs1"], c["rho1"], c["rhofl1"], c["Kfl1"], c["rhofl1"], c["Kfl1"], c["K0"], c["phi"])
        log.close("velocity substitution of the same fluid", np.array(same), np.array([c["Vp1"], c["Vs1"]]), 1e-7, **c)
        log.close("velocity substitution keeps the shear modulus", rho2 * v2[1] ** 2, c["rho1"] * c["Vs1"] ** 2, 1e-8, **c)
        c = e.cols("Fluid.Gassmann_approx", 300)
        M2 = e.run("Fluid.Gassmann_approx", c)
        log.close("approximate substitution there and back", e("Fluid.Gassmann_approx", M2, c["M0"], c["Mfl2"], c["phi"], c["Mfl1"]), c["Msat1"], 1e-6, atol=1e-9 * c["M0"], **c)
        c = e.cols("Fluid.Brie", 400)
        K = e.run("Fluid.Brie", c)
        lo, hi = np.minimum(c["Kw"], c["Kgas"]), np.maximum(c["Kw"], c["Kgas"])
        log.holds("mixed fluid modulus between gas and liquid", (K >= lo * (1 - 1e-9)) & (K <= hi * (1 + 1e-9)), **c)
        one = np.ones(400)
        log.close("mixed fluid: all liquid", e.run("Fluid.Brie", c, Sw=one), c["Kw"], 1e-9, **c)
        log.close("mixed fluid: all gas", e.run("Fluid.Brie", c, Sw=0 * one), c["Kgas"], 1e-9, **c)
        log.close("mixed fluid: exponent one is the volume average", e.run("Fluid.Brie", c, e=one), c["Sw"] * c["Kw"] + (1 - c["Sw"]) * c["Kgas"], 1e-9, **c)


# ------------------------------------------------------------------------------- C07
@relation
def brown_korringa(e, log):
    for _ in range(log.n(350, 6000)):
        (S, K0, G0, kf, phi), _ = F.bk_case_dry(e.r)
        m = np.abs(S).max()
        Ss = np.asarray(e("Fluid.Brown_Korringa_dry2sat", S, K0, G0, kf, phi))
        log.close("saturated compliance is symmetric", Ss, Ss.T, 1e-9, atol=1e-12 * m)
        log.close("dry -> saturated -> dry", e("Fluid.Brown_Korringa_sat2dry", Ss, K0, G0, kf, phi), S, 1e-6, atol=1e-7 * m, S=S, K0=K0, kf=kf, phi=phi)
        C, _s = e("Fluid.Brown_Korringa_sub", np.linalg.inv(Ss), K0, G0, kf, kf, phi)
        Cs = np.linalg.inv(Ss)
        log.close("anisotropic substitution of the same fluid", C, Cs, 1e-6, atol=1e-6 * np.abs(Cs).max())
        k2 = float(F.fluidK(e.r, 1)[0])
        C2, S2 = e("Fluid.Brown_Korringa_sub", Cs, K0, G0, kf, k2, phi)
        want = np.asarray(e("Fluid.Brown_Korringa_dry2sat", S, K0, G0, k2, phi))
        log.close("anisotropic substitution equals saturating the dry rock", S2, want, 1e-6, atol=1e-7 * m)
        log.close("stiffness and compliance of the substituted rock agree", np.asarray(C2) @ np.asarray(S2), np.eye(6), 0, atol=1e-7)
        # turning the rock and saturating commute
        Rm = rotmat(e.r.u(0, 90), e.r.pick([1, 3]))
        Cd = np.linalg.inv(S)
        Sr = np.linalg.inv(rotate(Cd, Rm))
        Sr = (Sr + Sr.T) / 2
        a = np.linalg.inv(np.asarray(e("Fluid.Brown_Korringa_dry2sat", Sr, K0, G0, kf, phi)))
        log.close("turning the axes and saturating commute", a, rotate(Cs, Rm), 1e-6, atol=1e-6 * np.abs(Cs).max())
        # isotropic rock: Gassmann
        K0, G0, Kd, Gd, phi = (float(v[0]) for v in F.rock(e.r, 1))
        Sd = np.linalg.inv(iso(Kd, Gd))
        Ss = np.asarray(e("Fluid.Brown_Korringa_dry2sat", (Sd + Sd.T) / 2, K0, G0, kf, phi))
        Kg, Gg = F.gassmann(Kd, Gd, K0, kf, phi)
        log.close("isotropic rock: Brown and Korringa equals Gassmann", np.linalg.inv(Ss), iso(float(Kg), float(Gg)), 1e-6, atol=1e-7 * K0, K0=K0, Kd=Kd, Gd=Gd, kf=kf, phi=phi)


# ------------------------------------------------------------------------------- C08
@relation
def biot(e, log):
    A = "Kdry Gdry K0 Kfl rho0 rhofl eta phi kapa a alpha".split()
    for _ in range(log.n(120, 2500)):
        c = e.cols("Fluid.Biot", 1)
        while len(c["freq"]) < 1:
            c = e.cols("Fluid.Biot", 4)
        p = {k: float(c[k][0]) for k in c}
        f = np.geomspace(1e-1, 1e9, 60)
        fc = dict({k: np.full(60, p[k]) for k in A}, freq=f)
        f = f[F._okbiot(fc)]
        if len(f) < 5:
            continue
        o = [np.asarray(v) for v in e("Fluid.Biot", *[p[k] for k in A], f)]
        t = F._biot_atol(dict(fc, **{"freq": f, **{k: np.full(len(f), p[k]) for k in A}}))[3]
        log.holds("fast wave is not slower than the slow wave", o[0] >= o[1] * (1 - 1e-9), p=p)
        log.holds("attenuation of the fast and shear waves is not negative", (o[3] >= -t - 1e-9) & (o[5] >= -t - 1e-9), q1=o[3], qs=o[5], f=f)
        # low frequency: Gassmann
        K, G = F.gassmann(p["Kdry"], p["Gdry"], p["K0"], p["Kfl"], p["phi"])
        rho = (1 - p["phi"]) * p["rho0"] + p["phi"] * p["rhofl"]
        wc = p["eta"] * p["phi"] / (p["kapa"] * p["rhofl"] * 2 * math.pi)
        lo = f[(f < 1e-3 * wc)]
        if len(lo):
            v = [np.asarray(x) for x in e("Fluid.Biot", *[p[k] for k in A], lo)]
            log.close("low frequency: Gassmann velocities", np.array([v[0], v[2]]), np.array([[math.sqrt((K + 4 * G / 3) / rho)], [math.sqrt(G / rho)]]) * np.ones((2, len(lo))), 2e-3, p=str(p))
        # high frequency: the frequency where the viscous part of the coupling is 1e-7 of the inertial one
        h = e("Fluid.Biot_HF", *[p[k] for k in A if k not in ("eta", "kapa", "a")])
        w = (p["a"] * math.sqrt(p["rhofl"] * p["eta"]) * p["phi"] / (4 * p["kapa"] * 1e-7 * p["alpha"] * p["rhofl"])) ** 2
        if p["a"] * math.sqrt(w * p["rhofl"] / p["eta"]) > 1e4:
            v = [np.asarray(x) for x in e("Fluid.Biot", *[p[k] for k in A], np.array([w / (2 * math.pi), 4 * w]))]
            log.close("high frequency: Biot limit", np.array([v[0], v[1], v[2]]), np.array([[float(x)] for x in h]) * np.ones((3, 2)), 2e-5, p=str(p))
        log.holds("high-frequency velocities are not below Gassmann", float(h[0]) >= math.sqrt((K + 4 * G / 3) / rho) * (1 - 1e-8) and float(h[2]) >= math.sqrt(G / rho) * (1 - 1e-8), p=p)
    for _ in range(log.n(12, 200)):
        c = e.cols("Fluid.Biot_HF", 400)
        h = e.run("Fluid.Biot_HF", c)
        g = e.run("Fluid.Geertsma_Smit_HF", c)
        log.close("Geertsma-Smit and Biot high-frequency shear velocities agree", g[1], h[2], 1e-6, **c)
        log.holds("Geertsma-Smit high-frequency P velocity bounds Biot's", (g[0] >= h[0] * (1 - 1e-7)), **c)
        c = e.cols("Fluid.Geertsma_Smit_LF", 400)
        v = e.run("Fluid.Geertsma_Smit_LF", c)
        log.holds("Geertsma-Smit velocity between its limits", (v >= c["Vp0"] * (1 - 1e-9)) & (v <= c["Vpinf"] * (1 + 1e-9)), **c)
        v2 = e.run("Fluid.Geertsma_Smit_LF", c, freq=c["freq"] * 2)
        log.holds("Geertsma-Smit velocity increases with frequency", v2 >= v * (1 - 1e-9), **c)


# ------------------------------------------------------------------------------- C09
@relation
def squirt(e, log):
    for _ in range(log.n(500, 8000)):
        (S, H), _ = F.squirt_case(e.r)
        S, H = np.asarray(S, float), np.asarray(H, float)
        g = np.asarray(e("Fluid.Squirt_anisotropic", S, H), float).ravel()
        b = lambda s: 2 * s[0] + 2 * s[1] + 4 * s[2] + s[3]
        log.close("wet frame has the bulk compliance of the dry rock at high pressure", b(g), b(H), 1e-6, scale=abs(b(S)), S=S, H=H)
        k = e.r.log(.01, 100)
        log.close("squirt result scales with the compliance", np.asarray(e("Fluid.Squirt_anisotropic", S * k, H * k)).ravel(), g * k, 1e-8, scale=np.abs(g * k).max())
        # isotropic rock: the wet frame has to be isotropic (known finding: it is not)
        K, G = e.r.mineral(lo=8, numin=.02, numax=.4)
        H = F.ti_comp(iso(K, G))
        a, b2 = e.r.u(.3, .95), e.r.u(.3, .95)
        S = F.ti_comp(iso(K * a, G * b2))
        g = np.asarray(e("Fluid.Squirt_anisotropic", S, H), float).ravel()
        m = np.abs(S).max()
        good = abs(g[0] - g[3]) < 1e-7 * m and abs(g[1] - g[2]) < 1e-7 * m and abs(g[4] - 2 * (g[0] - g[1])) < 1e-7 * m
        w = F.squirt(S, H)
        if not good and np.all(np.abs(g - w) <= 1e-7 * np.abs(w).max()):
            log.finding("Squirt-isotropic-limit")
        else:
            log.holds("isotropic rock: the wet frame is isotropic", good, S=S, H=H, g=g)
    for _ in range(log.n(30, 300)):
        c = e.cols("Fluid.Mavko_Jizba", 200)
        m = len(c["phi"])
        for i in range(min(m, 8)):
            p = {k: float(v[i]) for k, v in c.items()}
            a = [p[k] for k in ("Vp_hs", "Vs_hs", "Vpdry", "Vsdry", "K0", "rhodry", "rhofl", "Kfl", "phi")]
            o = [float(np.ravel(x)[0]) for x in e("Fluid.Mavko_Jizba", *a)]
            b = list(a)
            b[2], b[3] = a[0], a[1]
            q = [float(np.ravel(x)[0]) for x in e("Fluid.Mavko_Jizba", *b)]
            kh = p["rhodry"] * (p["Vp_hs"] ** 2 - p["Vs_hs"] ** 2 / .75) / 1e6
            gh = p["rhodry"] * p["Vs_hs"] ** 2 / 1e6
            w = F.gassmann(kh, gh, p["K0"], p["Kfl"], p["phi"])
            log.close("no soft porosity: squirt equals Gassmann", q[:2], (float(w[0]), float(w[1])), 1e-6, p=str(p))
            rho = p["rhodry"] + p["phi"] * p["rhofl"]
            log.close("squirt velocities carry the squirt moduli", (rho * o[3] ** 2 / 1e6, rho * (o[2] ** 2 - 4 * o[3] ** 2 / 3) / 1e6), (o[1], o[0]), 1e-7)


@relation
def white(e, log):
    A = "Kdry Gdry K0 phi rho0 rhofl1 rhofl2 Kfl1 Kfl2 eta1 eta2 kapa a sg".split()
    for _ in range(log.n(250, 4000)):
        c = e.cols("Fluid.White_Dutta_Ode", 1)
        if len(c["freq"]) < 1:
            continue
        p = {k: float(c[k][0]) for k in c}
        f = np.geomspace(1e-3, 1e7, 120)
        fc = dict({k: np.full(len(f), p[k]) for k in A}, freq=f)
        f = f[F._okw(fc)]
        if len(f) < 3:
            continue
        V, a, K = [np.asarray(v) for v in e("Fluid.White_Dutta_Ode", *[p[k] for k in A], f)]
        K1, K2 = [float(F.gassmann(p["Kdry"], 0., p["K0"], p[k], p["phi"])[0]) for k in ("Kfl1", "Kfl2")]
        G, sg = p["Gdry"], p["sg"]
        M = 1 / (sg / (K1 + 4 * G / 3) + (1 - sg) / (K2 + 4 * G / 3))
        kw = 1 / (sg / p["Kfl1"] + (1 - sg) / p["Kfl2"])
        Kl = float(F.gassmann(p["Kdry"], 0., p["K0"], kw, p["phi"])[0])
        rho = (1 - p["phi"]) * p["rho0"] + p["phi"] * (sg * p["rhofl1"] + (1 - sg) * p["rhofl2"])
        lo, hi = math.sqrt((Kl + 4 * G / 3) / rho), math.sqrt(M / rho)
        log.holds("patchy velocity between the uniform and the patchy limit", (V >= lo * (1 - 2e-2)) & (V <= hi * (1 + 2e-2)), V=V, f=f)
        log.holds("patchy attenuation is not negative", a >= -1e-9, a=a, f=f)


# ------------------------------------------------------------------------------- C20
@relation
def bw(e, log):
    for _ in range(log.n(25, 400)):
        c = e.cols("BW.rho_K_gas", 300)
        rho, K = e.run("BW.rho_K_gas", c)
        h = 1e-5
        r1, _k = e.run("BW.rho_K_gas", c, P=c["P"] * (1 + h))
        r0, _k = e.run("BW.rho_K_gas", c, P=c["P"] * (1 - h))
        Pp = c["P"] / (4.892 - .4048 * c["G"])
        g0 = .85 + 5.6 / (Pp + 2) + 27.1 / (Pp + 3.5) ** 2 - 8.7 * np.exp(-.65 * (Pp + 1))
        dr = (r1 - r0) / (2 * h * c["P"])
        ok = (dr > 0) & (K < 5)
        log.close("gas bulk modulus is consistent with the gas density", K[ok] * 1000, (g0 * rho / dr)[ok], 2e-4, **{k: v[ok] for k, v in c.items()})
        c = e.cols("BW.rho_K_brine", 300)
        r, K = e.run("BW.rho_K_brine", c)
        v = e.run("BW.v_brine", c)
        log.close("brine modulus is density times velocity squared", K, r * v ** 2 * 1e-6, 1e-8, **c)
        w = e("BW.rho_K_water", c["T"], c["P"])
        z = e.run("BW.rho_K_brine", c, S=0 * c["S"])
        log.close("brine without salt is water", np.array(z), np.array(w), 1e-9)
        vw = e("BW.v_water", c["T"], c["P"])
        log.close("water modulus is density times velocity squared", w[1], w[0] * vw ** 2 * 1e-6, 1e-8)
        log.close("brine velocity without salt is water's", e.run("BW.v_brine", c, S=0 * c["S"]), vw, 1e-9)
        c = e.cols("BW.co2_brine", 200)
        for opt in (dict(brie_component=None, bw=False), dict(brie_component=3, bw=True), dict(brie_component=3, bw=False), dict(brie_component=None, bw=True)):
            g = e("BW.rho_K_gas" if opt["bw"] else "BW.rho_K_co2", c["pressure"], c["temperature"], 1.5349)
            b = e("BW.rho_K_brine", c["temperature"], c["pressure"], c["salinity"])
            o = e.run("BW.co2_brine", c, opt)
            lo, hi = np.minimum(g[1], b[1]), np.maximum(g[1], b[1])
            log.holds("CO2-brine modulus between CO2 and brine", (o[1] >= lo * (1 - 1e-8)) & (o[1] <= hi * (1 + 1e-8)), **c)
            log.close("CO2-brine density is the volume average", o[0], c["Sco2"] * g[0] + (1 - c["Sco2"]) * b[0], 1e-8, **c)
            n = np.ones(len(lo))
            log.close("CO2-brine: no CO2 is brine", np.array(e.run("BW.co2_brine", c, opt, Sco2=0 * n)), np.array(b), 1e-8)
            log.close("CO2-brine: only CO2", np.array(e.run("BW.co2_brine", c, opt, Sco2=n)), np.array(g), 1e-8)
        c = e.cols("BW.rho_K_oil", 200)
        r, K = e.run("BW.rho_K_oil", c)
        log.holds("oil density and modulus are positive", (r > 0) & (K > 0), **c)
        t, pp, tp = e("BW.pseudo_p_t", c["P"], c["T"], .6)
        log.close("absolute temperature", t, c["T"] + 273.15, 1e-10)
        h = 1e-5
        z = lambda P: F.zfac(P, tp)
        log.close("slope of the compressibility factor", e("BW.dz_dp", pp, tp), (z(pp * (1 + h)) - z(pp * (1 - h))) / (2 * h * pp), 1e-4, scale=.05)


@relation
def announced(e, log):
    """pressures beyond the calibration of the water velocity are announced, others are not"""
    import warnings
    for _ in range(log.n(60, 600)):
        c = e.cols("BW.rho_K_water", 40)
        n = e.r.int(1, 6)
        T, P = c["T"][:n], c["P"][:n]
        P = np.where(P > 100, 100.0, P)
        high = e.r.rng.random() < .5
        if high:
            P[e.r.int(0, len(P) - 1)] = e.r.pick([100.001, 101.0, 150.0, 300.0])
        if e.r.rng.random() < .4:
            i = int(np.argmax(P))
            T, P = float(T[i]), float(P[i])
        with warnings.catch_warnings(record=True) as w:
            warnings.simplefilter("always")
            e("BW.v_water", T, P)
        log.holds("extrapolated pressures are announced by a warning", (len(w) > 0) == high, P=np.array(P), warnings=len(w))


REL = {"C06": [gassmann], "C07": [brown_korringa], "C08": [biot], "C09": [squirt, white], "C20": [bw, announced]}
