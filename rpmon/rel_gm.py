"""Relations between results of the granular-medium functions (C10-C13)."""
import math
import numpy as np
from .rel import relation
from . import models_gm as G
from .models_em import nu_of

A = np.array


# ------------------------------------------------------------------------------- C10
@relation
def contacts(e, log):
    for _ in range(log.n(25, 500)):
        c = e.cols("GM.hertzmindlin", 400)
        n = len(c["K0"])
        h = A(e.run("GM.hertzmindlin", c))
        w = A(e.run("GM.Walton", c))
        log.close("Walton and Hertz-Mindlin packs agree", w, h, 1e-8, **c)
        k = e.r.log(.01, 50)
        h2 = A(e.run("GM.hertzmindlin", c, sigma=c["sigma"] * k))
        log.close("pack moduli grow with the cube root of the stress", h2, h * k ** (1 / 3), 1e-8, **c)
        log.close("no stress: no stiffness", A(e.run("GM.hertzmindlin", c, sigma=np.zeros(n))), np.zeros((2, n)), 0, atol=1e-12, **c)
        s = A(e.run("GM.hertzmindlin", c, f=np.zeros(n)))
        r = A(e.run("GM.hertzmindlin", c, f=np.ones(n)))
        log.close("smooth pack has the Poisson ratio of one quarter", s[1], .6 * s[0], 1e-9, **c)
        log.close("friction leaves the bulk modulus", r[0], s[0], 1e-9, **c)
        log.holds("friction stiffens the shear modulus", r[1] >= s[1] * (1 - 1e-9), **c)
        log.close("shear modulus is linear in the rough fraction", h[1], s[1] + c["f"] * (r[1] - s[1]), 1e-8, **c)
        log.close("pack moduli with coordination number, two thirds", A(e.run("GM.hertzmindlin", c, Cn=c["Cn"] * 2)), h * 2 ** (2 / 3), 1e-8, **c)
    for _ in range(log.n(250, 4000)):
        c = {k: float(v[0]) for k, v in e.cols("GM.Digby", 1).items()}
        f1 = lambda **o: A([float(np.ravel(x)[0]) for x in e("GM.Digby", *[dict(c, **o)[k] for k in ("K0", "G0", "phi", "Cn", "sigma", "a_R")])])
        d = f1()
        d0 = f1(a_R=0.0)
        hm = A([float(x) for x in G.hertzmindlin(c["K0"], c["G0"], c["phi"], c["Cn"], c["sigma"], 0.0)])
        log.close("Digby without initial bonding is the smooth pack", d0, hm, 1e-6, atol=1e-8 * c["G0"], **c)
        log.holds("bonding stiffens the pack", np.all(d >= d0 * (1 - 1e-7) - 1e-9 * c["G0"]), **c)
        z = f1(sigma=0.0)
        log.holds("bonded pack keeps stiffness without stress", c["a_R"] < 1e-9 or z[0] > 0, **c)
        s = np.sort(e.r.u(0, 100, e.r.int(2, 20), sp=[0, 10]))
        o = e("GM.Digby", c["K0"], c["G0"], c["phi"], c["Cn"], s, c["a_R"])
        log.holds("Digby moduli increase with stress", np.all(np.diff(A([np.ravel(x) for x in o])) >= -1e-8 * c["G0"]), s=s, **c)
    for _ in range(log.n(200, 3000)):
        a, _ = G.johnson_case(e.r)
        a = a[:6]
        k = e.r.log(.1, 10)
        C, s33, s11 = e("GM.johnson", *a)
        C2, t33, t11 = e("GM.johnson", *a[:4], a[4] * k, a[5] * k)
        C = np.asarray(C)
        log.close("stiffness of the strained pack grows with the root of the strain", C2, C * math.sqrt(k), 1e-7, scale=np.abs(C).max())
        log.close("stresses of the strained pack grow with strain to the 3/2", (t33, t11), A([s33, s11]) * k ** 1.5, 1e-7, scale=abs(s33) * k ** 1.5)
        log.close("stiffness is symmetric", C, C.T, 1e-12)
        log.close("C12 = C11 - 2 C66", C[0, 1], C[0, 0] - 2 * C[5, 5], 1e-8, scale=abs(C[0, 0]))
        Cp = [np.asarray(e("GM.johnson", *a, path=p)[0]) for p in ("together", "uni_iso", "iso_uni")]
        log.close("stiffness does not depend on the strain path", Cp[1], Cp[0], 1e-9)
        log.close("stiffness does not depend on the strain path", Cp[2], Cp[0], 1e-9)


# ------------------------------------------------------------------------------- C11
@relation
def sands(e, log):
    for _ in range(log.n(25, 500)):
        c = e.cols("GM.softsand", 300)
        n = len(c["K0"])
        so, st = A(e.run("GM.softsand", c)), A(e.run("GM.stiffsand", c))
        hm = A(e("GM.hertzmindlin", c["K0"], c["G0"], c["phic"], c["Cn"], c["sigma"], c["f"]))
        m = A([c["K0"], c["G0"]])
        t = 1e-8 * (c["K0"] + c["G0"])
        for nm in ("GM.softsand", "GM.stiffsand"):
            log.close("sand models: the pack at the critical porosity", A(e.run(nm, c, phi=c["phic"])), hm, 1e-7, atol=t, **c)
            log.close("sand models: the mineral at zero porosity", A(e.run(nm, c, phi=np.zeros(n))), m, 1e-8, atol=t, **c)
        ok = (hm[0] < c["K0"]) & (hm[1] < c["G0"])
        log.holds("soft sand is not stiffer than stiff sand", (np.all(so <= st + t, axis=0)) | ~ok, **c)
        log.holds("sand moduli lie between pack and mineral", np.all((so >= hm - t) & (st <= m + t), axis=0) | ~ok, **c)
        p2 = c["phi"] * e.rng.uniform(0, 1)
        log.holds("less porosity, stiffer sand", np.all(A(e.run("GM.softsand", c, phi=p2)) >= so - t, axis=0) | ~ok, **c)
        log.holds("less porosity, stiffer sand", np.all(A(e.run("GM.stiffsand", c, phi=p2)) >= st - t, axis=0) | ~ok, **c)
        s2 = A(e.run("GM.softsand", c, sigma=c["sigma"] * 1.5))
        log.holds("more stress, stiffer soft sand", np.all(s2 >= so - t, axis=0) | ~ok, **c)


@relation
def cements(e, log):
    for _ in range(log.n(20, 400)):
        c = e.cols("GM.constantcement", 300)
        n = len(c["K0"])
        m = A([c["K0"], c["G0"]])
        t = 1e-8 * (c["K0"] + c["G0"] + c["Kc"] + c["Gc"])
        for sch in (1, 2):
            o = dict(scheme=sch)
            cc = A(e("GM.contactcement", c["K0"], c["G0"], c["Kc"], c["Gc"], c["phi_b"], c["phic"], c["Cn"], sch))
            ok = (cc > 0).all(axis=0)
            for nm in ("GM.constantcement", "GM.MUHS"):
                log.close("cemented sands: contact cement at the well-sorted porosity", A(e.run(nm, c, o, phi=c["phi_b"]))[:, ok], cc[:, ok], 1e-7, atol=t[ok], **c)
                log.close("cemented sands: the mineral at zero porosity", A(e.run(nm, c, o, phi=np.zeros(n)))[:, ok], m[:, ok], 1e-8, atol=t[ok], **c)
            a, b = A(e.run("GM.constantcement", c, o)), A(e.run("GM.MUHS", c, o))
            ok &= (cc[0] < c["K0"]) & (cc[1] < c["G0"])
            log.holds("constant cement does not exceed the stiff interpolation", np.all(a <= b + t, axis=0) | ~ok, **c)
            z = A(e("GM.contactcement", c["K0"], c["G0"], c["Kc"], c["Gc"], c["phic"], c["phic"], c["Cn"], sch))
            z2 = A(e("GM.contactcement", c["K0"], c["G0"], c["Kc"], c["Gc"], c["phic"], c["phic"], c["Cn"], 3 - sch))
            log.close("no cement: both cement schemes agree", z, z2, 1e-9, **c)


# ------------------------------------------------------------------------------- C12
@relation
def patchy(e, log):
    for _ in range(log.n(12, 250)):
        c = e.cols("GM.vpcm", 200)
        n = len(c["K0"])
        vc, vi = float(c["v_cem"][0]), float(c["v_ci"][0])
        c["v_cem"], c["v_ci"] = np.full(n, vc), np.full(n, vi)
        ok = G._okpcm(c)
        for s in (1, 2):            # the usual case: cement stiffens the pack
            Ku, Gu, Kx, Gx = G._ends(*[c[k] for k in "sigma K0 G0 phic v_cem v_ci Kc Gc Cn".split()], s, c["f_"])
            ok = ok & (Kx > 1.02 * Ku) & (Gx > 1.02 * Gu)
        c = {k: v[ok] for k, v in c.items()}
        n = int(ok.sum())
        if not n:
            continue
        m = A([c["K0"], c["G0"]])
        t = 1e-7 * (c["K0"] + c["G0"] + c["Kc"] + c["Gc"])

        def run(nm, o, **over):
            d = dict(c, **over)
            d["v_cem"], d["v_ci"] = vc, vi
            return A(e.run(nm, {k: v for k, v in d.items() if nm == "GM.vpcm" or k != "alpha"}, o))
        one, zero = np.ones(n), np.zeros(n)
        for sch in (1, 2):
            stiff, soft = run("GM.pcm", dict(mode="stiff", scheme=sch)), run("GM.pcm", dict(mode="soft", scheme=sch))
            log.close("varying patchiness: fully stiff connected", run("GM.vpcm", dict(scheme=sch), alpha=zero), stiff, 1e-7, atol=t, **c)
            log.close("varying patchiness: fully soft connected", run("GM.vpcm", dict(scheme=sch), alpha=one), soft, 1e-7, atol=t, **c)
            log.holds("soft connected is not stiffer than stiff connected", np.all(soft <= stiff + t, axis=0), **c)
            for mode in ("stiff", "soft"):
                o = dict(mode=mode, scheme=sch)
                log.close("patchy cement: the mineral at zero porosity", run("GM.pcm", o, phi=zero), m, 1e-8, atol=t, **c)
                ss = A(e("GM.softsand", c["K0"], c["G0"], c["phi"], c["phic"], c["Cn"], c["sigma"], c["f_"]))
                log.close("patchy cement: nothing cemented is soft sand", run("GM.pcm", o, f=zero), ss, 1e-7, atol=t, **c)
            a = run("GM.pcm", dict(mode="stiff", scheme=sch), f=one)
            b = run("GM.pcm", dict(mode="soft", scheme=sch), f=one)
            log.close("patchy cement: everything cemented, connectivity does not matter", a, b, 1e-7, atol=t, **c)
        d = e.cols("GM.diluting", 300)
        s0 = d["sigma0"]
        log.close("dilution: nothing loose at the reference stress", e.run("GM.diluting", d, sigma=s0), np.zeros(len(s0)), 0, atol=1e-12, **d)
        log.close("dilution: full factor without stress", e.run("GM.diluting", d, sigma=np.zeros(len(s0))), d["k"], 1e-10, **d)
        v = np.asarray(e.run("GM.diluting", d))
        log.holds("dilution never gives an undefined number", np.isfinite(v) & ((v >= 0) | (d["sigma"] > s0)), **d)


# ------------------------------------------------------------------------------- C13
@relation
def shales(e, log):
    for _ in range(log.n(25, 500)):
        c = e.cols("GM.ThomasStieber", 300)
        a, b = e.run("GM.ThomasStieber", c)
        n = len(c["vsh"])
        log.holds("dispersed and laminated porosities are not negative", (a >= -1e-12) & (b >= -1e-12), **c)
        z = e.run("GM.ThomasStieber", c, vsh=np.zeros(n))
        log.close("no shale: the sand porosity", A(z), A([c["phi_sand"]] * 2), 1e-9, **c)
        z = e.run("GM.ThomasStieber", c, vsh=np.ones(n))
        log.close("all shale: the shale porosity", A(z), A([np.maximum(c["phi_sh"], c["phi_sand"] - 1 + c["phi_sh"]), c["phi_sh"]]), 1e-9, atol=1e-12, **c)
        ok = c["phi_sand"] <= 1
        log.holds("dispersed shale is not more porous than laminated shale", (a <= b + 1e-12) | ~ok, **c)
        c = e.cols("GM.silty_shale", 300)
        k, g = e.run("GM.silty_shale", c)
        n = len(k)
        t = 1e-9 * (c["Kq"] + c["Gq"] + c["Ksh"] + c["Gsh"])
        log.holds("silty shale moduli between quartz and shale", (k >= np.minimum(c["Kq"], c["Ksh"]) - t) & (k <= np.maximum(c["Kq"], c["Ksh"]) + t) & (g >= np.minimum(c["Gq"], c["Gsh"]) - t) & (g <= np.maximum(c["Gq"], c["Gsh"]) + t), **c)
        log.close("silty shale: no silt", A(e.run("GM.silty_shale", c, C=np.ones(n))), A([c["Ksh"], c["Gsh"]]), 1e-9, atol=t, **c)
        log.close("silty shale: no shale", A(e.run("GM.silty_shale", c, C=np.zeros(n))), A([c["Kq"], c["Gq"]]), 1e-9, atol=t, **c)
        c = e.cols("GM.shaly_sand", 300)
        k, g = e.run("GM.shaly_sand", c)
        n = len(k)
        t = 1e-9 * (c["Kss"] + c["Gss"] + c["Kcc"] + c["Gcc"])
        log.close("shaly sand: clean sand", A(e.run("GM.shaly_sand", c, C=np.zeros(n))), A([c["Kss"], c["Gss"]]), 1e-9, atol=t, **c)
        log.close("shaly sand: pores full of shale", A(e.run("GM.shaly_sand", c, C=c["phis"])), A([c["Kcc"], c["Gcc"]]), 1e-9, atol=t, **c)
        log.holds("shaly sand moduli between the two end members", (k >= np.minimum(c["Kss"], c["Kcc"]) - t) & (k <= np.maximum(c["Kss"], c["Kcc"]) + t), **c)


REL = {"C10": [contacts], "C11": [sands, cements], "C12": [patchy], "C13": [shales]}
