"""Relations between results of Anisotropy, AVO, Empirical, Permeability and QI (C14-C16, C18, C19, C21-C23)."""
import math
import numpy as np
from .rel import relation
from . import models_aniso as N
from . import models_qi as Q
from .models_em import vti, ti_stiffness as ti, hti_from_vti, mat9
from .engine import SPECS

A = np.array


def iso6(K, G):
    return mat9(*(K + 4 * G / 3,) * 3, *(K - 2 * G / 3,) * 3, G, G, G)


# ------------------------------------------------------------------------------- C14
@relation
def velocities(e, log):
    for _ in range(log.n(350, 6000)):
        C = N.ti_stiffness(e.r)
        den = e.r.u(1.8, 3.2, sp=[2, 2.5])
        az = e.r.u(0, 360, e.r.int(1, 40), sp=[0, 30, 45, 60, 90, 180])
        H = hti_from_vti(C)
        a = [np.asarray(v) for v in e("Anisotropy.vel_azi_VTI", C, den, az)]
        b = [np.asarray(v) for v in e("Anisotropy.vel_azi_HTI", H, den, az)]
        w, _v = N.christoffel(C, den, np.stack([np.sin(np.radians(az)), 0 * az, np.cos(np.radians(az))], 1))
        log.close("VTI phase velocities are the eigenvalues of the Christoffel matrix", np.sort(A(a) ** 2, axis=0), w.T, 1e-7, C=C)
        w, _v = N.christoffel(H, den, np.stack([np.cos(np.radians(az)), np.sin(np.radians(az)), 0 * az], 1))
        log.close("HTI phase velocities are the eigenvalues of the Christoffel matrix", np.sort(A(b) ** 2, axis=0), w.T, 1e-7, C=H)
        log.holds("the P wave is the fastest in the symmetry plane", a[0] >= a[2] * (1 - 1e-9))
        s = [np.asarray(v) for v in e("Anisotropy.vel_azi_VTI", C, den, -az)]
        log.close("velocities are the same left and right of the axis", A(s), A(a), 1e-8)
        s = [np.asarray(v) for v in e("Anisotropy.vel_azi_VTI", C, den, az + 180)]
        log.close("velocities are the same forwards and backwards", A(s), A(a), 1e-8)
        K, G = e.r.mineral(numin=0)
        Ci = iso6(K, G)
        o = [np.asarray(v) for v in e(e.r.pick(["Anisotropy.vel_azi_VTI", "Anisotropy.vel_azi_HTI"]), Ci, den, az)]
        one = np.ones(len(az))
        log.close("isotropic medium: no dependence on angle", A(o) ** 2, A([(K + 4 * G / 3) / den * one, G / den * one, G / den * one]), 1e-8)
    for _ in range(log.n(20, 300)):
        c = e.cols("Anisotropy.Thomsen", 300)
        o = [np.asarray(v) for v in e.run("Anisotropy.Thomsen", c)]
        n = len(c["den"])
        t = e("Anisotropy.Thomsen_Tsvankin", c["C11"], c["C11"], c["C33"], c["C11"] - 2 * c["C66"], c["C13"], c["C13"], c["C44"], c["C44"], c["C66"])
        E1, D1, G1, E2, D2, G2, D3 = [np.asarray(v) for v in t]
        log.close("orthorhombic parameters of a VTI medium are Thomsen's", A([E1, D1, G1, E2, D2, G2]), A([o[3], o[5], o[4], o[3], o[5], o[4]]), 1e-8, atol=1e-10)
        z = [np.asarray(v) for v in e.run("Anisotropy.Thomsen", c, theta=np.zeros(n))]
        log.close("along the axis: axial velocities", A(z[:3]), 1000 * np.sqrt(A([c["C33"], c["C44"], c["C44"]]) / c["den"]), 1e-8)
        m = [np.asarray(v) for v in e.run("Anisotropy.Thomsen", c, theta=-c["theta"])]
        log.close("Thomsen velocities are even in the angle", A(m[:3]), A(o[:3]), 1e-8)


# ------------------------------------------------------------------------------- C15
@relation
def bond(e, log):
    for _ in range(log.n(500, 8000)):
        C = N.spd6(e.r)
        m = np.abs(C).max()
        ax = e.r.pick([1, 3])
        th = e.r.u(-360, 360, sp=[0, 30, 45, 90])
        D = np.asarray(e("Anisotropy.Bond_trans", C, th, ax))
        log.close("turned stiffness is symmetric", D, D.T, 0, atol=1e-9 * m)
        log.close("no turn: nothing changes", e("Anisotropy.Bond_trans", C, 0, ax), C, 0, atol=1e-10 * m)
        log.close("full turn: nothing changes", e("Anisotropy.Bond_trans", C, 360.0, ax), C, 0, atol=1e-9 * m)
        log.close("half turn equals its inverse", e("Anisotropy.Bond_trans", C, 180.0, ax), e("Anisotropy.Bond_trans", C, -180.0, ax), 0, atol=1e-9 * m)
        q = np.asarray(e("Anisotropy.Bond_trans", C, 90.0, ax))
        log.close("quarter turn permutes the axes", q, N.rotate(C, N.rotmat(90, ax)), 0, atol=1e-9 * m)
        log.close("quarter turn there and back", e("Anisotropy.Bond_trans", q, -90.0, ax), C, 0, atol=1e-9 * m)
        log.close("whole turns do not matter", e("Anisotropy.Bond_trans", C, th + 360, ax), D, 0, atol=1e-8 * m)
        k = e.r.log(.01, 100)
        log.close("turning is linear in the stiffness", e("Anisotropy.Bond_trans", C * k, th, ax), D * k, 0, atol=1e-9 * m * k)
        E2 = N.spd6(e.r)
        log.close("turning is additive in the stiffness", e("Anisotropy.Bond_trans", C + E2, th, ax), D + np.asarray(e("Anisotropy.Bond_trans", E2, th, ax)), 0, atol=1e-9 * (m + np.abs(E2).max()))
        # true rotations compose, keep the trace and leave isotropic media alone
        t2 = e.r.u(-180, 180)
        a = np.asarray(e("Anisotropy.Bond_trans", D, t2, ax))
        b = np.asarray(e("Anisotropy.Bond_trans", C, th + t2, ax))
        if np.max(np.abs(a - b)) <= 1e-8 * m:
            log.holds("turns about one axis add up", True)
        elif np.max(np.abs(D - N.bond_defect(C, th, ax))) <= 1e-8 * m and np.max(np.abs(b - N.bond_defect(C, th + t2, ax))) <= 1e-8 * m:
            log.finding("Bond-factor-2")
        else:
            log.close("turns about one axis add up", a, b, 0, atol=1e-8 * m)


# ------------------------------------------------------------------------------- C16
@relation
def backus(e, log):
    for _ in range(log.n(500, 8000)):
        (V, lam, G), _ = N._backus_case(e.r)
        V, lam, G = (np.atleast_1d(np.asarray(x, float)) for x in (V, lam, G))
        o = A([float(np.ravel(x)[0]) for x in e("Anisotropy.Backus", V, lam, G)])
        C11, C33, C13, C44, C66 = o
        p = e.rng.permutation(len(V))
        f = lambda *a: A([float(np.ravel(x)[0]) for x in e("Anisotropy.Backus", *a)])
        sc = dict(rtol=1e-7, scale=abs(C11) * 1e-3)
        log.close("layer order does not matter", f(V[p], lam[p], G[p]), o, **sc)
        log.close("only relative thickness matters", f(V * e.r.log(.01, 100), lam, G), o, **sc)
        i = e.r.int(0, len(V) - 1)
        t = e.r.u(.1, .9)
        V2 = np.concatenate([np.delete(V, i), [V[i] * t, V[i] * (1 - t)]])
        r2 = lambda x: np.concatenate([np.delete(x, i), [x[i], x[i]]])
        log.close("splitting a layer does not matter", f(V2, r2(lam), r2(G)), o, **sc)
        k = e.r.log(.01, 100)
        log.close("moduli scale", f(V, lam * k, G * k), o * k, 1e-8, scale=abs(C11) * k * 1e-3)
        u = f(V, np.full(len(V), lam[0]), np.full(len(V), G[0]))
        M = lam[0] + 2 * G[0]
        log.close("equal layers: the layer itself", u, (M, M, lam[0], G[0], G[0]), 1e-8, scale=M * 1e-3)
        log.holds("layered medium: vertical shear is not stiffer than horizontal shear", C44 <= C66 * (1 + 1e-9), V=V, lam=lam, G=G)
        w = np.linalg.eigvalsh(vti(*o))
        log.holds("layered medium is stable", w[0] > -1e-9 * w[-1], V=V, lam=lam, G=G)
        (vp, vs, rho, z), _ = N._backus_log_case(e.r)
        vp, vs, rho, z = (np.asarray(x, float) for x in (vp, vs, rho, z))
        g = A([float(np.ravel(x)[0]) for x in e("Anisotropy.Backus_log", vp, vs, rho, z)])
        h = f(np.diff(z), rho * (vp ** 2 - 2 * vs ** 2), rho * vs ** 2)
        log.close("log average equals the average of the layers", g[:5], h, 1e-7, scale=abs(h[0]) * 1e-3)
        log.close("average density", g[5], np.sum(np.diff(z) * rho) / (z[-1] - z[0]), 1e-7)
        d = e.r.u(0, 3000)
        log.close("only depth differences matter", A([float(np.ravel(x)[0]) for x in e("Anisotropy.Backus_log", vp, vs, rho, z + d)]), g, 1e-6, scale=abs(g[0]) * 1e-3)


# ------------------------------------------------------------------------------- C18
@relation
def reflectivity(e, log):
    for _ in range(log.n(250, 4000)):
        vp1, vp2, vs1, vs2, d1, d2 = N.two_layers(e.r)
        th = np.sort(e.r.u(0, 45, e.r.int(1, 12), sp=[0, 10, 30]))
        pp, ps, r0, g = e("AVO.Aki_Richards", th, vp1, vp2, vs1, vs2, d1, d2)
        pp, ps = np.ravel(pp), np.ravel(ps)
        pz, sz, _r, _g = e("AVO.Aki_Richards", 0.0, vp1, vp2, vs1, vs2, d1, d2)
        rc = lambda a, b: 2 * (b - a) / (a + b)
        want = (rc(vp1, vp2) + rc(d1, d2)) / 2
        log.close("normal incidence: half the relative impedance contrast", [float(np.ravel(pz)[0]), float(np.ravel(r0)[0])], (want, want), 1e-8, atol=1e-12)
        log.close("normal incidence: no converted wave", float(np.ravel(sz)[0]), 0, 0, atol=1e-12)
        qp, qs, q0, qg = e("AVO.Aki_Richards", th, vp2, vp1, vs2, vs1, d2, d1)
        log.close("turning the interface over changes the sign", np.ravel(qp), -pp, 1e-8, atol=1e-11)
        z = e("AVO.Aki_Richards", th, vp1, vp1, vs1, vs1, d1, d1)
        log.close("no contrast: no reflection", np.concatenate([np.ravel(x) for x in z]), 0, 0, atol=1e-12)
        k = e.r.log(.01, 100)
        k2 = e.r.log(.01, 100)
        s = e("AVO.Aki_Richards", th, vp1 * k, vp2 * k, vs1 * k, vs2 * k, d1 * k2, d2 * k2)
        log.close("units do not matter", np.concatenate([np.ravel(s[0]), np.ravel(s[1])]), np.concatenate([pp, ps]), 1e-8, atol=1e-11)
        # array of interfaces
        n = e.r.int(2, 5)
        L = N.two_layers(e.r, n)
        P = e("AVO.Aki_Richards", th, *L)
        rows = [e("AVO.Aki_Richards", th, *[float(x[i]) for x in L]) for i in range(n)]
        for j in range(2):
            log.close("many interfaces: row by row the single result", np.asarray(P[j]).reshape(n, -1), A([np.ravel(r[j]) for r in rows]), 1e-9, atol=1e-12)
        # HTI and orthorhombic media without anisotropy
        K1, G1 = d1 * (vp1 ** 2 - 4 * vs1 ** 2 / 3), d1 * vs1 ** 2
        K2, G2 = d2 * (vp2 ** 2 - 4 * vs2 ** 2 / 3), d2 * vs2 ** 2
        az = e.r.u(0, 180, 3)
        h = np.asarray(e("AVO.AVO_HTI", d1, d2, iso6(K1, G1), iso6(K2, G2), th, az))
        log.close("no anisotropy: no dependence on azimuth", h, np.broadcast_to(h[:1], h.shape), 1e-9, atol=1e-10)
        z = np.asarray(e("AVO.AVO_HTI", d1, d1, iso6(K1, G1), iso6(K1, G1), th, az))
        log.close("HTI: no contrast, no reflection", z, 0, 0, atol=1e-10)
        o = [np.asarray(v) for v in e("AVO.AVO_ortho", vp1, vs1, 0, 0, 0, 0, 0, d1, vp2, vs2, 0, 0, 0, 0, 0, d2, th)]
        log.close("orthorhombic: no anisotropy, both planes agree", o[0], o[1], 1e-10, atol=1e-12)
        log.close("orthorhombic and HTI: same isotropic part", o[0], h[0], 1e-8, atol=1e-10)
        ab = [float(np.ravel(x)[0]) for x in e("AVO.AVO_abe", vp1, vs1, d1, vp2, vs2, d2)] if abs(want) > 1e-6 else None
        if ab:
            log.close("intercept is the normal incidence reflectivity", ab[0], want, 1e-7, atol=1e-10)
            log.close("gradient agrees with the angle dependence", ab[2], float(np.ravel(g)[0]), 1e-7, atol=1e-10)
        # exact reflection at normal incidence
        zz = e("AVO.zoeppritz", vp1, vs1, d1, vp2, vs2, d2, 0.0)
        log.close("exact reflection at normal incidence", float(np.ravel(zz[0])[0]), (d2 * vp2 - d1 * vp1) / (d2 * vp2 + d1 * vp1), 1e-8, atol=1e-11)
        log.close("exact conversion at normal incidence", float(np.ravel(zz[1])[0]), 0, 0, atol=1e-11)
        zz = e("AVO.zoeppritz", vp1, vs1, d1, vp1, vs1, d1, th)
        w = N.zoep_defect(vp1, vs1, d1, vp1, vs1, d1, th)
        ok = np.isfinite(np.ravel(zz[0]))
        if np.any(np.abs(np.ravel(zz[0])[ok]) > 1e-9) and np.allclose(np.ravel(zz[0])[ok], np.ravel(w[0])[ok], rtol=1e-6, atol=1e-9):
            log.finding("zoeppritz-degrees")
            ok &= np.abs(np.ravel(zz[0])) <= 1e-9
        log.close("exact: no contrast, no reflection", A([np.ravel(zz[0])[ok], np.ravel(zz[1])[ok]]), 0, 0, atol=1e-9)


# ------------------------------------------------------------------------------- C19
@relation
def impedance(e, log):
    for _ in range(log.n(400, 6000)):
        n = e.r.int(1, 30)
        vp = e.r.u(1.5, 6, n, sp=[2, 3])
        vs = vp * e.r.u(.3, .67, n, sp=[.5])
        rho = e.r.u(1.8, 3, n, sp=[2, 2.5])
        SP = e.r.u(.3, .75, sp=[.5])
        for norm in (True, False):
            z = [np.asarray(v) for v in e("AVO.EI_ref", vp, vs, rho, 0.0, SP, norm)]
            log.close("zero angle: acoustic impedance", np.ravel(z[0]), vp * rho, 1e-8)
            z = [np.asarray(v) for v in e("AVO.EI_ref", vp, vs, rho, A([0.0, 20.0]), SP, norm=norm)]
            log.close("zero angle: acoustic impedance", z[0][:, 0], vp * rho, 1e-8)
            th = e.r.u(0, 40)
            a = [np.asarray(v) for v in e("AVO.EI_ref", vp, vs, rho, th, SP, norm)]
            p = e.rng.permutation(n)
            b = [np.asarray(v) for v in e("AVO.EI_ref", vp[p], vs[p], rho[p], th, SP, norm)]
            for x, y in zip(a, b):
                log.close("reordering the samples reorders the impedances", np.ravel(y), np.ravel(x)[p], 1e-8)
        k, m = e.r.log(.1, 10), e.r.log(.1, 10)
        a = [np.ravel(v) for v in e("AVO.EI_ref", vp, vs, rho, th, SP, True)]
        b = [np.ravel(v) for v in e("AVO.EI_ref", vp * k, vs * k, rho * m, th, SP, True)]
        log.close("normalised impedance scales like an impedance", A(b), A(a) * k * m, 1e-7)


# ------------------------------------------------------------------------------- C21
@relation
def permeability(e, log):
    P = "Permeability."
    for _ in range(log.n(30, 500)):
        c = e.cols(P + "Kozeny_Carman", 300)
        n = len(c["phi"])
        k = np.asarray(e.run(P + "Kozeny_Carman", c))
        log.close("Panda-Lake with equal grains is Kozeny-Carman", e(P + "Panda_Lake", c["d"], np.zeros(n), np.zeros(n), np.full(n, 2.5), c["phi"]), k, 1e-8, **c)
        log.close("percolation model without threshold is Kozeny-Carman", e(P + "Kozeny_Carman_Percolation", c["phi"], 0.0, c["d"], 1 / 180), k, 1e-8, **c)
        m = (c["phi"] > .01)
        z = {q: v[m] for q, v in c.items()}
        log.close("Fredrich with geometric factor two is Kozeny-Carman", e(P + "Fredrich", z["phi"], z["d"], 2.0), k[m], 1e-8, **z)
        s = e.r.log(.1, 10)
        for nm in ("Kozeny_Carman", "Panda_Lake_cem", "Revil"):
            a, b = np.asarray(e.run(P + nm, c)), np.asarray(e.run(P + nm, c, d=c["d"] * s))
            log.close("permeability grows with the square of the grain size", b, a * s * s, 1e-8, **c)
            p2 = np.minimum(c["phi"] * 1.1 + 1e-3, .8)
            log.holds("more porosity, more permeability", np.asarray(e.run(P + nm, c, phi=p2)) >= a * (1 - 1e-9), **c)
            log.close("no porosity, no permeability", e.run(P + nm, c, phi=np.zeros(n)), np.zeros(n), 0, atol=1e-300)
        c = e.cols(P + "Bernabe", 300)
        a = np.asarray(e.run(P + "Bernabe", c))
        b = np.asarray(e.run(P + "Bernabe", c, w=c["w"] * s, r=c["r"] * s))
        log.close("permeability grows with the square of the pore size", b, a * s * s, 1e-8, **c)
        c = e.cols(P + "Perm_logs", 300)
        o = A(e.run(P + "Perm_logs", c))
        log.holds("log-based permeabilities are not negative", np.all(o >= 0, axis=0), **c)
        log.holds("more bound water, less permeability", np.all(A(e.run(P + "Perm_logs", c, Swi=np.minimum(c["Swi"] * 1.2, 1))) <= o * (1 + 1e-9) + 1e-9, axis=0), **c)


# ------------------------------------------------------------------------------- C22
@relation
def empirical(e, log):
    P = "Empirical."
    for _ in range(log.n(30, 500)):
        K, G = e.r.mineral(200)
        z = e(P + "krief", np.zeros(200), K, G)
        log.close("Krief: the mineral at zero porosity", A([np.asarray(z[1]), np.asarray(z[2])]), A([G, K]), 1e-9)
        phi = e.r.u(0, .5, 200)
        o = [np.asarray(v) for v in e(P + "krief", phi, K, G)]
        log.close("Krief: Lame, bulk and shear moduli are consistent", o[0], o[2] - 2 * o[1] / 3, 1e-8, atol=1e-9 * K)
        log.close("Krief: Poisson ratio of the mineral", o[2] * G, o[1] * K, 1e-8)
        Z = np.sort(e.r.u(0, 5200, 200, sp=[0, 1393, 2000, 2630, 3500, 5300]))
        for nm in ("yu_segment_trend", "Scherbaum", "Storvoll", "Hillis", "Japsen"):
            v = np.asarray(e(P + nm, Z), float)
            v = v[np.isfinite(v)]
            log.holds("velocity increases with depth: " + nm, np.diff(v) >= -6.0)
        for nm in ("ehrenberg", "ramm_porosity", "ramm_porosity_segment"):
            log.holds("porosity decreases with depth: " + nm, np.diff(np.asarray(e(P + nm, Z), float)) <= 1e-9)
        j = np.asarray(e(P + "Japsen", A([1392.999999, 1393.0, 1999.999999, 2000.0, 3499.999999, 3500.0])))
        log.close("Japsen's segments join", j[::2], j[1::2], 1e-3)
        p = e.r.u(.01, .48, 50)
        d = np.asarray(e(P + "Sclater", p))
        log.close("Sclater: depth gives back the porosity", .49 * np.exp(-d / 3.7), p, 1e-8)
        v = e.r.u(1800, 6000, 100)
        sh = e.r.u(0, 1, 100)
        s, s0, s1 = [np.asarray(e(P + "esti_VS", v, q)) for q in (sh, np.zeros(100), np.ones(100))]
        log.holds("shear velocity between the pure sand and pure shale lines", (s >= np.minimum(s0, s1) * (1 - 1e-9)) & (s <= np.maximum(s0, s1) * (1 + 1e-9)))


# ------------------------------------------------------------------------------- C23
@relation
def qi(e, log):
    lib_qi = None
    for _ in range(log.n(120, 2000)):
        p = Q.rock_par(e.r)
        pc = p["phi_c"]
        M = e.r.log(5, 100)
        ph = e.r.u(0, pc, e.r.int(1, 20), sp=[0, pc])
        vsh = min(p["vsh"], 1 - pc)
        log.close("matrix of one mineral is the mineral", np.ravel(e("QI.matrix_modulus", vsh, pc, ph, M, M, M)), np.full(len(ph), M), 1e-8)
        log.close("matrix of equal densities has that density", np.ravel(e("QI.den_matrix", vsh, pc, ph, 2.5, 2.5, 2.5)), np.full(len(ph), 2.5), 1e-9)
        # the screening curves join: soft sand is the softest; contact cement meets the stiff curve
        p["phib_p"] = pc - e.r.u(.01, .15, sp=[.1])
        phi, v1, v2, v3, s1, s2, s3 = [np.asarray(x) for x in e("QI.screening", *[p[k] for k in Q._SC])]
        log.holds("screening curves: porosity from zero to the critical porosity", abs(phi[0]) < 1e-6 and abs(phi[-1] - pc) < 1e-9 and np.all(np.diff(phi) > 0), p=str(p))
        log.holds("screening curves: every porosity has a stiff or a cement value", np.isfinite(v2) | np.isfinite(v3), p=str(p))
        log.holds("screening curves: S where P", (np.isfinite(v2) == np.isfinite(s2)) & (np.isfinite(v3) == np.isfinite(s3)), p=str(p))
        # the limit taken from the sampled porosities themselves: both models are defined at it
        k = e.r.int(60, 98)
        p["phib_p"] = float(phi[k])
        phi, v1, v2, v3, s1, s2, s3 = [np.asarray(x) for x in e("QI.screening", *[p[k_] for k_ in Q._SC])]
        if phi[k] == p["phib_p"]:
            up, down = np.arange(100) < k, np.arange(100) > k
            log.event("limit on a sample")
            log.holds("screening curves: limit on a sampled porosity", np.isnan(v2[down]).all() and np.isnan(v3[up]).all() and np.isfinite([v2[k], s2[k], v3[k], s3[k]]).all(), p=str(p), k=k)
        d = np.abs(e.r.plain(-1, 1, 50))
        m = np.asarray(e("QI.normalize", d + 1e-3))
        log.holds("normalised data: largest is one, order kept", abs(m.max() - 1) < 1e-9 and np.all(np.diff(m[np.argsort(d)]) >= -1e-15))


REL = {"C14": [velocities], "C15": [bond], "C16": [backus], "C18": [reflectivity], "C19": [impedance], "C21": [permeability], "C22": [empirical], "C23": [qi]}
