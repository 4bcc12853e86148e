"""Relations between results of the effective-medium functions (C03, C04, C05, C17)."""
import math
import numpy as np
from .core import R, fn, brief
from .rel import relation
from . import models_em as E
from .models_aniso import rotate, rotmat

T = 1e-8


# ------------------------------------------------------------------------------- C03
@relation
def hs_bounds(e, log):
    for _ in range(log.n(30, 600)):
        c = e.cols("EM.HS", 400)
        f, K1, K2, G1, G2 = (c[k] for k in ("f", "K1", "K2", "G1", "G2"))
        Ku, Gu = e.run("EM.HS", c, dict(bound="upper"))
        Kl, Gl = e.run("EM.HS", c, dict(bound="lower"))
        s = 1e-10 * (K1 + G1)
        Kv, Gv = f * K1 + (1 - f) * K2, f * G1 + (1 - f) * G2
        Kr = K1 * K2 / (f * K2 + (1 - f) * K1)
        Gr = np.where(G2 > 0, G1 * G2 / np.where(G2 > 0, f * G2 + (1 - f) * G1, 1), 0)
        log.holds("HS lower <= HS upper", (Kl <= Ku + s) & (Gl <= Gu + s), **c)
        log.holds("HS upper <= Voigt", (Ku <= Kv + s) & (Gu <= Gv + s), **c)
        log.holds("Reuss <= HS lower", (Kr <= Kl + s) & (Gr <= Gl + s), **c)
        m = (G2 > 0)
        z = {k: v[m] for k, v in c.items()}
        one, zero = np.ones(m.sum()), np.zeros(m.sum())
        for b in ("upper", "lower"):
            a = e.run("EM.HS", z, dict(bound=b), f=one)
            log.close("HS end point f=1", np.array(a), np.array([z["K1"], z["G1"]]), T)
            a = e.run("EM.HS", z, dict(bound=b), f=zero)
            log.close("HS end point f=0", np.array(a), np.array([z["K2"], z["G2"]]), T)
            # equal phases
            a = e.run("EM.HS", z, dict(bound=b), K2=z["K1"], G2=z["G1"])
            log.close("HS equal phases", np.array(a), np.array([z["K1"], z["G1"]]), T)
            # Mori-Tanaka with one of the phases as host is the corresponding bound
            a = e.run("EM.HS", z, dict(bound=b))
            h = ("K1", "G1") if b == "upper" else ("K2", "G2")
            mt = e("EM.MT_average", z["f"], z[h[0]], z[h[1]], z["K1"], z["G1"], z["K2"], z["G2"])
            log.close("Mori-Tanaka equals Hashin-Shtrikman", np.array(a), np.array(mt), 1e-7)
        # monotone in the fraction of the stiff phase
        f2 = np.sort(z["f"])
        k = e.r.int(0, len(f2) - 1)
        o = {p: z[p][k] for p in ("K1", "K2", "G1", "G2")}
        for b in ("upper", "lower"):
            a = e.run("EM.HS", dict(f=f2, **o), dict(bound=b))
            log.holds("HS increases with the stiff fraction", np.all(np.diff(np.array(a)) >= -1e-10 * (o["K1"] + o["G1"]), axis=0))


@relation
def vrh_bounds(e, log):
    for _ in range(log.n(1500, 30000)):
        n = e.r.int(1, 8)
        x = e.rng.dirichlet(np.ones(n) * e.r.pick([.3, 1, 5]))
        if e.rng.random() < .2:
            x = np.eye(n)[e.r.int(0, n - 1)]
        M = e.r.log(0.5, 150, n)
        v, r, h = e("EM.VRH", x, M)
        log.holds("Reuss <= Hill <= Voigt", (r <= h * (1 + 1e-12)) and (h <= v * (1 + 1e-12)), x=x, M=M)
        log.holds("averages lie within the moduli", M.min() * (1 - 1e-9) <= r and v <= M.max() * (1 + 1e-9), x=x, M=M)
        log.close("Hill is the mean of Voigt and Reuss", h, (v + r) / 2, 1e-12)
        p = e.rng.permutation(n)
        log.close("VRH does not depend on the order of the phases", e("EM.VRH", x[p], M[p]), (v, r, h), 1e-10)
        log.close("VRH accepts lists", e("EM.VRH", list(x), list(M)), (v, r, h), 1e-10)
        s = e.r.log(.01, 100)
        log.close("VRH is homogeneous", e("EM.VRH", x, M * s), np.array([v, r, h]) * s, 1e-10)


@relation
def cripor_ends(e, log):
    for _ in range(log.n(20, 400)):
        c = e.cols("EM.cripor", 300)
        pc = float(c["phic"][0])
        o = {k: c[k] for k in ("K0", "G0")}
        z = np.zeros(len(c["K0"]))
        a = e("EM.cripor", o["K0"], o["G0"], z, pc)
        log.close("critical porosity model: mineral at zero porosity", np.array(a), np.array([o["K0"], o["G0"]]), T)
        a = e("EM.cripor", o["K0"], o["G0"], z + pc, pc)
        log.close("critical porosity model: zero at the critical porosity", np.array(a), np.zeros((2, len(z))), 0, atol=1e-10 * 200)
        t = e.rng.uniform(0, 1)
        a = e("EM.cripor", o["K0"], o["G0"], z + pc * t, pc)
        log.close("critical porosity model: linear", np.array(a), np.array([o["K0"], o["G0"]]) * (1 - t), 1e-8)
        for i in range(12):
            M0, Mf = e.r.log(1, 120), e.r.log(.01, 4)
            m = e("EM.cripor_reuss", M0, Mf, pc)
            _, r, _ = e("EM.VRH", np.array([1 - pc, pc]), np.array([M0, Mf]))
            log.close("suspension at the critical porosity is the Reuss average", m, r, 1e-8)


# ------------------------------------------------------------------------------- C04
def pq_from_eshelby(Km, Gm, Ki, Gi, alpha):
    S = E.eshelby_spheroid(E.nu_of(Km, Gm), alpha)
    I = np.eye(3)
    J = np.einsum("ij,kl->ijkl", I, I)
    I4 = 0.5 * (np.einsum("ik,jl->ijkl", I, I) + np.einsum("il,jk->ijkl", I, I))
    C = lambda K, G: (K - 2 * G / 3) * J + 2 * G * I4
    pairs = [(0, 0), (1, 1), (2, 2), (1, 2), (0, 2), (0, 1)]
    w = np.array([1, 1, 1] + [math.sqrt(2)] * 3)
    km = lambda T_: np.array([[T_[p + q] for q in pairs] for p in pairs]) * np.outer(w, w)
    A = np.linalg.inv(np.eye(6) + km(S) @ np.linalg.solve(km(C(Km, Gm)), km(C(Ki, Gi)) - km(C(Km, Gm))))
    tr = A[:3, :3].sum()
    return tr / 3, (np.trace(A) - tr / 3) / 5


@relation
def pq_eshelby(e, log):
    for _ in range(log.n(600, 8000)):
        Km, Gm = e.r.mineral(numin=0.0)
        Ki, Gi = (e.r.log(.01, 4), 0.0) if e.rng.random() < .4 else e.r.mineral(lo=.5)
        a = e.r.log(1e-2, .95, sp=[.01, .1, .5])
        P, Q = e("EM.PQ", Km, Gm, Ki, Gi, a)
        p, q = pq_from_eshelby(Km, Gm, Ki, Gi, a)
        log.close("P and Q are the traces of the Eshelby concentration tensor", (float(P), float(Q)), (p, q), 1e-6, Km=Km, Gm=Gm, Ki=Ki, Gi=Gi, alpha=a)
        P, Q = e("EM.PQ", Km, Gm, Km, Gm, a)
        log.close("an inclusion of the host material does not disturb the field", (float(P), float(Q)), (1., 1.), 1e-8)


@relation
def swiss(e, log):
    for _ in range(log.n(300, 5000)):
        n, m = e.r.int(1, 6), e.r.int(1, 6)
        K, G = e.r.mineral(n)
        phi = e.r.u(0, .6, m, sp=[0, .1])
        if e.rng.random() < .3:
            phi = float(phi[0])
        Kd, Gd = e("EM.Swiss_cheese", K, G, phi)
        wk, wg = zip(*[E.SPECS_swiss(K[i], G[i], np.atleast_1d(phi)) for i in range(n)])
        log.close("Swiss cheese: table over minerals and porosities", np.array([np.asarray(Kd), np.asarray(Gd)]), np.array([wk, wg]), 1e-9)
        ds = E.SPECS["EM.Dilute_crack"].ref(K, G, np.zeros(n))
        log.close("no cracks: the mineral", np.array(e("EM.Dilute_crack", K, G, np.zeros(n))), np.array(ds), 1e-12)


def sc_fixed_point(K, G, X, A, K0, G0, defect):
    """solve Berryman's self consistent equations from the library's starting point"""
    from scipy.optimize import fsolve
    s, info, ok, _ = fsolve(lambda p: E._bf((p[0], p[1]), K, G, X, A, defect), (K0, G0), full_output=True, xtol=1e-12)
    return s, ok == 1


@relation
def berryman_sc(e, log):
    done = 0
    for _ in range(log.n(400, 6000)):
        n = e.r.int(1, 4)
        K0, G0 = e.r.mineral(lo=8, numin=.02, numax=.42)
        K = np.maximum(K0 * e.r.u(.25, 2.0, n, sp=[1.0]), 1)
        G = np.maximum(G0 * e.r.u(.25, 2.0, n, sp=[1.0]), 1)
        if e.rng.random() < .4:
            K, G = e.r.mineral(n, lo=3, numin=.02, numax=.42)
        X = e.rng.dirichlet(np.ones(n))
        if e.rng.random() < .15:
            X = np.eye(n)[e.r.int(0, n - 1)]
        A = E.aspect(e.r, n)
        A = np.maximum(A, .02)
        if X.max() == 1:        # phases that are absent are of no account
            got = np.array(e("EM.Berryman_sc", K, G, X, A), float).ravel()
            log.close("phases that are absent are of no account", got, (K[X == 1][0], G[X == 1][0]), 1e-6)
            done += 1
            continue
        s, ok = sc_fixed_point(K, G, X, A, X @ K, X @ G, False)
        if not ok or min(s) <= 0:
            log.event("berryman_sc: skipped, equations not solved by the reference")
            continue
        if np.any(A > 1):       # known finding PQ-prolate: the library may be solving the other system
            s2, ok2 = sc_fixed_point(K, G, X, A, X @ K, X @ G, True)
            if not ok2 or min(s2) <= 0 or np.max(np.abs(s2 / s - 1)) > .5:
                log.event("berryman_sc: skipped, prolate factors singular (known finding)")
                continue
        lst = e.rng.random() < .3
        out = e("EM.Berryman_sc", list(K) if lst else K, list(G) if lst else G, list(X) if lst else X, list(A) if lst else A)
        got = np.array(out, float).ravel()
        done += 1

        def res(defect):
            return np.array(E._bf((got[0], got[1]), K, G, X, A, defect)) / got
        good = np.all(np.abs(res(False)) < 1e-6) and np.all(got > 0)
        if not good and np.any(A > 1) and np.all(np.abs(res(True)) < 1e-6):
            log.finding("PQ-prolate")
            continue
        log.holds("Berryman self-consistent moduli solve the self-consistency equations", good, K=K, G=G, X=X, Alpha=A, got=got)
        if np.all(A <= 1):
            log.holds("self-consistent moduli lie within the bounds", 1 / np.sum(X / K) * (1 - 1e-7) <= got[0] <= np.sum(X * K) * (1 + 1e-7)
                      and 1 / np.sum(X / G) * (1 - 1e-7) <= got[1] <= np.sum(X * G) * (1 + 1e-7), K=K, G=G, X=X, Alpha=A, got=got)
        p = e.rng.permutation(n)
        g2 = np.array(e("EM.Berryman_sc", K[p], G[p], X[p], A[p]), float).ravel()
        if np.all(A <= 1):
            log.close("self-consistent moduli do not depend on the order of the phases", g2, got, 1e-6)
        if n == 1:
            log.close("single phase", got, (K[0], G[0]), 1e-6)
    if done < 50:
        log.extra["inconclusive:berryman"] = "only %d cases" % done


@relation
def berryman_pores(e, log):
    """rock with pores, well below the concentration at which the frame falls apart: the fixed point of
    the self-consistent scheme, which the iteration of Berryman reaches from the mean of the mixture"""
    for _ in range(log.n(60, 900)):
        n = e.r.int(2, 4)
        K, G = e.r.mineral(n, lo=8, numin=.05, numax=.38)
        j = e.r.int(0, n - 1)
        K[j], G[j] = e.r.pick([2.25, .1, 0.0]), 0.0
        X = e.rng.dirichlet(np.ones(n))
        X[j] *= .25
        X = X / X.sum()
        A = np.clip(E.aspect(e.r, n), .02, 1)
        A = np.where(np.abs(A - 1) < 2e-3, .98, A)
        k, g, top = X @ K, X @ G, X @ G
        for _ in range(600):
            P, Q = E.pq(k, g, K, G, A)
            k2, g2 = np.sum(X * K * P) / np.sum(X * P), np.sum(X * G * Q) / np.sum(X * Q)
            ok = abs(k2 - k) < 1e-11 * k and abs(g2 - g) < 1e-11 * g
            k, g = k2, g2
            if ok or g < .15 * top:
                break
        if not ok or g < .15 * top or k < .05 * (X @ K):
            log.event("berryman_pores: skipped, near the critical concentration")
            continue
        log.event("berryman_pores: judged")
        got = np.array(e("EM.Berryman_sc", K, G, X, A), float).ravel()
        log.close("self-consistent moduli of porous rock", got, (k, g), 1e-5, K=K, G=G, X=X, Alpha=A)


@relation
def berryman_dem(e, log):
    for _ in range(log.n(160, 2500)):
        a, _ = E.bdem_case(e.r)
        K, G, t = e("EM.Berryman_DEM", *a)
        K, G, t = np.asarray(K), np.asarray(G), np.asarray(t)
        Km, Gm, Ki, Gi, al, phi = a
        log.holds("DEM path: as many moduli as fractions", K.shape == G.shape == t.shape and t.ndim == 1, a=a)
        log.holds("DEM path starts at the mineral and reaches the wanted fraction", t[0] == 0 and np.all(np.diff(t) > 0) and t[-1] >= phi - 1e-9, a=a, last=t[-1])
        log.close("DEM path starts at the mineral", (K[0], G[0]), (Km, Gm), 1e-12)
        m = int(np.sum(np.isfinite(K)))
        log.holds("DEM path: numbers up to the fraction the solver reaches, nan from there on", np.all(np.isfinite(K[:m])) and np.all(np.isfinite(G[:m]))
                  and np.all(np.isnan(K[m:])) and np.all(np.isnan(G[m:])), a=a, K=K, G=G)
        if t[-1] >= 1:
            continue
        if al <= 1:
            log.holds("DEM path of oblate inclusions is complete", m == len(t), a=a, K=K)
        if m < len(t):
            log.event("berryman_dem: prolate path ends where the solver gives up (known finding)")
            K, G, t = K[:m], G[:m], t[:m]
            if m < 2:
                continue
        w = E.dem_solve(Km, Gm, Ki, Gi, al, t)
        if w.shape[1] != len(t):
            log.event("berryman_dem: skipped, reference integration failed")
            continue
        s = np.array([[Km], [Gm]])
        err = np.max(np.abs(np.array([K, G]) - w) / (np.abs(w) + 1e-2 * s))
        if not err <= 2e-5 and al > 1:
            w2 = E.dem_solve(Km, Gm, Ki, Gi, al, t, True)
            if w2.shape == w.shape and np.max(np.abs(np.array([K, G]) - w2) / (np.abs(w2) + 1e-2 * s)) <= 2e-5:
                log.finding("PQ-prolate")
                continue
            if w2.shape != w.shape or not np.all(w2 > 0) or np.any(np.abs(np.diff(w2, axis=1)) > .2 * s):
                log.event("berryman_dem: skipped, prolate factors singular on the path (known finding)")
                continue
        log.holds("DEM path solves Berryman's differential equations", err <= 2e-5, err=err, a=a)


@relation
def sc_limits(e, log):
    for _ in range(log.n(15, 200)):
        n = 200
        K, G = e.r.mineral(n)
        z = np.zeros(n)
        for it in (1, 5, 60):
            log.close("self-consistent: no pores, the mineral", np.array(e("EM.SC", z, K, G, it)), np.array([K, G]), T)
        phi = e.r.u(0, .3, n)
        a = np.array(e("EM.SC", phi, K, G, 400))
        b = np.array(e("EM.SC", phi, K, G, 401))
        log.close("self-consistent iteration converges", a, b, 1e-9)
        nu = (3 * a[0] - 2 * a[1]) / (6 * a[0] + 2 * a[1])
        log.close("self-consistent fixed point, bulk", 1 / a[0], 1 / K + phi / a[0] * (1 + .75 * a[0] / a[1]), 1e-6)
        log.holds("self-consistent moduli do not exceed the upper bound", a[0] <= K * (1 - phi) * (1 + 1e-9))
        c = e.cols("EM.SC_flex", n)
        z = np.zeros(len(c["f"]))
        o = {k: c[k] for k in c if k not in ("f", "iter_n")}
        a = e("EM.SC_flex", z, 50, o["Km"], o["Ki"], o["Gm"], o["Gi"])
        log.close("flexible self-consistent: no inclusions, the host", np.array(a), np.array([o["Km"], o["Gm"]]), T)
        c = e.cols("EM.SC_dilute", n)
        f0 = np.zeros(len(c["f"]))
        for mode in ("stress", "strain"):
            a = e.run("EM.SC_dilute", c, dict(mode=mode), f=f0)
            log.close("dilute inclusions: none, normalised moduli are one", np.array(a), np.ones((2, len(f0))), 1e-12)
        s = e.run("EM.SC_dilute", c, dict(mode="stress"))
        t = e.run("EM.SC_dilute", c, dict(mode="strain"))
        log.close("dilute inclusions: stress and strain control", np.array(s) * (2 - np.array(t)), np.ones((2, len(f0))), 1e-8)


# ------------------------------------------------------------------------------- C05
@relation
def cracks(e, log):
    for _ in range(log.n(500, 8000)):
        K, G, Ki, Gi, al, cd = E.crack_in(e.r)
        iso = E.mat9(*(K + 4 * G / 3,) * 3, *(K - 2 * G / 3,) * 3, G, G, G)
        M = iso[0, 0]
        for order in (1, 2):
            for axis in (1, 3):
                C = e("EM.hudson", K, G, Ki, Gi, al, 0.0, order=order, axis=axis)
                log.close("Hudson: no cracks, the background", C, iso, 1e-10, atol=1e-10 * M)
            C3 = e("EM.hudson", K, G, Ki, Gi, al, cd, order=order, axis=3)
            C1 = e("EM.hudson", K, G, Ki, Gi, al, cd, order=order, axis=1)
            log.close("Hudson: crack axis 1 is axis 3 turned by 90 degrees", C1, E.hti_from_vti(np.asarray(C3)), 1e-9, atol=1e-10 * M)
            log.close("Hudson: symmetric stiffness", C3, C3.T, 1e-12)
        C = e("EM.hudson_ortho", K, G, Ki, Gi, [al] * 3, [0.0] * 3)
        log.close("Hudson: no cracks in three sets, the background", C, iso, 1e-10, atol=1e-10 * M)
        C3 = e("EM.hudson", K, G, Ki, Gi, al, cd, order=1, axis=3)
        C = e("EM.hudson_ortho", K, G, Ki, Gi, [al] * 3, [0.0, 0.0, cd])
        log.close("Hudson: one of three sets is the single set", C, C3, 1e-9, atol=1e-10 * M)
        C = e("EM.hudson_ortho", K, G, Ki, Gi, [al] * 3, [cd, 0.0, 0.0])
        log.close("Hudson: first of three sets is the set normal to axis 1", C, e("EM.hudson", K, G, Ki, Gi, al, cd, order=1, axis=1), 1e-9, atol=1e-10 * M)
        C = e("EM.hudson_cone", K, G, Ki, Gi, al, cd, 0.0)
        log.close("Hudson: cone of zero opening is the aligned set", C, C3, 1e-9, atol=1e-9 * M)
        C = e("EM.hudson_cone", K, G, Ki, Gi, al, 0.0, e.r.u(0, 90))
        log.close("Hudson: no cracks on a cone, the background", C, iso, 1e-9, atol=1e-9 * M)
        Kr, Gr = e("EM.hudson_rand", K, G, Ki, Gi, al, 0.0)
        log.close("Hudson: no random cracks, the background", (Kr, Gr), (K, G), 1e-10)
        Kr, Gr = e("EM.hudson_rand", K, G, Ki, Gi, al, cd)
        log.holds("cracks soften the rock", Kr <= K * (1 + 1e-12) and Gr <= G * (1 + 1e-12), K=K, G=G, Ki=Ki, Gi=Gi, al=al, cd=cd)
        log.close("Hudson: bulk modulus of random cracks is the average over the aligned set", K - Kr, (C3[:3, :3] - iso[:3, :3]).sum() / -9, 1e-7, atol=1e-9 * K)
        if al < .9 and Ki < 4 and Ki < .9 * K:
            C = e("EM.Eshelby_Cheng", K, G, 0.0, al, Ki, mat=True)
            log.close("Eshelby-Cheng: no cracks, the background", C, iso, 1e-9, atol=1e-9 * M)
            v = e("EM.Eshelby_Cheng", K, G, .01, al, Ki, mat=False)
            Cm = e("EM.Eshelby_Cheng", K, G, .01, al, Ki, mat=True)
            log.close("Eshelby-Cheng: matrix and vector agree", Cm, E.vti(*np.ravel(v)[:5]), 1e-9, atol=1e-9 * M)
        Kc, Gc = e("EM.OConnell_Budiansky", K, G, 0.0)
        log.close("O'Connell-Budiansky: no cracks, the background", (Kc, Gc), (K, G), 1e-10)
        log.close("crack porosity", e("utils.crack_por", cd, al), 4 * math.pi * al * cd / 3, 1e-10)


@relation
def oconnell_fl(e, log):
    """saturated self-consistent crack model: the returned moduli come from a solution of the
    two published equations (either reading of the second one, see known findings)"""
    from scipy.optimize import fsolve
    done = 0
    for _ in range(log.n(800, 12000)):
        K, G = e.r.mineral(lo=8, numin=.05, numax=.38)
        nu0 = E.nu_of(K, G)
        al = e.r.log(1e-3, .05)
        w = e.r.log(.02, 4)
        Kfl = w * al * K
        cd = e.r.u(.01, .35, sp=[.1, .2, .3])
        sols = []
        for d in (False, True):
            s, info, ok, _m = fsolve(lambda p: E.oc_residual(p[0], p[1], cd, nu0, w, d), (0.2, 0.9), full_output=True, xtol=1e-12)
            if ok != 1 or max(abs(np.array(E.oc_residual(s[0], s[1], cd, nu0, w, d)))) > 1e-8:
                s = None
            sols.append(s)
        if sols[1] is None or sols[0] is None:
            continue
        out = np.array([np.ravel(v)[0] for v in e("EM.OConnell_Budiansky_fl", K, G, Kfl, cd, al)], float)
        done += 1
        want = []
        for nu, D in sols:
            want.append((K * (1 - 16 * (1 - nu ** 2) * cd * D / (9 * (1 - 2 * nu))), G * (1 - 32 / 45 * (1 - nu) * (D + 3 / (2 - nu)) * cd)))
        ok = [np.all(np.abs(out - v) <= 2e-6 * np.array([K, G])) for v in want]
        if not ok[0] and ok[1]:
            log.finding("OConnell-Budiansky-fl")
            log.evals += 1
            log.sig("ocfl", round(out[0], 9))
            continue
        log.holds("saturated cracked moduli solve the O'Connell-Budiansky equations", ok[0], K=K, G=G, Kfl=Kfl, crd=cd, alpha=al, got=out, want=np.array(want))
    if done < 50:
        log.extra["inconclusive:oconnell"] = "only %d cases" % done


# ------------------------------------------------------------------------------- C17
@relation
def conversions(e, log):
    for _ in range(log.n(25, 400)):
        c = e.cols("utils.V", 300)
        vp, vs = e.run("utils.V", c)
        K, G = e("utils.M_from_V", c["rho"], vp, vs)
        s = c["K"] + c["G"]
        log.close("moduli -> velocities -> moduli", np.array([K, G]), np.array([c["K"], c["G"]]), 1e-9, atol=1e-10 * s, **c)
        m = e.cols("utils.M_from_V", 300)
        K, G = e.run("utils.M_from_V", m)
        ok = K + 4 * G / 3 > 0
        vp, vs = e("utils.V", K[ok], G[ok], m["den"][ok])
        log.close("velocities -> moduli -> velocities", np.array([vp, vs]), np.array([m["vp"][ok], m["vs"][ok]]), 1e-8)
        nu = e("utils.poi", c["K"], c["G"])
        lam = e("utils.lame", c["K"], c["G"])
        log.close("Lame and Poisson agree", lam, 2 * (lam + c["G"]) * nu, 1e-9, atol=1e-10 * s)
        log.holds("Poisson ratio within -1 and 1/2", (nu > -1) & (nu <= .5 + 1e-12))
    for _ in range(log.n(400, 5000)):
        a, _ = E._v2c_case(e.r)
        C = e("utils.v_to_c_VTI", *a)
        den = a[-1]
        want = [a[0], a[2], a[3], a[4]]
        got = [math.sqrt(C[2, 2] / den), math.sqrt(C[0, 0] / den), math.sqrt(C[3, 3] / den), math.sqrt(C[5, 5] / den)]
        log.close("VTI stiffness reproduces the axial velocities", got, want, 1e-8)
        w = np.linalg.eigvalsh(np.array([[C[0, 0] + C[3, 3], C[0, 2] + C[3, 3]], [C[0, 2] + C[3, 3], C[2, 2] + C[3, 3]]]) / 2)
        log.close("VTI stiffness reproduces the 45 degree velocity", math.sqrt(w[1] / den), a[1], 1e-7)
        log.close("VTI stiffness is symmetric", C, C.T, 1e-12)
        K, G = e.r.mineral()
        Ci = e("utils.write_iso", K, G)
        log.close("isotropic matrix is unchanged by rotation", rotate(Ci, rotmat(e.r.u(0, 360), e.r.pick([1, 3]))), Ci, 1e-9, atol=1e-9 * (K + G))
        log.close("isotropic matrix is the VTI matrix of isotropic constants", e("utils.write_VTI_matrix", K + 4 * G / 3, K + 4 * G / 3, K - 2 * G / 3, G, G), Ci, 1e-9, atol=1e-10 * (K + G))
        log.close("isotropic matrix is the HTI matrix of isotropic constants", e("utils.write_HTI_matrix", K + 4 * G / 3, K + 4 * G / 3, K - 2 * G / 3, G, G), Ci, 1e-9, atol=1e-10 * (K + G))
        v = E.ti_stiffness(e.r)
        Cv = np.asarray(e("utils.write_VTI_matrix", *v))
        phi = e.r.u(0, 360)
        log.close("VTI matrix is unchanged by rotation about its axis", rotate(Cv, rotmat(phi, 3)), Cv, 1e-9, atol=1e-9 * v[0])
        S = np.linalg.inv(Cv)
        log.close("VTI compliance and stiffness matrices have the same layout", e("utils.write_VTI_compliance", S[0, 0], S[0, 1], S[0, 2], S[2, 2], S[3, 3]), S, 1e-7, atol=1e-9 * abs(S).max())


E.SPECS_swiss = lambda Ks, Gs, phi: E.SPECS["EM.Swiss_cheese"].ref(Ks, Gs, phi)
E.SPECS = __import__("rpmon.engine", fromlist=["SPECS"]).SPECS

REL = {
    "C03": [hs_bounds, vrh_bounds, cripor_ends],
    "C04": [pq_eshelby, swiss, berryman_sc, berryman_dem, sc_limits],
    "C05": [cracks, oconnell_fl],
    "C17": [conversions],
}
