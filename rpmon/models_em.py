"""Independent models of bounds, inclusion and crack theories (class EM) and utils."""
import math
import numpy as np
from scipy.integrate import solve_ivp
from .core import R
from .engine import Elem, Case, DEFAULT

pi = np.pi


def nu_of(K, G):
    return (3 * K - 2 * G) / (2 * (3 * K + G))


# --------------------------------------------------------------------------- averages, bounds
def _vrh_case(r: R):
    N = r.pick([1, 2, 2, 3, 3, 4, 5, 8, 20, 60])
    kind = r.rng.random()
    M = np.exp(r.rng.uniform(math.log(0.05), math.log(150), N))
    if kind < 0.2:
        M = np.round(M + 1)
    w = r.rng.dirichlet(np.ones(N) * r.pick([0.3, 1., 5.]))
    if r.rng.random() < 0.2 and N > 1:
        w[int(r.rng.integers(N))] = 0.0
        w = w / w.sum()
    if r.rng.random() < 0.1 and N > 1:
        w = np.zeros(N)
        w[int(r.rng.integers(N))] = 1.0
    if r.rng.random() < 0.1:
        M[:] = M[0]
    if kind > 0.75:      # one row of fractions per sample
        n = r.pick([1, 2, 5, 40])
        if r.rng.random() < .3:
            n = N                # as many samples as constituents, now and then with columns that add to one as well
        w = r.rng.dirichlet(np.ones(N), n)
        if n == N and r.rng.random() < .4:
            w = sum(v * np.eye(N)[r.rng.permutation(N)] for v in r.rng.dirichlet(np.ones(4)))
        return (w, M), {}
    k = r.rng.random()
    if k < 0.3:
        return (list(map(float, w)), list(map(float, M))), {}
    if k < 0.4:
        return (list(map(float, w)), [int(max(1, round(m))) for m in M]), {}
    if k < 0.5:
        return (tuple(map(float, w)), tuple(map(float, M))), {}
    return (w, M), {}


def _vrh(vol, M):
    w, M = np.array(vol, float), np.array(M, float)
    v = (w * M).sum(axis=-1)
    r = 1 / (w / M).sum(axis=-1)
    return v, r, (v + r) / 2


Case("EM.VRH", _vrh_case, _vrh, lists=True)


def _g_cripor(r, n):
    K, G = r.mineral(n)
    phi, phic = r.porosity(n)
    return dict(K0=K, G0=G, phi=phi, phic=phic)


Elem("EM.cripor", "K0 G0 phi phic", _g_cripor,
     lambda K0, G0, phi, phic: (K0 * (phic - phi) / phic, G0 * (phic - phi) / phic), vec="K0 G0 phi", absof="K0 G0")

Elem("EM.cripor_reuss", "M0 Mf phic den",
     lambda r, n: dict(M0=r.log(1, 120, n), Mf=r.log(0.01, 4, n, wide=(1e-6, 200)), phic=r.u(0.0, 1.0, n, sp=[0, 1, 0.4, 0.5])),
     lambda M0, Mf, phic, den: (1 - phic) * M0 + phic * Mf if den else M0 * Mf / ((1 - phic) * Mf + phic * M0),
     opts=dict(den=[DEFAULT, False, True]), optkw=("den",), defaults=dict(den=False), size1=True)


def _g_hs(r, n):
    K1, G1 = r.mineral(n, lo=5)
    t = r.u(0.02, 1.0, n, sp=[1.0, 0.5])
    s = r.u(0.0, 1.0, n, sp=[0.0, 1.0])
    if r.wide:
        c = r.rng.random(n) < .04
        G1 = np.where(c, K1 * r.log(1, 1e5, n), G1)
        t = np.where(r.rng.random(n) < .06, r.log(1e-3, 4, n), t)         # also phases far apart, and a phase 2 with the larger bulk modulus
        s = np.where(r.rng.random(n) < .06, r.log(1e-4, 1, n), s)
    G2 = np.where(s > 0.02, G1 * s, np.where(s > 1e-4, G1 * s, 0.0))
    f = r.u(0, 1, n, sp=[0, 1, 0.5])
    return dict(f=np.where((G2 == 0) & (f > 0.999), 0.999, f), K1=K1, K2=K1 * t, G1=G1, G2=G2)


def _hs(f, K1, K2, G1, G2, bound):
    # Walpole form: stiffness average with the comparison medium of the matrix phase
    if bound == "upper":
        Gm, Km = G1, K1
    else:
        Gm, Km = G2, K2
    a = 4 * Gm / 3
    z = Gm * (9 * Km + 8 * Gm) / (6 * (Km + 2 * Gm))
    K = ((K1 + a) * (K2 + a)) / (f * (K2 + a) + (1 - f) * (K1 + a)) - a
    G = ((G1 + z) * (G2 + z)) / (f * (G2 + z) + (1 - f) * (G1 + z)) - z
    return K, G


Elem("EM.HS", "f K1 K2 G1 G2 bound", _g_hs, _hs, vec="f K1 K2 G1 G2",
     opts=dict(bound=[DEFAULT, "upper", "lower"]), optkw=("bound",), defaults=dict(bound="upper"),
     absof="K1 G1", valid=lambda c: (c["G2"] <= c["G1"]) & (c["K2"] <= 4.01 * c["K1"]) & ((c["G2"] > 0) | (c["f"] <= 0.999)))


def _mt(f, Kmat, Gmat, K1, G1, K2, G2):
    def avg(M, M1, M2, s):
        a1 = 1 / (1 + s * (M1 / M - 1))
        a2 = 1 / (1 + s * (M2 / M - 1))
        return (f * M1 * a1 + (1 - f) * M2 * a2) / (f * a1 + (1 - f) * a2)
    sk = Kmat / (Kmat + 4 * Gmat / 3)
    sg = 6 * (Kmat + 2 * Gmat) / (5 * (3 * Kmat + 4 * Gmat))
    return avg(Kmat, K1, K2, sk), avg(Gmat, G1, G2, sg)


def _g_mt(r, n):
    a, b = r.mineral(n)
    K1, G1 = r.mineral(n)
    K2, G2 = r.mineral(n, lo=1)
    same = r.rng.random(n)
    a, b = np.where(same < .3, K1, np.where(same < .6, K2, a)), np.where(same < .3, G1, np.where(same < .6, G2, b))
    dry = r.rng.random(n) < 0.15
    K2, G2 = np.where(dry & (same < .3), 0.0, K2), np.where(dry & (same < .3), 0.0, G2)
    return dict(f=r.u(0, 1, n, sp=[0, 1, .5]), Kmat=a, Gmat=b, K1=K1, G1=G1, K2=K2, G2=G2)


Elem("EM.MT_average", "f Kmat Gmat K1 G1 K2 G2", _g_mt, _mt, vec="f Kmat Gmat K1 G1 K2 G2",
     valid=lambda c: c["Kmat"] > 0)


# --------------------------------------------------------------------------- inclusions
def depol(alpha, defect=False):
    """theta(alpha) and f(alpha) of Berryman; defect=True keeps 1/cosh instead of arccosh"""
    a = np.asarray(alpha, float)
    with np.errstate(all="ignore"):
        ob = a / (1 - a * a) ** 1.5 * (np.arccos(np.minimum(a, 1)) - a * np.sqrt(np.maximum(1 - a * a, 0)))
        ac = 1 / np.cosh(a) if defect else np.arccosh(np.maximum(a, 1))
        pr = a / np.maximum(a * a - 1, 0) ** 1.5 * (a * np.sqrt(np.maximum(a * a - 1, 0)) - ac)
        th = np.where(a < 1, ob, pr)
        f = a * a * (3 * th - 2) / (1 - a * a)
    return th, f


def pq(Km, Gm, Ki, Gi, alpha, defect=False):
    """Berryman (1980) / Wu (1966) strain concentration factors"""
    Km, Gm, Ki, Gi, alpha = np.broadcast_arrays(*[np.asarray(x, float) for x in (Km, Gm, Ki, Gi, alpha)])
    th, f = depol(alpha, defect)
    A = Gi / Gm - 1
    B = (Ki / Km - Gi / Gm) / 3
    Rr = 3 * Gm / (3 * Km + 4 * Gm)
    s, d = f + th, f - th
    F1 = 1 + A * (1.5 * s - Rr * (1.5 * f + 2.5 * th - 4 / 3))
    F2 = 1 + A * (1 + 1.5 * s - Rr * (1.5 * f + 2.5 * th)) + B * (3 - 4 * Rr) + A * (A + 3 * B) * (1.5 - 2 * Rr) * (s - Rr * (d + 2 * th * th))
    F3 = 1 + A * (1 - s - th / 2 + Rr * s)
    F4 = 1 + A / 4 * (f + 3 * th - Rr * d)
    F5 = A * (Rr * (s - 4 / 3) - f) + B * th * (3 - 4 * Rr)
    F6 = 1 + A * (1 + f - Rr * s) + B * (1 - th) * (3 - 4 * Rr)
    F7 = 2 + A / 4 * (3 * f + 9 * th - Rr * (3 * f + 5 * th)) + B * th * (3 - 4 * Rr)
    F8 = A * (1 - 2 * Rr + f / 2 * (Rr - 1) + th / 2 * (5 * Rr - 3)) + B * (1 - th) * (3 - 4 * Rr)
    F9 = A * ((Rr - 1) * f - Rr * th) + B * th * (3 - 4 * Rr)
    with np.errstate(all="ignore"):
        P = F1 / F2
        Q = (2 / F3 + 1 / F4 + (F4 * F5 + F6 * F7 - F8 * F9) / (F2 * F4)) / 5
    ze = Gm * (9 * Km + 8 * Gm) / (6 * (Km + 2 * Gm))
    sph = alpha == 1
    P = np.where(sph, (Km + 4 * Gm / 3) / (Ki + 4 * Gm / 3), P)
    Q = np.where(sph, (Gm + ze) / (Gi + ze), Q)
    return P, Q


def aspect(r, n, prolate=True, wide=False):
    a = r.log(1e-3, 0.97, n, sp=[0.01, 0.1, 0.5, 0.001])
    k = r.rng.random(n)
    if wide and r.wide:                    # very thin cracks, near-spheres, needles
        k2 = r.rng.random(n)
        a = np.where(k2 < .1, r.log(1e-7, 1e-3, n, sp=[1e-4, 1e-5, 1e-6]), a)
        a = np.where((k2 > .1) & (k2 < .16), r.u(.97, .999, n), a)
    if prolate:
        a = np.where(k < 0.2, r.log(1.03, 100 if wide and r.wide else 10, n, sp=[2.0, 1.2]), a)
    a = np.where(k > 0.85, 1.0, a)
    return a


def _g_pq(r, n):
    Km, Gm = r.mineral(n)
    Ki, Gi = r.mineral(n, lo=0.5)
    k = r.rng.random(n)
    Gi = np.where(k < 0.3, 0.0, Gi)
    Ki = np.where(k < 0.2, r.log(0.001, 4, n), Ki)
    Ki, Gi = np.where(k < 0.08, 0.0, Ki), np.where(k < 0.08, 0.0, Gi)
    return dict(Km=Km, Gm=Gm, Ki=Ki, Gi=Gi, alpha=aspect(r, n, wide=True))


_PQ_ALT = [("PQ-prolate", lambda Km, Gm, Ki, Gi, alpha: pq(Km, Gm, Ki, Gi, alpha, True))]
Elem("EM.PQ", "Km Gm Ki Gi alpha", _g_pq, lambda Km, Gm, Ki, Gi, alpha: pq(Km, Gm, Ki, Gi, alpha), alts=_PQ_ALT)


def _pqv_case(r):
    n = r.pick([1, 2, 3, 4, 7, 30])
    Km, Gm = r.mineral()
    c = _g_pq(r, n)
    al = c["alpha"]
    if r.rng.random() < 0.2:
        al = np.ones(n)
    Ki, Gi = c["Ki"], c["Gi"]
    if r.rng.random() < 0.15:
        al = np.ones(n, int) * r.pick([1, 1, 2])
    return (Km, Gm, Ki, Gi, al), {}


Case("EM.PQ_vectorize", _pqv_case, lambda *a: pq(*a), alts=[("PQ-prolate", lambda *a: pq(*a, defect=True))], lists=False)


def _bf_case(r):
    n = r.pick([2, 3, 5])
    K, G = r.mineral(n)
    if r.rng.random() < .3:          # a fluid or nothing at all among the phases
        j = int(r.rng.integers(n))
        K[j], G[j] = r.pick([0., .02, 2.25, 3.]), 0.
    x = r.rng.dirichlet(np.ones(n))
    ks, gs = r.mineral()
    return ((ks, gs), K, G, x, aspect(r, n)), {}


def _bf(p, K, G, X, Alpha, defect=False):
    P, Q = pq(p[0], p[1], K, G, Alpha, defect)
    return float(np.dot(X, (K - p[0]) * P)), float(np.dot(X, (G - p[1]) * Q))


Case("EM.Berryman_func", _bf_case, _bf, weight=3, alts=[("PQ-prolate", lambda *a: _bf(*a, defect=True))])


def _g_dem(r, n):
    Km, Gm = r.mineral(n)
    Ki, Gi = r.mineral(n, lo=0.5)
    return dict(K=Km, G=Gm, t=r.u(0, 0.9, n, sp=[0, 0.5]), Gi=np.where(r.rng.random(n) < .3, 0., Gi), Ki=Ki, alpha=aspect(r, n))


def _dem_case(r):
    c = _g_dem(r, 1)
    c = {k: float(v[0]) for k, v in c.items()}
    return ([c["K"], c["G"]], c["t"], [c["Gi"], c["Ki"], c["alpha"]]), {}


def _dem(y, t, p, defect=False):
    P, Q = pq(y[0], y[1], p[1], p[0], p[2], defect)
    return float((p[1] - y[0]) * P / (1 - t)), float((p[0] - y[1]) * Q / (1 - t))


Case("EM.DEM", _dem_case, _dem, weight=3, alts=[("PQ-prolate", lambda *a: _dem(*a, defect=True))])

# Swiss cheese, self consistent
Elem("EM.Swiss_cheese", "Ks Gs phi",
     lambda r, n: dict(zip(("Ks", "Gs", "phi"), r.mineral(n) + (r.u(0, 0.6, n, sp=[0, .1, .3], wide=(0, 1)),))),
     lambda Ks, Gs, phi: (4 * Ks * Gs / (4 * Gs + (4 * Gs + 3 * Ks) * phi), Gs * (9 * Ks + 8 * Gs) / (9 * Ks + 8 * Gs + (15 * Ks + 20 * Gs) * phi)),
     vec="phi", outer=("Ks", "Gs"))


def _sc(phi, Ks, Gs, iter_n):
    it = np.asarray(iter_n)
    phi, Ks, Gs, it = np.broadcast_arrays(np.asarray(phi, float), np.asarray(Ks, float), np.asarray(Gs, float), it)
    K, G = Ks.astype(float).copy(), Gs.astype(float).copy()
    for j in range(int(it.max()) if it.size else 0):
        on = j < it
        K2 = 1 / (1 / Ks + phi / K + 0.75 * phi / G)
        G2 = 1 / (1 / Gs + phi * 5 * (3 * K2 + 4 * G) / (G * (9 * K2 + 8 * G)))
        K, G = np.where(on, K2, K), np.where(on, G2, G)
    return K, G


def _g_sc(r, n):
    K, G = r.mineral(n)
    return dict(phi=r.u(0, 0.42, n, sp=[0, .1, .2, .4]), Ks=K, Gs=G, iter_n=r.rng.choice([0, 1, 2, 3, 10, 60, 100], n))


Elem("EM.SC", "phi Ks Gs iter_n", _g_sc, _sc, vec="phi Ks Gs", intargs=("iter_n",), weight=0.4)


def _scflex(f, iter_n, Km, Ki, Gm, Gi):
    """NaN (no verdict) where the iteration has become chaotic: an orbit that a change of 1e-12 in the input moves
    by more than 1e-6 says nothing about the implementation."""
    a = (f, iter_n, Km, Ki, Gm, Gi)
    K, G = _scflex_orbit(*a)
    for d in (1 + 1e-12, 1 - 1e-12):
        K2, G2 = _scflex_orbit(np.asarray(a[0], float) * d, *a[1:])
        with np.errstate(all="ignore"):
            wild = ~((np.abs(K2 - K) <= 1e-6 * np.abs(K)) & (np.abs(G2 - G) <= 1e-6 * np.abs(G)))
        K, G = np.where(wild, np.nan, K), np.where(wild, np.nan, G)
    return K, G


def _scflex_orbit(f, iter_n, Km, Ki, Gm, Gi):
    f, it, Km, Ki, Gm, Gi = np.broadcast_arrays(*[np.asarray(x, float) for x in (f, iter_n, Km, Ki, Gm, Gi)])
    K, G = Km.copy(), Gm.copy()
    for j in range(int(it.max()) if it.size else 0):
        on = j < it
        S1 = K / (K + 4 * G / 3)
        S2 = 6 * (K + 2 * G) / (5 * (3 * K + 4 * G))
        d1, d2 = 1 - S1 * (1 - Ki / K), 1 - S2 * (1 - Gi / G)
        # a step through a pole of the iteration amplifies rounding without limit: no verdict
        pole = on & ((np.abs(d1) < 1e-3) | (np.abs(d2) < 1e-3))
        K2 = np.where(pole, np.nan, Km - f * (Km - Ki) / d1)
        G2 = np.where(pole, np.nan, Gm - f * (Gm - Gi) / d2)
        K, G = np.where(on, K2, K), np.where(on, G2, G)
    return K, G


def _g_scflex(r, n):
    K, G = r.mineral(n, numin=0.02, numax=0.42)
    t = r.log(0.1, 10, n)
    t = np.where(np.abs(t - 1) < 0.02, 0.9, t)
    return dict(f=r.u(0, 0.35, n, sp=[0, .1, .2]), iter_n=r.rng.choice([0, 1, 2, 5, 40, 100], n), Km=K, Ki=K * t, Gm=G, Gi=G * t * r.u(0.8, 1.0, n))


# K_eff == Ki is a removable singularity of the published iteration; keep away from it
Elem("EM.SC_flex", "f iter_n Km Ki Gm Gi", _g_scflex, _scflex, vec="f Km Ki Gm Gi", intargs=("iter_n",), weight=0.4,
     rtol=1e-7, valid=lambda c: (np.abs(c["Ki"] / c["Km"] - 1) > 0.02) & (np.abs(c["Gi"] / c["Gm"] - 1) > 0.02)
     & (c["Ki"] / c["Km"] < 12) & (c["Ki"] / c["Km"] > 0.07) & (c["Gi"] / c["Gm"] < 12) & (c["Gi"] / c["Gm"] > 0.05) & (np.abs(nu_of(c["Km"], c["Gm"]) - 0.2) < .25)
     & np.isfinite(_scflex(**{k: c[k] for k in ("f", "iter_n", "Km", "Ki", "Gm", "Gi")})[0]))


def _scdil(Km, Gm, Ki, Gi, f, mode):
    S1 = Km / (Km + 4 * Gm / 3)
    S2 = 6 * (Km + 2 * Gm) / (5 * (3 * Km + 4 * Gm))
    xk = (Km - Ki) / (Km - S1 * (Km - Ki))
    xg = (Gm - Gi) / (Gm - S2 * (Gm - Gi))
    if mode == "stress":
        return 1 / (1 + f * xk), 1 / (1 + f * xg)
    return 1 - f * xk, 1 - f * xg


def _g_scdil(r, n):
    K, G = r.mineral(n)
    t = r.u(0.0, 5, n, sp=[0.0])
    s = r.u(0.0, 5, n, sp=[0.0])
    t, s = np.where(np.abs(t - 1) < 1e-3, 0.5, t), np.where(np.abs(s - 1) < 1e-3, 0.5, s)
    return dict(Km=K, Gm=G, Ki=K * t, Gi=G * s, f=r.u(0, 0.5, n, sp=[0], wide=(0, 1)))


Elem("EM.SC_dilute", "Km Gm Ki Gi f mode", _g_scdil, _scdil, vec="f Km Gm Ki Gi", opts=dict(mode=["stress", "strain"]),
     valid=lambda c: (np.abs(c["Ki"] / c["Km"] - 1) > 1e-3) & (np.abs(c["Gi"] / c["Gm"] - 1) > 1e-3))


def dem_solve(Km, Gm, Ki, Gi, alpha, t, defect=False):
    """high accuracy integration of Berryman's DEM equations, dense at the times t"""
    def rhs(x, y):
        P, Q = pq(y[0], y[1], Ki, Gi, alpha, defect)
        return [float((Ki - y[0]) * P / (1 - x)), float((Gi - y[1]) * Q / (1 - x))]
    t = np.asarray(t, float)
    s = solve_ivp(rhs, (0, max(float(t[-1]), 1e-12)), [Km, Gm], rtol=1e-10, atol=1e-12, t_eval=np.clip(t, 0, max(float(t[-1]), 1e-12)), method="DOP853")
    return s.y


def bdem_case(r):
    Km, Gm = r.mineral(lo=10)
    k = r.rng.random()
    if k < 0.5:
        Ki, Gi = r.log(0.01, 4), 0.0
    elif k < 0.6:
        Ki, Gi = 0.0, 0.0
    else:
        Ki, Gi = r.mineral()
    al = float(aspect(r, 1)[0])
    al = max(al, 0.05) if Gi == 0 else al
    phi = r.u(0.02, 0.4 if al > 0.2 else 0.15, sp=[0.1, 0.3])
    return (Km, Gm, Ki, Gi, al, phi), {}


# --------------------------------------------------------------------------- cracks
def _hud(K, G, Ki, Gi, alpha):
    lam = K - 2 * G / 3
    M = lam + 2 * G
    kap = (Ki + 4 * Gi / 3) * M / (pi * alpha * G * (lam + G))
    mm = 4 * Gi * (lam + G) / (pi * alpha * G * (3 * lam + 4 * G))
    U1 = 16 * M / (3 * (3 * lam + 4 * G)) / (1 + mm)
    U3 = 4 * M / (3 * (lam + G)) / (1 + kap)
    return lam, M, U1, U3


def vti(C11, C33, C13, C44, C66):
    C = np.zeros((6, 6))
    C[0, 0] = C[1, 1] = C11
    C[2, 2] = C33
    C[0, 1] = C[1, 0] = C11 - 2 * C66
    C[0, 2] = C[2, 0] = C[1, 2] = C[2, 1] = C13
    C[3, 3] = C[4, 4] = C44
    C[5, 5] = C66
    return C


def hti_from_vti(C):
    """exchange of the 1 and 3 axes"""
    p = [2, 1, 0, 5, 4, 3]
    return C[np.ix_(p, p)]


def hudson(K, G, Ki, Gi, alpha, crd, order=1, axis=3):
    lam, M, U1, U3 = _hud(K, G, Ki, Gi, alpha)
    e3, e1 = crd * U3, crd * U1
    C11, C13, C33, C44 = M - lam ** 2 * e3 / G, lam - lam * M * e3 / G, M - M * M * e3 / G, G - G * e1
    if order == 2:
        q = 15 * (lam / G) ** 2 + 28 * lam / G + 28
        C11 += q / 15 * lam ** 2 / M * e3 ** 2
        C13 += q / 15 * lam * e3 ** 2
        C33 += q / 15 * M * e3 ** 2
        C44 += 2 / 15 * G * (3 * lam + 8 * G) / M * e1 ** 2
    C = vti(C11, C33, C13, C44, G)
    return C if axis == 3 else hti_from_vti(C)


def crack_in(r, dry=True):
    K, G = r.mineral(numin=-.08 if r.wide else 0.)
    k = r.rng.random()
    Ki, Gi = (0.0, 0.0) if k < 0.3 else ((r.log(0.01, 4), 0.0) if k < 0.7 else (r.log(0.1, 10, wide=(1e-4, 80)), r.log(0.01, 5, wide=(1e-4, 60))))
    return K, G, Ki, Gi, r.log(1e-4, 0.3, sp=[0.01, 0.001], wide=(1e-6, 1)), r.u(0, 0.15, sp=[0, 0.05, 0.1], wide=(0, 1.5))


def _hudson_case(r):
    a = crack_in(r)
    k = r.rng.random()
    if k < 0.3:
        return a, {}
    return a, dict(order=r.pick([1, 2]), axis=r.pick([1, 3])) if k < 0.8 else r.pick([dict(order=2), dict(axis=1), dict(axis=3), dict(order=1)])


Case("EM.hudson", _hudson_case, hudson, scale=True)


def hudson_rand(K, G, Ki, Gi, alpha, crd, defect=False):
    lam, M, U1, U3 = _hud(K, G, Ki, Gi, alpha)
    mu1 = -2 * G * crd * (3 * U1 + 2 * U3) / (1 if defect else 15)
    Keff = K - K * K * crd * U3 / G
    return Keff, G + mu1


def _crack_cols(r, n):
    K, G = r.mineral(n, numin=-.08 if r.wide else 0.)
    k = r.rng.random(n)
    Ki = np.where(k < .3, 0.0, r.log(0.01, 4, n))
    Gi = np.where(k < .7, 0.0, r.log(0.01, 5, n))
    return dict(K=K, G=G, Ki=Ki, Gi=Gi, alpha=r.log(1e-4, 0.3, n, sp=[0.01, 0.001], wide=(1e-6, 1)), crd=r.u(0, 0.15, n, sp=[0, 0.05, 0.1], wide=(0, 1.5)))


Elem("EM.hudson_rand", "K G Ki Gi alpha crd", _crack_cols, hudson_rand, vec="K G Ki Gi alpha crd", absof="K G",
     alts=[("hudson-rand-G", lambda **k: hudson_rand(defect=True, **k))], valid=lambda c: c["crd"] >= 0)


def hudson_ortho(K, G, Ki, Gi, alpha, crd):
    iso = hudson(K, G, Ki, Gi, 0.1, 0.0)
    C = iso.copy()
    alpha, crd = np.asarray(alpha, float), np.asarray(crd, float)
    for i in range(3):
        d = hudson(K, G, Ki, Gi, alpha[i], crd[i]) - iso        # normals along 3
        p = {0: [2, 1, 0, 5, 4, 3], 1: [0, 2, 1, 3, 5, 4], 2: [0, 1, 2, 3, 4, 5]}[i]
        C = C + d[np.ix_(p, p)]
    return C


def _ortho_case(r):
    K, G, Ki, Gi, _, _ = crack_in(r)
    al = np.array([r.log(1e-3, 0.2, wide=(1e-5, 1)) for _ in range(3)])
    cd = np.array([r.u(0, 0.08, sp=[0, 0.05], wide=(0, .4)) for _ in range(3)])
    if r.rng.random() < 0.3:
        return (K, G, Ki, Gi, list(map(float, al)), list(map(float, cd))), {}
    return (K, G, Ki, Gi, al, cd), {}


Case("EM.hudson_ortho", _ortho_case, hudson_ortho, scale=True, lists=True)


def hudson_cone(K, G, Ki, Gi, alpha, crd, theta, defect=False):
    """azimuthal average of tilted Hudson cracks, by quadrature on the crack compliance"""
    lam, M, U1, U3 = _hud(K, G, Ki, Gi, alpha)
    th = math.radians(theta)
    C = np.zeros((6, 6))
    m = 8                       # trigonometric polynomial of degree 4: exact
    for k in range(m):
        ph = 2 * pi * k / m
        n = np.array([math.sin(th) * math.cos(ph), math.sin(th) * math.sin(ph), math.cos(th)])
        # first-order: dC = -crd/G * [U3 * (C n n)(C n n) + U1 * tangential part]
        I = np.eye(3)
        nn = np.outer(n, n)
        V = lam * I + 2 * G * nn                    # C:nn
        T = np.zeros((3, 3, 3, 3))
        T += U3 / G * np.einsum("ij,kl->ijkl", V, V)
        S = np.einsum("ik,j,l->ijkl", I, n, n) + np.einsum("jk,i,l->ijkl", I, n, n) + np.einsum("il,j,k->ijkl", I, n, n) + np.einsum("jl,i,k->ijkl", I, n, n) - 4 * np.einsum("i,j,k,l->ijkl", n, n, n, n)
        T += U1 * G * S
        pairs = [(0, 0), (1, 1), (2, 2), (1, 2), (0, 2), (0, 1)]
        C += np.array([[T[a + b] for b in pairs] for a in pairs]) / m
    D = vti(M, M, lam, G, G) - crd * C
    D[np.abs(D) < 1e-12 * M] = 0
    if defect:
        s2 = math.sin(th) ** 2
        D[5, 5] -= crd / 2 * G * 3 * U3 * s2 * s2
    return D


def _cone_case(r):
    return crack_in(r) + (r.u(0, 180, sp=[0, 30, 45, 60, 90, 180], wide=(-360, 720)),), {}


Case("EM.hudson_cone", _cone_case, hudson_cone, scale=True, alts=[("hudson-cone-C66", lambda *a: hudson_cone(*a, defect=True))], weight=0.5)


def eshelby_spheroid(nu, alpha):
    """Mura: Eshelby tensor of an oblate spheroid, symmetry axis 3 (Voigt map of pairs)"""
    a = alpha
    s = math.sqrt(1 - a * a)
    Ia = 2 * pi * a * (math.acos(a) - a * s) / s ** 3
    Ic = 4 * pi - 2 * Ia
    I13 = (Ic - Ia) / (1 - a * a)                # a1=1, a3=alpha (Mura's normalisation)
    I11 = pi - I13 / 4
    I33 = (4 * pi / (a * a) - 2 * I13) / 3
    q, rr = 1 / (8 * pi * (1 - nu)), (1 - 2 * nu) / (8 * pi * (1 - nu))
    S = np.zeros((3, 3, 3, 3))
    I2 = np.array([[I11, I11, I13], [I11, I11, I13], [I13, I13, I33]])
    # Mura: I11 (double index) for a spheroid: I1111 -> pi - I13/4 ; I12 = I11
    I1 = np.array([Ia, Ia, Ic])
    ax = np.array([1.0, 1.0, a])
    for i in range(3):
        for j in range(3):
            if i == j:
                S[i, i, i, i] = 3 * q * ax[i] ** 2 * I2[i, i] + rr * I1[i]
            else:
                S[i, i, j, j] = q * ax[j] ** 2 * I2[i, j] - rr * I1[i]
                S[i, j, i, j] = S[i, j, j, i] = q / 2 * (ax[i] ** 2 + ax[j] ** 2) * I2[i, j] + rr / 2 * (I1[i] + I1[j])
    return S


def eshelby_cheng(K, G, phi, alpha, Kf, mat=False, defect=False):
    lam = K - 2 * G / 3
    nu = nu_of(K, G)
    S = eshelby_spheroid(nu, alpha)
    I = np.eye(3)
    C0 = lam * np.einsum("ij,kl->ijkl", I, I) + G * (np.einsum("ik,jl->ijkl", I, I) + np.einsum("il,jk->ijkl", I, I))
    Ci = Kf * np.einsum("ij,kl->ijkl", I, I)
    # Kelvin-Mandel 6x6
    pairs = [(0, 0), (1, 1), (2, 2), (1, 2), (0, 2), (0, 1)]
    w = np.array([1, 1, 1, math.sqrt(2), math.sqrt(2), math.sqrt(2)])

    def km(T):
        return np.array([[T[p + q_] for q_ in pairs] for p in pairs]) * np.outer(w, w)
    c0, ci, s = km(C0), km(Ci), km(S)
    A = np.linalg.inv(np.eye(6) + s @ np.linalg.solve(c0, ci - c0))
    C = (c0 + phi * (ci - c0) @ A) / np.outer(w, w)
    C11, C33, C13, C44, C66 = C[0, 0], C[2, 2], C[0, 2], C[3, 3], C[5, 5]
    if defect:
        c = Kf / (3 * (K - Kf))
        S11, S12, S13, S31, S33 = S[0, 0, 0, 0], S[0, 0, 1, 1], S[0, 0, 2, 2], S[2, 2, 0, 0], S[2, 2, 2, 2]
        D = S33 * S11 + S33 * S12 - 2 * S31 * S13 - (S11 + S12 + S33 - 1 - 3 * c) - c * (S11 + S12 + 2 * (S33 - S13 - S31))
        right = lam * (S31 - S33 + 1)
        C11 = C11 + phi * (right / D - right)
    if mat:
        return vti(C11, C33, C13, C44, C66)
    return np.array([C11, C33, C13, C44, C66])


def _ec_case(r):
    K, G = r.mineral(lo=5, numin=-.08 if r.wide else 0.)
    kf = r.u(0, 3, sp=[0.0, 2.1, 2.25], wide=(0, 200))
    a = (K, G, r.u(0, 0.05, sp=[0, 0.01], wide=(0, .5)), r.log(1e-3, 0.9, sp=[0.1, 0.01, .98, .996, .9984] if r.wide else [.1, .01], wide=(1e-3, .9985)), kf if abs(kf / K - 1) > .1 else 0.)
    return a, r.pick([{}, dict(mat=False), dict(mat=True)])


Case("EM.Eshelby_Cheng", _ec_case, eshelby_cheng, scale=True, rtol=1e-7, alts=[("Eshelby-Cheng-C11", lambda *a, **k: eshelby_cheng(*a, defect=True, **k))], weight=0.6)

Elem("EM.Dilute_crack", "Ks Gs cd", lambda r, n: dict(zip(("Ks", "Gs", "cd"), r.mineral(n) + (r.u(0, 1, n, sp=[0, .1], wide=(0, 20)),))),
     lambda Ks, Gs, cd: (lambda nu: (Ks / (1 + 16 * cd * (1 - nu) * (1 + nu) / (9 * (1 - 2 * nu))), Gs / (1 + 32 * cd * (1 - nu) * (5 - nu) / (45 * (2 - nu)))))(nu_of(Ks, Gs)),
     vec="Ks Gs cd")


def _ob(K0, G0, crd):
    nu = nu_of(K0, G0) * (9 - 16 * crd) / 9
    return K0 - K0 * 16 * crd * (1 - nu * nu) / (9 * (1 - 2 * nu)), G0 - G0 * 32 * crd * (1 - nu) * (5 - nu) / (45 * (2 - nu))


Elem("EM.OConnell_Budiansky", "K0 G0 crd", lambda r, n: dict(zip(("K0", "G0", "crd"), r.mineral(n) + (r.u(0, 0.5, n, sp=[0, .1, .3], wide=(0, 2)),))), _ob, vec="K0 G0 crd")


def oc_residual(nu, D, crd, nu0, w, defect=False):
    e1 = 45 * (nu0 - nu) * (2 - nu) / (16 * (1 - nu * nu) * (D * (1 + 3 * nu0) * (2 - nu) - 2 * (1 - 2 * nu0))) - crd
    c = 9 * (1 - 2 * nu) / (16 * (1 - (nu0 if defect else nu) ** 2))
    e2 = crd * D * D - (crd + c + 3 * w / (4 * pi)) * D + c
    return e1, e2


def _oc_case(r):
    return ((r.u(0.02, 0.4, wide=(-.4, .48)), r.u(0.3, 0.99, wide=(.01, 1))), r.u(0.01, 0.4, wide=(0, 1)), r.u(0.05, 0.42, wide=(-.3, .48)), r.log(0.001, 5, wide=(1e-6, 1e3))), {}


Case("EM.OC_R_funcs", _oc_case, lambda p, crd, nu0, w: oc_residual(p[0], p[1], crd, nu0, w),
     alts=[("OConnell-Budiansky-fl", lambda p, crd, nu0, w: oc_residual(p[0], p[1], crd, nu0, w, True))])

# --------------------------------------------------------------------------- utils
Elem("utils.crack_por", "crd alpha", lambda r, n: dict(crd=r.u(0, 1, n, sp=[0], wide=(0, 50)), alpha=r.log(1e-4, 1, n, wide=(1e-9, 100))),
     lambda crd, alpha: crd * alpha * pi / 0.75, vec="crd alpha")
_kgr = lambda r, n: dict(zip(("K", "G", "rho"), r.mineral(n) + (r.u(0.5, 5, n, sp=[1, 2, 2.65], wide=(1e-3, 25)),)))


def _kgr0(r, n):
    d = _kgr(r, n)
    d["G"] = np.where(r.rng.random(n) < .1, 0., d["G"])
    return d


Elem("utils.V", "K G rho", _kgr0, lambda K, G, rho: (1000 * ((3 * K + 4 * G) / (3 * rho)) ** .5, 1000 * (G / rho) ** .5), vec="K G rho")
_kg = lambda r, n: {k: v for k, v in _kgr0(r, n).items() if k != "rho"}

def _g_poi(r, n):
    d = _kg(r, n)
    if r.wide:
        d["G"] = np.where(r.rng.random(n) < .1, d["K"] * r.log(1e-9, 1e4, n), d["G"])
    return d


Elem("utils.poi", "K G", _g_poi, lambda K, G: nu_of(K, G), vec="K G")
Elem("utils.lame", "K G", _kg, lambda K, G: (3 * K - 2 * G) / 3, vec="K G")


def _g_mv(r, n):
    vp = r.u(1000, 7000, n, sp=[2000, 3000], wide=(1, 20000))
    return dict(den=r.u(0.8, 4, n, sp=[1, 2, 2.65], wide=(1e-3, 25)), vp=vp, vs=vp * r.u(0, 0.85, n, sp=[0, .5]))


Elem("utils.M_from_V", "den vp vs", _g_mv, lambda den, vp, vs: (den * (vp ** 2 - vs ** 2 / 0.75) * 1e-6, den * vs ** 2 * 1e-6), vec="den vp vs")


def cij(r, k):
    return tuple(r.u(-20, 120, sp=[0, 1, 10]) for _ in range(k))


def mat9(C11, C22, C33, C12, C13, C23, C44, C55, C66):
    C = np.diag([C11, C22, C33, C44, C55, C66]).astype(float)
    for (i, j), v in {(0, 1): C12, (0, 2): C13, (1, 2): C23}.items():
        C[i, j] = C[j, i] = v
    return C


Case("utils.write_VTI_matrix", lambda r: (cij(r, 5), {}), vti, scale=True)
Case("utils.write_HTI_matrix", lambda r: (cij(r, 5), {}), lambda C11, C33, C13, C44, C55: mat9(C11, C33, C33, C13, C13, C33 - 2 * C44, C44, C55, C55), scale=True)
Case("utils.write_VTI_compliance", lambda r: (cij(r, 5), {}), lambda S11, S12, S13, S33, S44: mat9(S11, S11, S33, S12, S13, S13, S44, S44, 2 * S11 - 2 * S12), scale=True)
Case("utils.write_matrix", lambda r: (cij(r, 9), {}), mat9, scale=True)
Case("utils.write_iso", lambda r: (r.mineral(), {}), lambda K, G: mat9(*(K + 4 * G / 3,) * 3, *(K - 2 * G / 3,) * 3, G, G, G), scale=True)


def ti_stiffness(r, strength=0.3):
    """stable TI stiffness (C11,C33,C13,C44,C66) with C13+C44>0"""
    if r.wide and r.rng.random() < .12:
        strength = 2 * strength
    while True:
        C33 = r.log(5, 120, wide=(.1, 1000))
        C44 = C33 * r.u(0.08, 0.45, wide=(.01, .6))
        C11 = C33 * (1 + 2 * r.u(-strength * .6, strength, sp=[0]))
        C66 = C44 * (1 + 2 * r.u(-strength * .6, strength, sp=[0]))
        C13 = (C33 - 2 * C44) * r.u(0.6, 1.4, sp=[1.0], wide=(-.5, 2))
        if r.rng.random() < 0.2:
            C33, C44, C11, C66, C13 = [float(round(v, 1)) for v in (C33, C44, C11, C66, C13)]
        if min(C33, C44, C66) > (.002 if r.wide else .2) and C66 < 0.48 * C11 and C13 + C44 > 0.05 * C33 and C13 ** 2 < 0.9 * C33 * (C11 - C66) and C11 > C44 * 1.05 and C33 > C44 * 1.05:
            return C11, C33, C13, C44, C66


def v2c(Vp0, Vp45, Vp90, Vs0, Vsh90, den):
    C11, C33, C44, C66 = den * Vp90 ** 2, den * Vp0 ** 2, den * Vs0 ** 2, den * Vsh90 ** 2
    h = 2 * den * Vp45 ** 2
    C13 = math.sqrt((h - C11 - C44) * (h - C33 - C44)) - C44
    return vti(C11, C33, C13, C44, C66)


def _v2c_case(r):
    C11, C33, C13, C44, C66 = ti_stiffness(r)
    if r.wide and r.rng.random() < .06:
        C13 = -C44 + C33 * r.log(1e-4, .05)
    den = r.u(1.5, 3.2, sp=[2, 2.5])
    A, B = C11 - C44, C33 - C44
    p45 = (0.5 * (C11 + C33) + C44 + 0.5 * math.sqrt((C11 - C33) ** 2 + 4 * (C13 + C44) ** 2)) / 2
    return tuple(math.sqrt(x / den) for x in (C33, p45, C11, C44, C66)) + (den,), {}


Case("utils.v_to_c_VTI", _v2c_case, v2c, scale=True, rtol=1e-7)
