"""Independent models of classes Anisotropy and AVO."""
import itertools
import numpy as np
from .engine import Elem, Case, DEFAULT
from .models_em import ti_stiffness as ti_consts, vti, hti_from_vti, mat9

pi = np.pi


def ti_stiffness(r, strength=0.3):
    return vti(*ti_consts(r, strength))


# ------------------------------------------------------------------------ TI parameters
def _ti_cols(r, n):
    """elastic constants of TI media from velocities and Thomsen-like strengths"""
    C33 = r.log(5, 100, n, sp=[10, 20], wide=(.05, 2000))
    C44 = C33 * r.u(0.1, 0.5, n, wide=(.01, .8))
    C11 = C33 * (1 + 2 * r.u(-0.2, 0.4, n, sp=[0], wide=(-.4, 1.5)))
    C66 = C44 * (1 + 2 * r.u(-0.2, 0.4, n, sp=[0], wide=(-.4, 1.5)))
    d = np.maximum(r.u(-0.15, 0.3, n, sp=[0]), -.45 * (1 - C44 / C33))
    C13 = np.sqrt(2 * d * C33 * (C33 - C44) + (C33 - C44) ** 2) - C44
    return dict(C11=C11, C33=C33, C13=C13, C44=C44, C66=C66)


def _g_thom(r, n):
    return dict(_ti_cols(r, n), den=r.u(1.8, 3.2, n, sp=[2, 2.5], wide=(.05, 20)), theta=r.u(-90, 180, n, sp=[0, 30, 45, 60, 90], wide=(-720, 1080)))


def thomsen(C11, C33, C13, C44, C66, den, theta):
    vp, vs = 1000 * (C33 / den) ** 0.5, 1000 * (C44 / den) ** 0.5
    e, g = C11 / (2 * C33) - 0.5, C66 / (2 * C44) - 0.5
    # (C13+C44)^2-(C33-C44)^2 = (C13+C33)(C13+2C44-C33)
    d = (C13 + C33) * (C13 + 2 * C44 - C33) / (2 * C33 * (C33 - C44))
    t = theta * pi / 180
    s2 = (1 - np.cos(2 * t)) / 2
    return vp * (1 + d * s2 * (1 - s2) + e * s2 * s2), vs + vp ** 2 / vs * (e - d) * s2 * (1 - s2), vs * (1 + g * s2), e, g, d


def _okthom(c):
    return (c["C33"] > 1.2 * c["C44"]) & (c["C33"] + c["C13"] > 0)


Elem("Anisotropy.Thomsen", "C11 C33 C13 C44 C66 den theta", _g_thom, thomsen, vec="theta C11 C33 C13 C44 C66 den", valid=_okthom,
     atolf=lambda c: [0, 0, 0] + [1e-12 * (1 + (np.abs(c["C11"]) + np.abs(c["C13"]) + c["C66"] + c["C44"]) ** 2 / (np.minimum(c["C33"], c["C44"]) * (np.minimum(c["C33"] - c["C44"], c["C33"]))))] * 3)


def _g_tt(r, n):
    C33 = r.log(5, 100, n, sp=[10, 20], wide=(.05, 1e12))
    f = lambda lo, hi: C33 * r.u(lo, hi, n, wide=(.02, 2) if hi > 1 else (.01, .75))
    d = dict(C11=f(.7, 1.6), C22=f(.7, 1.6), C33=C33, C12=f(.05, .6), C13=f(.05, .6), C23=f(.05, .6), C44=f(.1, .5), C55=f(.1, .5), C66=f(.1, .5))
    iso = r.rng.random(n) < 0.1
    for k in ("C44", "C55", "C66"):
        d[k] = np.where(iso, d["C44"], d[k])
    for k in ("C11", "C22"):
        d[k] = np.where(iso, C33, d[k])
    return d


def tsvankin(C11, C22, C33, C12, C13, C23, C44, C55, C66):
    dl = lambda a, b, c: (b + a) * (b + 2 * c - a) / (2 * a * (a - c))
    return (C22 / C33 - 1) / 2, dl(C33, C23, C44), (C66 / C55 - 1) / 2, (C11 / C33 - 1) / 2, dl(C33, C13, C55), (C66 / C44 - 1) / 2, dl(C11, C12, C66)


_T9 = "C11 C22 C33 C12 C13 C23 C44 C55 C66"
Elem("Anisotropy.Thomsen_Tsvankin", _T9, _g_tt, tsvankin, vec=_T9,
     valid=lambda c: (c["C33"] > 1.2 * np.maximum(c["C44"], c["C55"])) & (c["C11"] > 1.2 * c["C66"]),
     atolf=lambda c: [1e-12 * (1 + (sum(c.values()) / np.min(list(c.values()), axis=0)) ** 2)] * 7)


# ------------------------------------------------------------------------ Backus
def backus(V, lamda, G):
    V, lam, G = (np.asarray(x, float) for x in (V, lamda, G))
    w = V / V.sum()
    M = lam + 2 * G
    av = lambda x: float(np.sum(w * x))
    a = 1 / av(1 / M)
    q = av(lam / M)
    # C11 = <4G(lam+G)/M> + a q^2 = <M - lam^2/M> + a q^2
    return av(M - lam * lam / M) + a * q * q, a, a * q, 1 / av(1 / G), av(G)


def layers(r, big=200):
    n = r.size(big)
    n = n if r.rng.random() < 0.9 else 1
    rho = r.u(1.9, 2.9, n, wide=(.9, 6))
    vp = r.u(1.6, 6.5, n, wide=(.3, 9))
    vs = vp * r.u(0.25, 0.68, n, wide=(.02, .82))
    if r.rng.random() < 0.15:
        vp[:], vs[:], rho[:] = vp[0], vs[0], rho[0]
    if r.rng.random() < 0.2:      # strong contrast
        rho[::2], vp[::2], vs[::2] = 1.9, 1.6, 0.3
    return n, rho, vp, vs


def _backus_case(r):
    n, rho, vp, vs = layers(r)
    G = rho * vs ** 2
    lam = rho * vp ** 2 - 2 * G
    V = r.u(0, 1, n, sp=[0, .5, 1]) + (1e-3 if r.rng.random() < 0.8 else 0)
    V[r.int(0, n - 1)] += 0.1
    if r.rng.random() < 0.3:
        V = V / V.sum()
        if r.rng.random() < .5:           # nearly
            V = V * (1 + r.pick([-1, 1]) * 10.0 ** r.plain(-9, -1))
    elif r.rng.random() < 0.3:
        V = V * r.log(1e-3, 1e3)
    if n == 1 and r.rng.random() < 0.5:
        return [float(V[0]), float(lam[0]), float(G[0])], {}
    if r.rng.random() < 0.3:
        V, lam, G = V.tolist(), lam.tolist(), G.tolist()
    return [V, lam, G], {}


Case("Anisotropy.Backus", _backus_case, backus, lists=True)


def backus_log(Vp, Vs, Den, Depth):
    Vp, Vs, Den, Depth = (np.asarray(x, float) for x in (Vp, Vs, Den, Depth))
    h = Depth[1:] - Depth[:-1]
    return tuple(backus(h, Den * (Vp ** 2 - 2 * Vs ** 2), Den * Vs ** 2)) + (float(np.sum(h * Den) / h.sum()),)


def _backus_log_case(r):
    n, rho, vp, vs = layers(r)
    top = r.u(0, 3000, sp=[0])
    dep = top + np.concatenate([[0], np.cumsum(r.log(0.05, 50, n, sp=[1, 10], wide=(1e-4, 5000)))])
    if r.rng.random() < 0.1:
        dep = -dep
    if r.rng.random() < 0.3:
        return [vp.tolist(), vs.tolist(), rho.tolist(), dep.tolist()], {}
    return [vp, vs, rho, dep], {}


Case("Anisotropy.Backus_log", _backus_log_case, backus_log, lists=True, rtol=1e-7)


# ------------------------------------------------------------------------ phase velocities
VO = [[0, 5, 4], [5, 1, 3], [4, 3, 2]]


def tensor4(C):
    t = np.empty((3,) * 4)
    for i, j, k, l in itertools.product(range(3), repeat=4):
        t[i, j, k, l] = C[VO[i][j], VO[k][l]]
    return t


def christoffel(C, den, nvec):
    """sorted eigenvalues of the Christoffel matrix / density and polarisations"""
    t = tensor4(C)
    g = np.einsum("ijkl,nj,nl->nik", t, nvec, nvec)
    w, v = np.linalg.eigh(g)
    return w / den, v


def plane_vel(C, den, ang, out):
    """in-plane P, in-plane S, out-of-plane S for directions n(ang); out = axis normal to the plane"""
    ang = np.asarray(ang, float)
    a = np.atleast_1d(ang).ravel() * pi / 180
    n = np.zeros((a.size, 3))
    if out == 1:        # 1-3 plane, angle from axis 3
        n[:, 0], n[:, 2] = np.sin(a), np.cos(a)
    else:               # 1-2 plane, angle from axis 1
        n[:, 0], n[:, 1] = np.cos(a), np.sin(a)
    t = tensor4(C)
    g = np.einsum("ijkl,nj,nl->nik", t, n, n) / den
    o = {1: 1, 2: 2}[out]
    p = [i for i in range(3) if i != o]
    so = g[:, o, o]
    tr = g[:, p[0], p[0]] + g[:, p[1], p[1]]
    dt = g[:, p[0], p[0]] * g[:, p[1], p[1]] - g[:, p[0], p[1]] ** 2
    R = np.sqrt((g[:, p[0], p[0]] - g[:, p[1], p[1]]) ** 2 + 4 * g[:, p[0], p[1]] ** 2)
    f = lambda x: np.sqrt(x).reshape(ang.shape)
    return f((tr + R) / 2), f((tr - R) / 2), f(so)


def vel_vti(C, Den, azimuth):
    p, sv, sh = plane_vel(C, Den, azimuth, 1)
    return p, sh, sv


def vel_hti(C, Den, azimuth):
    p, sh, sv = plane_vel(C, Den, azimuth, 2)
    return p, sh, sv


def angles(r, lo=-90, hi=360, big=400):
    if r.wide and r.rng.random() < .15:
        lo, hi = -720, 1080
    k = r.rng.random()
    sp = [0, 30, 45, 60, 90, 180]
    if k < 0.25:
        return r.u(lo, hi, sp=sp)
    if k < 0.3:
        return int(r.pick([0, 30, 45, 90]))
    a = r.u(lo, hi, r.size(big), sp=sp)
    return a


def _vti_case(r):
    C = ti_stiffness(r)
    if r.wide and r.rng.random() < .12:      # any coupling a stable solid may have, C13 < -C44 included
        C[0, 2] = C[2, 0] = C[1, 2] = C[2, 1] = r.rng.uniform(-.98, .98) * np.sqrt(C[2, 2] * (C[0, 0] - C[5, 5]))
    return [C, r.u(1.8, 3.2, sp=[2, 2.5]), angles(r)], {}


def _hti_case(r):
    C, d, a = _vti_case(r)[0]
    return [hti_from_vti(C), d, a], {}


Case("Anisotropy.vel_azi_VTI", _vti_case, vel_vti, rtol=1e-7)
Case("Anisotropy.vel_azi_HTI", _hti_case, vel_hti, rtol=1e-7)


def rotate(C, Rm):
    """rotation of the fourth rank tensor: C'_ijkl = R_ip R_jq R_kr R_ls C_pqrs"""
    t = np.einsum("ip,jq,kr,ls,pqrs->ijkl", Rm, Rm, Rm, Rm, tensor4(C), optimize=True)
    o = np.empty((6, 6))
    for (i, j), (k, l) in itertools.product([(0, 0), (1, 1), (2, 2), (1, 2), (0, 2), (0, 1)], repeat=2):
        o[VO[i][j], VO[k][l]] = t[i, j, k, l]
    return o


def rotmat(theta, axis):
    c, s = np.cos(theta * pi / 180), np.sin(theta * pi / 180)
    if axis == 3:
        return np.array([[c, s, 0], [-s, c, 0], [0, 0, 1.0]])
    return np.array([[1.0, 0, 0], [0, c, -s], [0, s, c]])


def bond(C, theta, axis=3):
    return rotate(C, rotmat(theta, axis))


def bond_defect(C, theta, axis=3):
    """known finding: the shear columns of the Bond matrix lack their factor of two"""
    b = rotmat(theta, axis)
    pairs = [(1, 2), (2, 0), (0, 1)]
    M = np.empty((6, 6))
    for i in range(3):
        for j in range(3):
            (m, n), (k, l) = pairs[i], pairs[j]
            M[i, j] = b[i, j] ** 2
            M[i, 3 + j] = b[i, k] * b[i, l]
            M[3 + i, j] = b[m, j] * b[n, j]
            M[3 + i, 3 + j] = b[m, k] * b[n, l] + b[m, l] * b[n, k]
    return M @ C @ M.T


def spd6(r):
    """random symmetric positive definite stiffness (triclinic), or one of the named symmetries"""
    k = r.rng.random()
    if k < 0.35:
        return ti_stiffness(r)
    if k < 0.5:
        return hti_from_vti(ti_stiffness(r))
    if k < 0.65:
        c = {k: float(v[0]) for k, v in _g_tt(r, 1).items()}
        return mat9(**c)
    A = r.rng.standard_normal((6, 6))
    C = (A @ A.T + 6 * np.eye(6)) * r.log(1, 10)
    if k > .93 and r.wide:          # measured tensors are not exactly symmetric
        C = C * (1 + r.log(1e-6, .05) * r.rng.uniform(-1, 1, (6, 6)))
    return C


def bond_case(r):
    C = spd6(r)
    th = r.u(-360, 360, sp=[0, 30, 45, 60, 90, 180, 270], wide=(-1080, 1080)) if r.rng.random() < .9 else int(r.pick([0, 45, 90, -90]))
    k = r.rng.random()
    if k < 0.2:
        return [C, th], {}
    ax = r.pick([1, 3])
    return ([C, th, ax], {}) if k < .6 else ([C, th], dict(axis=ax))


Case("Anisotropy.Bond_trans", bond_case, bond, scale=True, rtol=1e-9, alts=[("Bond-factor-2", bond_defect)])


# ------------------------------------------------------------------------ AVO
def hti_media(r):
    C = ti_stiffness(r, 0.2)
    return hti_from_vti(C)


def _grid_angle(r, hi, big=40):
    k = r.rng.random()
    if k < 0.2:
        return r.u(0, hi, sp=[0, 10, 20, 30], wide=(-85, 85))
    return r.u(0, hi, min(r.size(big), 60), sp=[0, 10, 20, 30], wide=(-85, 85))


def avo_hti(D1, D2, C1, C2, theta, azimuth):
    th = np.atleast_1d(np.asarray(theta, float))[None, :] * pi / 180
    az = np.atleast_1d(np.asarray(azimuth, float))[:, None] * pi / 180

    def med(D, C):
        a, b = np.sqrt(C[2, 2] / D), np.sqrt(C[3, 3] / D)
        e = C[0, 0] / C[2, 2] / 2 - 0.5
        d = (C[0, 2] + C[2, 2]) * (C[0, 2] + 2 * C[4, 4] - C[2, 2]) / (2 * C[2, 2] * (C[2, 2] - C[4, 4]))
        return D, a, b, e, d, C[3, 3] / C[5, 5] / 2 - 0.5
    m1, m2 = med(D1, C1), med(D2, C2)
    rc = lambda x, y: 2 * (y - x) / (x + y)
    Z = 0.5 * rc(m1[0] * m1[1], m2[0] * m2[1])
    k = (2 * (m1[2] + m2[2]) / (m1[1] + m2[1])) ** 2
    da, dmu = rc(m1[1], m2[1]), rc(C1[3, 3], C2[3, 3])
    de, dd, dg = m2[3] - m1[3], m2[4] - m1[4], m2[5] - m1[5]
    c2 = np.cos(az) ** 2
    s2 = np.sin(th) ** 2
    iso = da - k * dmu
    return Z + s2 / 2 * (iso + (dd + 2 * k * dg) * c2) + s2 * np.tan(th) ** 2 / 2 * (da + de * c2 * c2 + dd * c2 * (1 - c2))


def _avo_hti_case(r):
    D1, D2 = r.u(1.9, 2.9, sp=[2, 2.5]), r.u(1.9, 2.9, sp=[2, 2.5])
    C1, C2 = hti_media(r), hti_media(r)
    if r.rng.random() < 0.1:
        C2 = C1.copy()
    return [D1, D2, C1, C2, _grid_angle(r, 75), r.u(-90, 360, sp=[0, 45, 90]) if r.rng.random() < .2 else r.u(-90, 360, min(r.size(40), 60), sp=[0, 45, 90])], {}


Case("AVO.AVO_HTI", _avo_hti_case, avo_hti, sens=False, rtol=1e-8, atol=1e-11, scale=True, lists=False)


def aki(theta, vp1, vp2, vs1, vs2, den1, den2):
    v = [np.asarray(x, float) for x in (vp1, vp2, vs1, vs2, den1, den2)]
    if any(x.ndim for x in v):
        v = [x[:, None] for x in v]
    a1, a2, b1, b2, d1, d2 = v
    t = np.asarray(theta, float) * pi / 180
    rc = lambda x, y: 2 * (y - x) / (x + y)
    ra, rb, rd = rc(a1, a2), rc(b1, b2), rc(d1, d2)
    k = ((b1 + b2) / (a1 + a2)) ** 2
    s2 = np.sin(t) ** 2
    r0 = 0.5 * (ra + rd)
    rpp = 0.5 * (1 - 4 * k * s2) * rd + 0.5 * ra / np.cos(t) ** 2 - 4 * k * s2 * rb
    am, bm = (a1 + a2) / 2, (b1 + b2) / 2
    p = np.sin(t) / a1
    cs = np.sqrt(1 - (p * b1) ** 2)
    x = bm * np.cos(t) * cs / am
    rps = -p * am / (2 * cs) * ((1 - 2 * (bm * p) ** 2 + 2 * x) * rd - 4 * ((bm * p) ** 2 - x) * rb)
    return rpp, rps, r0, 0.5 * ra - 2 * k * (rd + 2 * rb)


def two_layers(r, n=None):
    m = 1 if n is None else n
    wv, ws, wd = (300, 9000), (.03, .86), (.8, 6)
    vp1, vp2 = r.u(1500, 6000, m, sp=[2000, 3000, 2500], wide=wv), r.u(1500, 6000, m, sp=[2000, 3000], wide=wv)
    vs1, vs2 = vp1 * r.u(0.3, 0.67, m, sp=[.5], wide=ws), vp2 * r.u(0.3, 0.67, m, sp=[.5], wide=ws)
    d1, d2 = r.u(1.9, 2.9, m, sp=[2, 2.3], wide=wd), r.u(1.9, 2.9, m, sp=[2, 2.3], wide=wd)
    same = r.rng.random(m)
    vp2, vs2 = np.where(same < .08, vp1, vp2), np.where(same < .08, vs1, vs2)
    d2 = np.where((same < .05) | (same > .95), d1, d2)
    si = r.rng.random() < 0.5
    d1, d2 = (d1 * 1000, d2 * 1000) if si else (d1, d2)
    out = [vp1, vp2, vs1, vs2, d1, d2]
    return [float(x[0]) for x in out] if n is None else out


def _aki_case(r):
    arr = r.rng.random() < 0.5
    L = two_layers(r, r.size(60)) if arr else two_layers(r)
    w = (-89, 89)
    return [r.u(0, 80, sp=[0, 10, 30, 45, 60], wide=w) if r.rng.random() < .3 else r.u(0, 80, min(r.size(80), 200), sp=[0, 10, 30, 45, 60], wide=w)] + L, {}


Case("AVO.Aki_Richards", _aki_case, aki, rtol=1e-9, atol=1e-11, scale=True, sens=False)


def zoep(vp1, vs1, rho1, vp2, vs2, rho2, theta):
    """four boundary conditions solved as a linear system (Aki and Richards scattering matrix)"""
    th = np.asarray(theta, float)
    t = np.atleast_1d(th).ravel() * pi / 180
    p = np.sin(t) / vp1
    with np.errstate(all="ignore"):
        t2, f1, f2 = np.arcsin(p * vp2), np.arcsin(p * vs1), np.arcsin(p * vs2)
    s, c = np.sin, np.cos
    rpp, rps = np.full(t.shape, np.nan), np.full(t.shape, np.nan)
    for i in range(t.size):
        if not np.isfinite(t2[i] + f1[i] + f2[i]):
            continue
        a, b, e, g = t[i], t2[i], f1[i], f2[i]
        M = np.array([[-s(a), -c(e), s(b), c(g)], [c(a), -s(e), c(b), -s(g)],
                      [2 * rho1 * vs1 * s(e) * c(a), rho1 * vs1 * c(2 * e), 2 * rho2 * vs2 * s(g) * c(b), rho2 * vs2 * c(2 * g)],
                      [-rho1 * vp1 * c(2 * e), rho1 * vs1 * s(2 * e), rho2 * vp2 * c(2 * g), -rho2 * vs2 * s(2 * g)]])
        N = np.array([s(a), c(a), 2 * rho1 * vs1 * s(e) * c(a), rho1 * vp1 * c(2 * e)])
        x = np.linalg.solve(M, N)
        rpp[i], rps[i] = x[0], x[1]
    return rpp.reshape(th.shape), rps.reshape(th.shape)


def zoep_defect(vp1, vs1, rho1, vp2, vs2, rho2, theta):
    """known finding: the ray parameter takes the sine of the angle in degrees"""
    th = np.asarray(theta, float)
    p = np.sin(th) / vp1
    with np.errstate(all="ignore"):
        sa = lambda v: np.where(np.abs(p * v) <= 1, p * v, np.nan)
        s2, e, g = sa(vp2), sa(vs1), sa(vs2)
        q1, q2, z1, z2 = np.cos(th * pi / 180) / vp1, np.sqrt(1 - s2 ** 2) / vp2, np.sqrt(1 - e ** 2) / vs1, np.sqrt(1 - g ** 2) / vs2
        a = rho2 * (1 - 2 * g * g) - rho1 * (1 - 2 * e * e)
        b = rho2 * (1 - 2 * g * g) + 2 * rho1 * e * e
        c = rho1 * (1 - 2 * e * e) + 2 * rho2 * g * g
        d = 2 * (rho2 * vs2 ** 2 - rho1 * vs1 ** 2)
        F, H = b * z1 + c * z2, a - d * q2 * z2
        D = (b * q1 + c * q2) * F + (a - d * q1 * z2) * H * p * p
        return ((b * q1 - c * q2) * F - (a + d * q1 * z2) * H * p * p) / D, -2 * q1 * (a * b + c * d * q2 * z2) * p * vp1 / (vs1 * D)


def _zoep_case(r):
    vp1, vp2, vs1, vs2, d1, d2 = two_layers(r)
    return [vp1, vs1, d1, vp2, vs2, d2, r.u(0, 60, sp=[0, 10, 20, 30], wide=(-85, 85)) if r.rng.random() < .4 else r.u(0, 60, min(r.size(40), 60), sp=[0, 10, 30], wide=(-85, 85))], {}


Case("AVO.zoeppritz", _zoep_case, zoep, rtol=1e-7, atol=1e-11, scale=True, alts=[("zoeppritz-degrees", zoep_defect)])


def avo_abe(vp1, vs1, d1, vp2, vs2, d2):
    rc = lambda x, y: 2 * (y - x) / (x + y)
    a, b, d = rc(vp1, vp2), rc(vs1, vs2), rc(d1, d2)
    g = (vs1 + vs2) / (vp1 + vp2)
    nu = lambda p, s: (p * p - 2 * s * s) / (2 * (p * p - s * s))
    n1, n2 = nu(vp1, vs1), nu(vp2, vs2)
    nm = (n1 + n2) / 2
    A = (a + d) / 2
    # Shuey: (B - 2(1+B)(1-2nu)/(1-nu)) A with B A = a/2
    B1 = a / 2 - (2 * A + a) * (1 - 2 * nm) / (1 - nm) + (n2 - n1) / (1 - nm) ** 2
    B2 = a / 2 - 2 * g * g * (d + 2 * b)
    E1 = -d / 2 - g * (d + 2 * b) + g ** 3 * (d / 2 + b)
    E2 = -2 * vs1 / vp1 * (d / 2 + d / (4 * g) + b)
    return np.where(a + d == 0, np.nan, A), np.where(a + d == 0, np.nan, B1), B2, E1, E2


def _g_abe(r, n):
    vp1, vp2, vs1, vs2, d1, d2 = two_layers(r, n)
    return dict(vp1=vp1, vs1=vs1, d1=d1, vp2=vp2, vs2=vs2, d2=d2)


def _okabe(c):
    rc = lambda x, y: 2 * (y - x) / (x + y)
    a, d = rc(c["vp1"], c["vp2"]), rc(c["d1"], c["d2"])
    return (np.abs(a + d) > 1e-6) & (c["vp1"] > 1.45 * c["vs1"]) & (c["vp2"] > 1.45 * c["vs2"])


def _rej(g, ok):
    from .models_gm import _reject
    return lambda r, n: _reject(r, n, g, ok)


Elem("AVO.AVO_abe", "vp1 vs1 d1 vp2 vs2 d2", _rej(_g_abe, _okabe), avo_abe, vec="vp1 vs1 d1 vp2 vs2 d2", valid=_okabe, atolf=lambda c: [1e-9] * 5)


def ei(Vp, Vs, rho, theta, SP, norm=True):
    Vp, Vs, rho = (np.asarray(x, float) for x in (Vp, Vs, rho))
    if Vp.ndim:
        Vp, Vs, rho = Vp[:, None], Vs[:, None], rho[:, None]
    t = np.asarray(theta, float) * pi / 180
    s, c = np.sin(t), np.cos(t)
    with np.errstate(all="ignore"):
        ss = s / Vp * Vs                    # sine of the S angle
        cs2 = 1 - ss * ss
        cs = np.sqrt(cs2)
        ip = isn = 1.0
        if norm:
            mp, ms, mr = Vp.mean(), Vs.mean(), rho.mean()
            ip, isn = mp * mr, ms * mr
            Vp, Vs, rho = Vp / mp, Vs / ms, rho / mr
        lp, ls, lr = np.log(Vp), np.log(Vs), np.log(rho)

        def powers(*t):                     # a factor outside 1e-100..1e100 is near overflow: no statement
            return np.where(np.all([np.abs(x) < 230 for x in np.broadcast_arrays(*t)], axis=0), np.exp(sum(t)), np.nan)
        k = SP * SP
        x = np.sqrt(1 - k * s * s)
        pp = ip * powers(lp / c ** 2, -8 * k * s * s * ls, (1 - 4 * k * s * s) * lr)
        psv = ip * powers(s / x * (4 * s * s * k - 4 * SP * c * x) * ls, -s / x * (1 - 2 * s * s * k + 2 * SP * c * x) * lr)
        y = np.sqrt(1 - ss * ss / k)
        y = np.where(y > 1e-3, y, np.nan)           # grazing: the exponents blow up
        svp = isn * powers(ss / y * (4 * ss * ss - 4 * SP * cs * y) * ls, -ss / y * (1 - 2 * ss * ss + 2 * SP * cs * y) * lr)
        svsv = isn * powers((8 * ss * ss - 1 / cs2) * ls, (4 * ss * ss - 1) * lr)
        shsh = isn * powers((ss * ss / cs2 - 1) * ls, -lr)
    return pp, psv, svp, svsv, shsh


def _ei_case(r):
    arr = r.rng.random() < 0.6
    n = r.size(80) if arr else 1
    vp = r.u(1.5, 6, n, sp=[2, 3], wide=(.3, 9))
    vs = vp * r.u(0.3, 0.67, n, sp=[.5], wide=(.05, .97))
    rho = r.u(1.8, 3, n, sp=[2, 2.5], wide=(.8, 6))
    if r.rng.random() < 0.3:
        vp, vs, rho = vp * 1000, vs * 1000, rho * (1000 if r.rng.random() < .5 else 1)
    SP = float(vs.mean() / vp.mean()) if r.rng.random() < 0.5 else r.u(0.3, 0.75, sp=[.5], wide=(.1, .98))
    th = r.u(0, 70, sp=[0, 10, 30, 45, 60], wide=(-80, 80)) if r.rng.random() < 0.3 else r.u(0, 70, min(r.size(60), 100), sp=[0, 10, 30], wide=(-80, 80))
    if not arr:
        vp, vs, rho = float(vp[0]), float(vs[0]), float(rho[0])
    k = r.rng.random()
    a = [vp, vs, rho, th, SP]
    return (a, {}) if k < 0.3 else ((a + [r.pick([True, False, True, False, 1, 0, np.True_, np.False_])], {}) if k < .6 else (a, dict(norm=r.pick([True, False, True, False, 1, 0, np.True_, np.False_]))))


Case("AVO.EI_ref", _ei_case, ei, rtol=1e-8, sens=True)


def avo_ortho(a1, b1, e11, d11, e12, d12, g1, rho1, a2, b2, e21, d21, e22, d22, g2, rho2, the):
    rc = lambda x, y: 2 * (y - x) / (x + y)
    ra = rc(a1, a2)
    R0 = rc(rho1 * a1, rho2 * a2) / 2
    k = 4 * ((b1 + b2) / (a1 + a2)) ** 2
    rg = rc(rho1 * b1 ** 2, rho2 * b2 ** 2)
    t = the * pi / 180
    s2 = np.sin(t) ** 2
    st = s2 * np.tan(t) ** 2
    f = lambda dd, de, g: R0 + s2 / 2 * (ra - k * rg + 2 * k * g + dd) + st / 2 * (ra + de)
    return f(d22 - d12, e22 - e12, g2 - g1), f(d21 - d11, e21 - e11, 0)


_OA = "a1 b1 e11 d11 e12 d12 g1 rho1 a2 b2 e21 d21 e22 d22 g2 rho2 the"


def _g_ortho(r, n):
    vp1, vp2, vs1, vs2, d1, d2 = two_layers(r, n)
    w = lambda: r.u(-0.2, 0.3, n, sp=[0, .1], wide=(-.5, 2))
    return dict(a1=vp1, b1=vs1, e11=w(), d11=w(), e12=w(), d12=w(), g1=w(), rho1=d1, a2=vp2, b2=vs2, e21=w(), d21=w(), e22=w(), d22=w(), g2=w(), rho2=d2, the=r.u(0, 75, n, sp=[0, 10, 30, 45, 60], wide=(-85, 85)))


Elem("AVO.AVO_ortho", _OA, _g_ortho, avo_ortho, vec=_OA, atolf=lambda c: [1e-10 * (1 + np.tan(c["the"] * pi / 180) ** 2)] * 2)
