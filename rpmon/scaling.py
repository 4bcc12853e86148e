"""C25: results do not depend on the units the inputs are written in.

Every function built on physical laws (not on fitted numbers) is called twice: with a draw,
and with the same physical state written in other units of stress, density and length.  The
monitor compares the two results after converting them back.  No model is involved.
"""
import numpy as np
from .core import R, fn, lib, flat, brief
from .engine import SPECS, tolerance, perturbed, perturb_obj
from .models_qi import rock_par, cement_lines, EC
from . import models_em as E

# (mass, length, time) exponents
DIM = {"s": (1, -1, -2), "r": (1, -3, 0), "v": (0, 1, -1), "l": (0, 1, 0), "f": (0, 0, -1), "e": (1, -1, -1), "k": (0, 2, 0), "1": (0, 0, 0), "c": (-1, 1, 2),
       "i": (1, -2, -1), "w": (0, -1, 0)}

# function: (dimensions of the arguments, dimensions of the results); options are given as "."
T = {
    "EM.cripor": ("ss11", "ss"), "EM.HS": ("1ssss.", "ss"), "EM.MT_average": ("1ssssss", "ss"), "EM.PQ": ("ssss1", "11"),
    "EM.Swiss_cheese": ("ss1", "ss"), "EM.SC": ("1ss.", "ss"), "EM.SC_flex": ("1.ssss", "ss"), "EM.SC_dilute": ("ssss1.", "11"),
    "EM.hudson_rand": ("ssss11", "ss"), "EM.Dilute_crack": ("ss1", "ss"), "EM.OConnell_Budiansky": ("ss1", "ss"),
    "EM.VRH": ("1s", "sss"), "EM.PQ_vectorize": ("ssss1", "11"), "EM.hudson": ("ssss11", "s"), "EM.hudson_ortho": ("ssss11", "s"), "EM.hudson_cone": ("ssss111", "s"),
    "EM.Eshelby_Cheng": ("ss11s", "s"),
    "utils.V": ("ssr", "vv"), "utils.poi": ("ss", "1"), "utils.lame": ("ss", "s"), "utils.M_from_V": ("rvv", "ss"),
    "utils.write_VTI_matrix": ("sssss", "s"), "utils.write_HTI_matrix": ("sssss", "s"), "utils.write_matrix": ("sssssssss", "s"), "utils.write_iso": ("ss", "s"),
    "utils.write_VTI_compliance": ("ccccc", "c"), "utils.v_to_c_VTI": ("vvvvvr", "s"),
    "Fluid.Brie": ("ss11", "s"), "Fluid.Gassmann": ("ssss1", "ss"), "Fluid.Gassmann_sub": ("1ssss", "s"), "Fluid.vels": ("sssrsr1", "vvr"),
    "Fluid.Gassmann_vels": ("vvrrsrss1", "vv"), "Fluid.Gassmann_approx": ("sss1s", "s"), "Fluid.Biot_HF": ("ssssrr11", "vvv"),
    "Fluid.Geertsma_Smit_HF": ("ssssrr11", "vv"), "Fluid.Geertsma_Smit_LF": ("vvf1rke", "v"), "Fluid.Mavko_Jizba": ("vvvvsrrs1", "ssvv"),
    "Fluid.Brown_Korringa_dry2sat": ("csss1", "c"), "Fluid.Brown_Korringa_sat2dry": ("csss1", "c"), "Fluid.Brown_Korringa_sub": ("sssss1", "sc"), "Fluid.Squirt_anisotropic": ("cc", "c"),
    "Fluid.Biot": ("ssssrre1kl1f", "vvv111"), "Fluid.White_Dutta_Ode": ("sss1rrrsseekl1f", "vws"),
    "GM.silty_shale": ("1ssss", "ss"), "GM.shaly_sand": ("11ssss", "ss"), "GM.contactcement": ("ssss111.", "ss"), "GM.hertzmindlin": ("ss11s1", "ss"),
    "GM.Walton": ("ss11s1", "ss"), "GM.softsand": ("ss111s1", "ss"), "GM.stiffsand": ("ss111s1", "ss"), "GM.constantcement": ("1ssss111.", "ss"), "GM.MUHS": ("ssss1111.", "ss"),
    "GM.Digby": ("ss11s1", "ss"), "GM.johnson": ("ss1111", "sss"), "GM.pcm": ("1sss1111ss1..1", "ss"), "GM.vpcm": ("11sss1111ss1.1", "ss"), "GM.diluting": ("1ss1", "1"),
    "Anisotropy.Thomsen": ("sssssr1", None), "Anisotropy.Thomsen_Tsvankin": ("sssssssss", None), "Anisotropy.Backus": ("lss", "sssss"), "Anisotropy.Backus_log": ("vvrl", "sssssr"),
    "Anisotropy.vel_azi_VTI": ("sr1", "vvv"), "Anisotropy.vel_azi_HTI": ("sr1", "vvv"), "Anisotropy.Bond_trans": ("s11", "s"),
    "AVO.AVO_HTI": ("rrss11", "1"), "AVO.Aki_Richards": ("1vvvvrr", "1111"), "AVO.zoeppritz": ("vvrvvr1", "11"), "AVO.AVO_abe": ("vvrvvr", None), "AVO.EI_ref": ("vvr111", None),
    "AVO.AVO_ortho": ("vv11111rvv11111r1", "11"),
    "Permeability.Kozeny_Carman": ("1l", "k"), "Permeability.Kozeny_Carman_Percolation": ("11l1", "k"), "Permeability.Panda_Lake": ("l1111", "k"), "Permeability.Panda_Lake_cem": ("1l", "k"),
    "Permeability.Revil": ("1l", "k"), "Permeability.Fredrich": ("1l1", "k"), "Permeability.Bernabe": ("11ll", "k"),
    "QI.matrix_modulus": ("111sss", "s"), "QI.den_matrix": ("111rrr", "r"), "QI.normalize": ("s", "1"),
    "QI.screening": ("rssrssrssrs11s1111", "1vvvvvv"), "QI.cst_vels": ("1srs111ssrs11rrr", "vv"), "QI.cal_v_const": ("rssrssrssrs11111", "vv"),
    "Empirical.krief": ("1ss", "sss"),
}


def factors(rng):
    """independent changes of the units of stress, density and length"""
    k = rng.random()
    if k < .35:
        a, b, c = [2.0 ** int(x) for x in rng.integers((-34, -20, -20), (31, 21, 21))]
    elif k < .7:
        a, b, c = 10.0 ** rng.integers(-10, 10), 10.0 ** rng.integers(-3, 4), 10.0 ** rng.integers(-6, 7)
    else:
        a, b, c = np.exp(rng.uniform(-8, 8)), np.exp(rng.uniform(-4, 4)), np.exp(rng.uniform(-6, 6))
    if rng.random() < .2:
        b = c = 1.0
    M = b * c ** 3
    t = np.sqrt(b * c * c / a)
    return lambda d: float(M ** DIM[d][0] * c ** DIM[d][1] * t ** DIM[d][2])


def mult(x, f):
    if f == 1.0 or x is None:
        return x
    if isinstance(x, (list, tuple)):
        return type(x)(mult(v, f) for v in x)
    return x * f


def compare(log, name, o1, o2, dims, F, rtol, call, atols=None):
    ok_all = True
    for j, (x, y) in enumerate(zip(o1, o2)):
        d = dims[j] if len(dims) > 1 else dims[0]
        x, y = np.asarray(x), np.asarray(y) / F(d)
        if x.shape != y.shape:
            log.violate("units", "%s: shape %s, in other units %s" % (name, x.shape, y.shape), call=call)
            return False
        m = np.max(np.abs(x[np.isfinite(x)]), initial=0)
        t = (atols[j] if atols is not None else rtol * m) + (2e-14 + getattr(SPECS.get(name), "atol", 0) if d == "1" else 0)      # ratios: differences of numbers near one
        with np.errstate(all="ignore"):
            ok = (np.abs(x - y) <= t + rtol * np.abs(x) + 1e-300) | (np.isnan(x) & np.isnan(y)) | (x == y)
        if not np.all(ok):
            i = int(np.argmin(np.ravel(ok)))
            log.violate("units", "%s output %d element %d: %r, in other units (converted back) %r; unit factors stress %.6g density %.6g length %.6g" % (
                name, j, i, np.ravel(x)[i], np.ravel(y)[i], F("s"), F("r"), F("l")), call=call)
            return False
    return ok_all


# dimensions of results found from their kind
THOMSEN = {6: "vvv111"}


def out_dims(name, o, a, k):
    if name == "Anisotropy.Thomsen":
        return "vvv111"[:len(o)] if len(o) == 6 else None
    if name == "Anisotropy.Thomsen_Tsvankin":
        return "1" * len(o)
    if name == "AVO.AVO_abe":
        return "1" * len(o)
    if name == "AVO.EI_ref":
        norm = k.get("norm", a[5] if len(a) > 5 else True)
        return "i" * len(o) if norm else None
    return None


def one(log, spec, rng):
    r = R(rng, spec.func)
    name = spec.name
    din, dout = T[name]
    F = factors(rng)
    atols = None
    if spec.elem:
        combos = list(spec.combos()) or [{}]
        opt = combos[int(rng.integers(len(combos)))]
        L = r.size(200)
        cols = spec.gen(r, L)
        valid = getattr(spec, "valid", None)
        sc = spec.scalars and rng.random() < .4 or not spec.vec
        vec = [] if sc else list(spec.vec)
        if sc:
            for v in getattr(spec, "needarray", ()):
                vec.append(v)
        full = {p: (v if p in vec else np.full(L, v[0], dtype=np.asarray(v).dtype)) for p, v in cols.items()}
        if sc and not vec:
            full = {p: v[:1] for p, v in full.items()}
        if valid is not None:
            m = np.broadcast_to(valid(full), (len(next(iter(full.values()))),))
            if not m.any():
                return True
            full = {p: v[m] for p, v in full.items()}
        ref = spec.reference(full, opt)
        tol = tolerance(spec, ref, perturbed(spec, full, opt, rng, k=2), full)
        get = lambda p: full[p].copy() if p in vec else (int(full[p][0]) if p in spec.intargs else float(full[p][0]))
        passed = {p: get(p) for p in full}
        pd_ = {p: d for p, d in zip(spec.args, din)}
        if len(din) != len(spec.args):
            raise ValueError("%s: %d dimensions for %d arguments" % (name, len(din), len(spec.args)))
        other = {p: (v if p in spec.intargs else mult(v, F(pd_[p]))) for p, v in passed.items()}
        a, k = spec.build(passed, opt)
        b, kb = spec.build(other, opt)
        atols = []
        for t, w in zip(tol, ref):
            t = np.where(np.isfinite(t), t, np.inf)
            atols.append(10 * (t if t.shape[:1] == (len(next(iter(full.values()))),) and vec else np.max(t)))
    else:
        a, k = spec.cases(r)
        a = list(a)
        b, kb = [mult(x, F(d)) for x, d in zip(a, din)] + a[len(din):], k
        if spec.sens:               # rounding of the inputs in the other units, carried through the model
            try:
                ref = [np.asarray(w) for w in flat(spec.ref(*a, **k))]
                per = [[np.asarray(w) for w in flat(spec.ref(*[perturb_obj(x, rng) for x in a], **k))] for _ in range(2)]
                atols = [max(1e-9, spec.rtol) * np.max(np.abs(w[np.isfinite(w)]), initial=0) + 30 * np.nan_to_num(np.max([np.abs(p[j] - w) for p in per]), posinf=0)
                         for j, w in enumerate(ref)]
            except Exception:
                pass
    try:
        o1 = flat(fn(name)(*a, **k))
        o2 = flat(fn(name)(*b, **kb))
    except Exception as e:
        log.violate("units", "%s raised %s: %s (unit factors stress %.6g density %.6g length %.6g)" % (name, type(e).__name__, e, F("s"), F("r"), F("l")), call=(name, b, kb))
        return False
    log.call(name, 2)
    dims = dout or out_dims(name, o1, a, k)
    if dims is None:
        log.event("units: not comparable")
        return True
    if len(dims) > 1 and len(dims) != len(o1):
        log.violate("units", "%s returns %d results, %d expected" % (name, len(o1), len(dims)), call=(name, a, k))
        return False
    log.evals += int(sum(np.size(x) for x in o1))
    log.event("units:" + name, int(np.size(o1[0])))
    log.sig(name, round(float(np.log(F("s"))), 3), round(float(np.log(F("l"))), 3), tuple(np.round(np.nan_to_num(np.abs(np.ravel(np.asarray(o1[0])))[:2]), 8)))
    if atols is not None:
        atols = (atols if len(atols) == len(o1) else [max(atols)] * len(o1)) if spec.elem or len(atols) == len(o1) else None
    if atols is not None:
        atols = [np.broadcast_to(t, np.shape(x)) if np.ndim(t) and np.shape(t) == np.shape(x) else np.max(t) for t, x in zip(atols, o1)]
    ok = compare(log, name, o1, o2, dims, F, max(1e-9, spec.rtol), (name, b, kb), atols)
    if ok:
        log.sample("units:" + name, "%s in units of stress %.3g: %s" % (brief(a, 2), F("s"), brief(o2, 2)))
    return ok


def cement(log, rng):
    r = R(rng)
    U = dict(zip(EC, "ssss11ssrs11rrr"))
    for _ in range(log.n(60, 600)):
        p = rock_par(r)
        F = factors(rng)
        seeds = np.array([.005, .02, .05, .08]) * r.u(.8, 1.2)
        phi = r.u(.05, p["phi_c"] - .12, 12)
        L = cement_lines(p, seeds, phi)
        if not np.all(np.diff(L, axis=0) > 1e-6 * L[:-1]):
            continue
        Vp = L[0] + r.u(-.2, 1.2, 12) * (L[-1] - L[0])
        g = np.asarray(lib().QI(Vp, phi).estimate_cem(seeds, *[p[x] for x in EC]))
        h = np.asarray(lib().QI(Vp * F("v"), phi).estimate_cem(seeds, *[p[x] * F(U[x]) if U[x] != "1" else p[x] for x in EC]))
        log.call("QI.estimate_cem", 2)
        edge = np.min(np.abs(L - Vp) / Vp, axis=0) < 1e-9
        log.close("units: cement volume", h[~edge], g[~edge], 1e-6, atol=1e-8, stress=F("s"), density=F("r"))


def solvers(log, rng):
    """iterative solutions: the equations scale, the tolerances of the solvers are relative"""
    r = R(rng)
    for _ in range(log.n(80, 800)):
        a = 10.0 ** rng.uniform(-3, 3)
        n = r.pick([2, 3])
        K, G = r.mineral(n, lo=8, numin=.05, numax=.38)
        X, A = rng.dirichlet(np.ones(n) * 3), r.log(.02, .9, n)
        x = np.ravel(np.asarray(fn("EM.Berryman_sc")(K, G, X, A), float))
        y = np.ravel(np.asarray(fn("EM.Berryman_sc")(K * a, G * a, X, A), float))
        log.call("EM.Berryman_sc", 2)
        log.close("units: self-consistent moduli", y / a, x, 1e-5, stress=a, K=K, G=G)
        K, G = r.mineral(lo=8, numin=.05, numax=.38)
        al = r.log(1e-3, .05)
        Kf, cd = r.log(.05, 2) * al * K, r.u(.02, .25)
        x = np.ravel(np.asarray(fn("EM.OConnell_Budiansky_fl")(K, G, Kf, cd, al), float))
        y = np.ravel(np.asarray(fn("EM.OConnell_Budiansky_fl")(K * a, G * a, Kf * a, cd, al), float))
        log.call("EM.OConnell_Budiansky_fl", 2)
        log.close("units: saturated cracked moduli", y / a, x, 1e-5, stress=a, K=K, G=G, Kf=Kf)
    for _ in range(log.n(12, 120)):
        c = E.bdem_case(r)[0]
        if c[4] > 1:
            continue
        a = 10.0 ** rng.uniform(-1, 2)
        x = np.asarray(fn("EM.Berryman_DEM")(*c)[:2], float)
        y = np.asarray(fn("EM.Berryman_DEM")(*[v * a if j < 4 else v for j, v in enumerate(c)])[:2], float)
        log.call("EM.Berryman_DEM", 2)
        m = min(x.shape[1], y.shape[1])
        if np.asarray(fn("EM.Berryman_DEM")(*c)[2])[-1] >= 1:
            continue
        log.close("units: differential effective medium", y[:, :m] / a, x[:, :m], 1e-4, atol=1e-4 * c[0], stress=a, case=np.array(c))


def tasks(only=None):
    t = []
    for name in T:
        if only and name not in only:
            continue
        s = SPECS[name]

        def go(log, rng, s=s):
            for _ in range(max(20, int(log.n(150, 2000) * min(1, s.weight)))):
                if not one(log, s, rng):
                    return
        t.append(("units:" + name, go))
        from .guide import tasks_of
        t += tasks_of([(name, lambda lg, g, s=s: one(lg, s, g))], 200, 6000)
    if not only:
        t += [("units:cement", cement), ("units:solvers", solvers)] + tasks_of([("cement", cement), ("solvers", solvers)], 60, 1500)
    return t
