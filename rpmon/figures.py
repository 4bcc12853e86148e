"""C24: the diagnostic diagrams carry the data they were given.

The real plotting methods run on the Agg backend; the monitor reads the artists of the
returned figure (curves, point clouds, meshes, colour arrays, colour limits, colormaps,
labels) and compares them with the inputs and with the independent models.  A bystander
figure, current when the method is called, must stay as it was.
"""
import numpy as np
import pandas as pd
import matplotlib
matplotlib.use("Agg")
import matplotlib.pyplot as plt
from matplotlib.collections import PathCollection, QuadMesh
from matplotlib.figure import Figure
from .core import R, lib, brief
from .models_qi import rock_par, off_grid, screening, cst_vels, _SC, _CV, _mix, VELS
from .models_fluid import gassmann


# ------------------------------------------------------------------------ reading a figure
def curves(fig):
    out = []
    for ax in fig.axes:
        for l in ax.get_lines():
            x, y = np.asarray(l.get_xdata(orig=True)), np.asarray(l.get_ydata(orig=True))
            out.append((ax, x.astype(float).ravel(), y.astype(float).ravel(), l))
    return out


def scatters(fig):
    return [(ax, c) for ax in fig.axes for c in ax.collections if isinstance(c, PathCollection)]


def meshes(fig):
    return [(ax, c) for ax in fig.axes for c in ax.collections if isinstance(c, QuadMesh) and hasattr(ax, "_colorbar") is False]


def digest(fig):
    """numbers of a figure, for equality"""
    out = []
    for ax in fig.axes:
        out.append(np.array(ax.get_xlim() + ax.get_ylim(), float))
        for l in ax.get_lines():
            out += [np.asarray(l.get_xdata(), float).ravel(), np.asarray(l.get_ydata(), float).ravel()]
        for c in ax.collections:
            if isinstance(c, (PathCollection, QuadMesh)):
                out.append(np.ma.filled(np.ma.asarray(c.get_offsets(), float), np.nan).ravel())
                if c.get_array() is not None:
                    out.append(np.ma.filled(np.ma.asarray(c.get_array(), float), np.nan).ravel())
                out.append(np.array([x if x is not None else np.nan for x in c.get_clim()], float))
    return out


def same(a, b, rtol=1e-9, atol=1e-7):
    a, b = np.asarray(a, float), np.asarray(b, float)
    if a.shape != b.shape:
        return False
    return bool(np.all((np.abs(a - b) <= rtol * np.abs(b) + atol) | (np.isnan(a) & np.isnan(b))))


def same_fin(a, b, **k):
    """equal where both draw; a NaN end point of either reading is not judged"""
    a, b = np.asarray(a, float), np.asarray(b, float)
    if a.shape != b.shape:
        return False
    m = np.isfinite(a) & np.isfinite(b)
    return np.sum(np.isfinite(a) != np.isfinite(b)) <= 1 and same(a[m], b[m], **k)


def cmap_colours(c):
    t = lambda x: x if x is None else tuple(map(float, x))
    return t(getattr(c, "_rgba_bad", None)), t(getattr(c, "_rgba_under", None)), t(getattr(c, "_rgba_over", None)), c.N, c.name


def cmaps():
    """names of the registered colour maps and their out-of-range colours"""
    reg = getattr(matplotlib.colormaps, "_cmaps", None)
    if reg is None:
        return tuple(matplotlib.colormaps)
    return tuple((k,) + cmap_colours(c) for k, c in reg.items())


class Watch:
    """a bystander figure, current at the call"""

    def __init__(self, rng):
        self.fig, self.ax = plt.subplots()
        self.ax.plot([0, 1], [2, 3])
        self.ax.scatter([0, 1], [1, 1], c=[0, 1])
        self.before = self.state()
        self.rc = dict(matplotlib.rcParams)
        self.maps = cmaps()
        self.nums = set(plt.get_fignums())

    def state(self):
        return ([np.asarray(x).tolist() for x in digest(self.fig)], len(self.fig.axes), self.ax.get_xlabel(), self.ax.get_ylabel(), tuple(self.fig.get_size_inches()))

    def check(self, log, what, fig):
        log.holds("another figure is left alone", self.state() == self.before, what=what)
        log.holds("a new figure is returned", fig is not self.fig and isinstance(fig, Figure), what=what)
        rc = dict(matplotlib.rcParams)
        log.holds("plot settings are left alone", rc == self.rc, what=what)
        log.holds("registered colour maps are left alone", cmaps() == self.maps, what=what)
        plt.close(self.fig)


def match_curves(log, rule, fig, want, styles=None, fin=False):
    """every wanted curve is drawn once, nothing else is drawn as a curve"""
    got = curves(fig)
    ax0 = main_axes(fig)
    got = [g for g in got if g[0] is ax0]
    left = list(range(len(got)))
    eq = same_fin if fin else same
    for j, (x, y) in enumerate(want):
        hit = [i for i in left if same(got[i][1], x) and eq(got[i][2], y)]
        if not log.holds(rule, bool(hit), curve=j, wanted_y=y, drawn=[g[2][:4] for g in got]):
            return False
        if styles and styles[j]:
            h2 = [i for i in hit if got[i][3].get_linestyle() == styles[j]]
            if not log.holds(rule + ": line style", bool(h2), curve=j, style=got[hit[0]][3].get_linestyle()):
                return False
            hit = h2
        left.remove(hit[0])
    return log.holds(rule + ": no other curve", not left, extra=len(left))


def main_axes(fig):
    """the axes with the most artists (the others are colour bars)"""
    return max(fig.axes, key=lambda a: len(a.get_lines()) + len(a.collections) + (100 if not _is_cbar(a) else 0))


def _is_cbar(ax):
    return getattr(ax, "_colorbar", None) is not None or ax.get_label() == "<colorbar>"


def has_cbar(fig, mappable):
    for a in fig.axes:
        cb = getattr(a, "_colorbar", None)
        if cb is not None and cb.mappable is mappable:
            return cb
    return None


def cmap_is(c, want):
    want = matplotlib.colormaps[want] if isinstance(want, str) else want
    t = np.linspace(0, 1, 33)
    return np.allclose(c(t), want(t))


SAND = {0: "green", .5: "orange", 1: "yellow"}
KDE = {0: "white", 1: "yellow"}
CEM = {0: "blue", 1: "red"}


def ends(c, want):
    """the default colormaps, by the colours of documented points"""
    return all(np.allclose(c(float(t))[:3], matplotlib.colors.to_rgb(v), atol=.02) for t, v in want.items())


def check_scatter(log, rule, fig, x, y, c, clim, cmap, label):
    s = [t for t in scatters(fig) if t[0] is main_axes(fig)]
    if not log.holds(rule + ": one point cloud", len(s) == 1, n=len(s)):
        return
    s = s[0][1]
    off = np.ma.filled(np.ma.asarray(s.get_offsets(), float), np.nan)
    if not log.holds(rule + ": one point per sample", off.shape == (len(x), 2), n=off.shape):
        return
    m = np.isfinite(x + y + c)           # a sample with a missing value is not drawn
    drawn = np.isfinite(off).all(axis=1)
    ar = s.get_array()
    ar = np.full(len(x), np.nan) if ar is None or np.size(ar) != len(x) else np.ma.filled(np.ma.asarray(ar, float), np.nan).ravel()
    log.event("points", int(m.sum()))
    log.holds(rule + ": points at the samples", np.all(drawn[m]) and not np.any(drawn & ~np.isfinite(x + y)) and same(off[m, 0], x[m]) and same(off[m, 1], y[m]), x=x, y=y, off=off)
    log.holds(rule + ": colour shows the property", same(ar[m], c[m], 1e-9, 1e-9), c=c, got=ar)
    miss = np.isfinite(x + y) & ~np.isfinite(c) & drawn
    log.holds(rule + ": a sample without the property has no colour", not np.any(np.isfinite(ar[miss])), c=c, got=ar)
    log.holds(rule + ": colour limits", tuple(s.get_clim()) == clim, clim=s.get_clim())
    log.holds(rule + ": colormap", cmap_is(s.cmap, cmap) if not isinstance(cmap, dict) else ends(s.cmap, cmap), cmap=str(cmap))
    cb = has_cbar(fig, s)
    if log.holds(rule + ": colour bar of the points", cb is not None):
        t = cb.ax.get_ylabel() + cb.ax.get_xlabel()
        log.holds(rule + ": colour bar label", label.lower() in t.lower(), label=t)


def labels(log, rule, fig, x, y):
    ax = main_axes(fig)
    log.holds(rule + ": axis labels", x in ax.get_xlabel().lower() and y in ax.get_ylabel().lower(), x=ax.get_xlabel(), y=ax.get_ylabel())


# ------------------------------------------------------------------------------- workloads
def samples(r, rng, n):
    vp = r.u(1600, 6000, n)
    d = dict(phi=r.u(.01, .4, n), Vp=vp, Vs=vp / r.u(1.5, 2.4, n), Vsh=r.u(0, 1, n, sp=[0, 1], wide=(-.15, 1.3)))
    if r.rng.random() < .4 and n > 2:
        for k in d:
            d[k][rng.random(n) < .1] = np.nan
    if r.rng.random() < .4:
        idx = rng.permutation(np.arange(n) * 2 + 5)
        d = {k: pd.Series(v, index=idx) for k, v in d.items()}
    return d


def bounds(r, n):
    phi = np.linspace(1e-7, r.u(.3, .45), n)
    base = r.u(1500, 2500)
    v = [base + r.u(100, 4000) * (1 - phi / phi[-1]) ** r.u(.5, 3) for _ in range(3)]
    if r.rng.random() < .5:
        k = r.int(1, n - 1)
        v[1][phi > phi[k]] = np.nan
        v[2][phi < phi[k]] = np.nan
    return phi, v


arr = lambda x: np.asarray(x, float)


def screening_plot(log, rng):
    r = R(rng, "screening_plot")
    rule = "screening plot"
    for _ in range(log.n(72, 720)):
        d = samples(r, rng, r.pick([2, 3, 17, 200, 1500, 6000]))
        phi, v = bounds(r, r.pick([5, 20, 100, 137]))
        c = r.pick([None, "viridis", "jet", "Greys", matplotlib.colormaps["plasma"], matplotlib.colormaps["cool"].copy(), matplotlib.cm.jet])
        own = cmap_colours(c) if hasattr(c, "N") else None
        w = Watch(rng)
        q = lib().QI(d["Vp"], d["phi"], Vsh=d["Vsh"], Vs=d["Vs"])
        k = {} if c is None else dict(cmap=c)
        keep = {x: arr(y).copy() for x, y in d.items()}
        fig = q.screening_plot(phi, *v, **k)
        log.call("QI.screening_plot")
        w.check(log, rule, fig)
        if own:
            log.holds("the colour map of the caller is left alone", cmap_colours(c) == own, before=own, after=cmap_colours(c))
        match_curves(log, rule + ": bounds drawn", fig, [(phi, v[0]), (phi, v[1]), (phi, v[2])], ["--", "-", "-"])
        check_scatter(log, rule, fig, keep["phi"], keep["Vp"], 1 - keep["Vsh"], (0, 1), c if c is not None else SAND, "sand")
        labels(log, rule, fig, "porosity", "vp")
        untouched(log, rule, d, keep, q)
        plt.close("all")


def untouched(log, rule, d, keep, q):
    ok = all(same(arr(d[x]), keep[x], 0, 0) for x in d)
    ok = ok and same(arr(q.Vp), keep["Vp"], 0, 0) and same(arr(q.phi), keep["phi"], 0, 0)
    log.holds(rule + ": the samples are left alone", ok)


def contours(log, rule, fig, gx, gy, z):
    """whatever contour line is drawn runs where the density has its level"""
    from matplotlib.contour import QuadContourSet
    from scipy.interpolate import RegularGridInterpolator
    f = RegularGridInterpolator((gx, gy), z.T, bounds_error=False, fill_value=None)
    for cs in [c for c in main_axes(fig).collections if isinstance(c, QuadContourSet) and not c.filled]:
        for lev, p in zip(cs.levels, cs.get_paths()):
            if not len(p.vertices):
                continue
            v = p.vertices[p.codes != 79] if p.codes is not None else p.vertices
            log.event("contour:vertices", len(v))
            if not log.holds(rule + ": contour lines at their level of the density", np.abs(f(v) - lev) < 1e-3, level=lev):
                return


def kde_plot(log, rng):
    from kde_diffusion import kde2d
    r = R(rng, "kde_plot")
    rule = "density plot"
    for _ in range(log.n(60, 540)):
        n = r.pick([60, 200, 800, 3000])
        t = rng.random(n)
        vp = 2000 + 3000 * t + rng.normal(0, 150, n)
        vs = 900 + 2200 * (1 - t) + rng.normal(0, 120, n)
        d = dict(phi=.4 - .35 * t + rng.normal(0, .02, n), Vp=vp, Vs=vs)
        if rng.random() < .3:
            d = {k: pd.Series(v, index=rng.permutation(n) + 3) for k, v in d.items()}
        phi, v = bounds(r, 50)
        k = {}
        c = r.pick([None, "viridis", "hot", matplotlib.colormaps["cividis"]])
        if c is not None:
            k["cmap"] = c
        vel = r.pick([None, "Vp", "Vs"])
        if vel:
            k["vels"] = vel
        N = r.pick([None, 32, 64, 128, 64, 32, None, 256])
        if N:
            k["n"] = N
        w = Watch(rng)
        keep = {x: arr(y).copy() for x, y in d.items()}
        q = lib().QI(d["Vp"], d["phi"], Vs=d["Vs"])
        fig = q.kde_plot(phi, *v, **k)
        log.call("QI.kde_plot")
        w.check(log, rule, fig)
        match_curves(log, rule + ": bounds drawn", fig, [(phi, v[0]), (phi, v[1]), (phi, v[2])], ["--", "-", "-"])
        vel = vel or "Vp"
        den, grid, _bw = kde2d(keep["phi"], keep[vel], n=N or 64, limits=None)
        den = np.asarray(den) / np.max(den)
        m = [c_ for a_, c_ in [(a, c_) for a in fig.axes if not _is_cbar(a) for c_ in a.collections] if isinstance(c_, QuadMesh)]
        if log.holds(rule + ": one density mesh", len(m) == 1, n=len(m)):
            z = np.ma.filled(np.ma.asarray(m[0].get_array(), float), np.nan)
            want = np.where(den.T < .0001, 0, den.T)
            edge = np.abs(den.T - .0001) < 1e-9
            ok = z.size == want.size and np.all((np.abs(z.reshape(want.shape) - want) < 1e-8) | edge)
            log.holds(rule + ": normalised density of the samples", ok, vel=vel, n=N)
            log.holds(rule + ": density between 0 and 1", abs(np.nanmax(z) - 1) < 1e-9 and np.nanmin(z) >= 0, lo=np.nanmin(z), hi=np.nanmax(z))
            co = np.asarray(m[0].get_coordinates())
            gx, gy = np.asarray(grid[0]), np.asarray(grid[1])
            if co.shape[:2] == (want.shape[0] + 1, want.shape[1] + 1):
                cx, cy = (co[0, :-1, 0] + co[0, 1:, 0]) / 2, (co[:-1, 0, 1] + co[1:, 0, 1]) / 2
            else:
                cx, cy = co[0, :, 0], co[:, 0, 1]
            log.holds(rule + ": density at porosity and velocity", same(cx, gx, 1e-6, 1e-6) and same(cy, gy, 1e-6, 1e-3), cx=cx, gx=gx, cy=cy, gy=gy)
            contours(log, rule, fig, gx, gy, want)
            log.holds(rule + ": colormap", cmap_is(m[0].cmap, c) if c is not None else ends(m[0].cmap, KDE), cmap=str(c))
            cb = has_cbar(fig, m[0])
            log.holds(rule + ": colour bar of the density", cb is not None)
        labels(log, rule, fig, "porosity", vel.lower())
        untouched(log, rule, d, keep, q)
        plt.close("all")


_CP = "Dqz Kqz Gqz Dsh Ksh Gsh Dc Kc Gc Db Kb phib phib_p phi_c sigma vsh Cn scheme f".split()


def cst_args(r):
    p = rock_par(r)
    p["phib"] = p["phi_c"] - r.u(.01, .15, sp=[.1, .05])
    off_grid(p, "phib")
    pb = [p["phi_c"] - x for x in np.unique(np.round(r.u(.002, .2, r.int(1, 6)), 4))]
    pb = [pb[i] for i in r.rng.permutation(len(pb))] if r.rng.random() < .4 else pb
    p["phib_p"] = r.pick([list, np.array, tuple])(pb)
    K0, G0, D0 = _mix(p)
    s = screening(*[dict(p, phib_p=p["phib"])[x] for x in _SC])
    want = [(s[0], s[3]), (s[0], s[1])]
    for b in pb:
        want.append((s[0], cst_vels(*[dict(p, phi_b=b, K0=K0, G0=G0, D0=D0, phi=s[0])[x] for x in _CV])[0]))
    return p, want


def cst_plot(log, rng):
    r = R(rng, "cst_plot")
    rule = "constant cement plot"
    for _ in range(log.n(120, 1500)):
        p, want = cst_args(r)
        w = Watch(rng)
        o = lib().QI.cst_plot(*[p[x] for x in _CP])
        log.call("QI.cst_plot")
        if not log.holds(rule + ": figure and axes", isinstance(o, tuple) and len(o) == 2 and isinstance(o[0], Figure) and o[1] in o[0].axes):
            return
        fig = o[0]
        w.check(log, rule, fig)
        # the porosity where a line ends may differ by one sample to rounding
        match_curves(log, rule + ": model lines drawn", fig, want, None, fin=True)
        labels(log, rule, fig, "porosity", "vp")
        plt.close("all")


def cement_diag(log, rng):
    r = R(rng, "cement_diag_plot")
    rule = "cement diagnostic plot"
    for _ in range(log.n(84, 960)):
        p, want = cst_args(r)
        n = r.pick([1, 2, 30, 400, 3000])
        d = samples(r, rng, n)
        vc = r.u(0, .12, n, sp=[0, .1])
        if r.rng.random() < .2:              # no estimate for some samples
            vc[rng.random(n) < .3] = np.nan
        vcem = vc.copy() if r.rng.random() < .6 else list(map(float, vc))
        w = Watch(rng)
        keep = {x: arr(y).copy() for x, y in d.items()}
        q = lib().QI(d["Vp"], d["phi"])
        fig = q.cement_diag_plot(vcem, *[p[x] for x in _CP])
        log.call("QI.cement_diag_plot")
        w.check(log, rule, fig)
        match_curves(log, rule + ": model lines drawn", fig, want, None, fin=True)
        check_scatter(log, rule, fig, keep["phi"], keep["Vp"], vc, (0, .1), CEM, "cem")
        labels(log, rule, fig, "porosity", "vp")
        untouched(log, rule, d, keep, q)
        plt.close("all")


def rpt_args(r):
    n, m = r.pick([1, 2, 4, 9, 25]), r.pick([1, 2, 5, 11, 40, 130])
    phi = np.sort(r.u(.02, .38, n))
    phi[0] += 1e-3
    K0, G0 = r.mineral(lo=20, hi=80, numin=.02, numax=.38)
    sw = r.u(0, 1, m, sp=[0, 1])
    if r.rng.random() < .6:
        sw = np.sort(sw)
    Kd = K0 * (1 - phi) ** r.u(2, 5) * .8
    Gd = G0 * (1 - phi) ** r.u(2, 5) * .8
    return dict(Kdry=Kd, Gdry=Gd, K0=K0, D0=r.u(2.4, 2.8, sp=[2.65]), Kb=r.u(2, 3), Db=r.u(1, 1.1, wide=(.7, 1.4)), Khc=r.log(.02, 1.8), Dhc=r.u(.1, .85), phi=phi, sw=sw)


def rpt_want(p):
    IP, PS = np.empty((2, len(p["phi"]), len(p["sw"])))
    for i, s in enumerate(p["sw"]):
        Kf = 1 / (s / p["Kb"] + (1 - s) / p["Khc"])
        Df = s * p["Db"] + (1 - s) * p["Dhc"]
        K, G = gassmann(p["Kdry"], p["Gdry"], p["K0"], Kf, p["phi"])
        rho = p["D0"] * (1 - p["phi"]) + Df * p["phi"]
        vp, vs = VELS(K, G, rho)
        IP[:, i], PS[:, i] = vp * rho, vp / vs
    return IP, PS


RP = "Kdry Gdry K0 D0 Kb Db Khc Dhc phi sw".split()


def rpt(log, rng):
    r = R(rng, "plot_rpt")
    rule = "rock physics template"
    for _ in range(log.n(180, 2400)):
        p = rpt_args(r)
        w = Watch(rng)
        fig = lib().QI.plot_rpt(*[np.copy(p[x]) if isinstance(p[x], np.ndarray) else p[x] for x in RP])
        log.call("QI.plot_rpt")
        w.check(log, rule, fig)
        IP, PS = rpt_want(p)
        want = [(IP[i], PS[i]) for i in range(len(IP))] + [(IP[:, -1], PS[:, -1])]
        match_curves(log, rule + ": template lines drawn", fig, want)
        ax = main_axes(fig)
        log.holds(rule + ": axis labels", "impedance" in ax.get_xlabel().lower() and "vp/vs" in ax.get_ylabel().lower().replace(" ", ""), x=ax.get_xlabel(), y=ax.get_ylabel())
        plt.close("all")


def history(log, rng):
    """several diagrams open at once, drawn in any order: each keeps its own data"""
    r = R(rng)
    for _ in range(log.n(24, 240)):
        figs = []
        for _k in range(r.int(3, 6)):
            kind = r.pick(["screen", "rpt", "cst", "cem"])
            d = samples(r, rng, 12)
            q = lib().QI(d["Vp"], d["phi"], Vsh=d["Vsh"], Vs=d["Vs"])
            if kind == "screen":
                phi, v = bounds(r, 20)
                f = q.screening_plot(phi, *v)
                log.call("QI.screening_plot")
            elif kind == "rpt":
                p = rpt_args(r)
                f = lib().QI.plot_rpt(*[p[x] for x in RP])
                log.call("QI.plot_rpt")
            elif kind == "cst":
                f = lib().QI.cst_plot(*[cst_args(r)[0][x] for x in _CP])[0]
                log.call("QI.cst_plot")
            else:
                f = q.cement_diag_plot(r.u(0, .1, 12), *[cst_args(r)[0][x] for x in _CP])
                log.call("QI.cement_diag_plot")
            log.holds("diagrams: a figure of its own", all(f is not g for g, _ in figs), kind=kind)
            figs.append((f, digest(f)))
            if rng.random() < .3 and figs:
                plt.figure(figs[int(rng.integers(len(figs)))][0].number)
        for f, d0 in figs:
            d1 = digest(f)
            log.holds("diagrams: later diagrams leave earlier ones alone", len(d0) == len(d1) and all(same(a, b, 0, 0) for a, b in zip(d0, d1)))
        plt.close("all")


def tasks():
    return [("figure:" + f.__name__, f) for f in (screening_plot, kde_plot, cst_plot, cement_diag, rpt, history)]
