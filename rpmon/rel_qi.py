"""Relations for the quantitative-interpretation instance methods."""
import numpy as np
import pandas as pd
from .rel import relation
from .core import lib, brief
from .models_qi import rock_par, estimate_cem, cement_lines, EC


@relation
def cement_estimate(e, log):
    """the estimated cement volume is the inverse of the constant cement lines"""
    r, rng = e.r, e.rng
    for it in range(log.n(60, 600)):
        p = rock_par(r)
        k = r.int(2, 8)
        seeds = np.sort(r.u(1e-4, .12, k, sp=[.01, .02, .05, .1]))
        seeds = np.unique(np.round(seeds, 6))
        seeds = seeds[np.concatenate([[True], np.diff(seeds) > 1e-3])]
        if len(seeds) < 2:
            continue
        n = r.size(400)
        phi = r.u(.02, p["phi_c"] - seeds[-1] - 1e-3, n, sp=[.1, .2])
        L = cement_lines(p, seeds, phi)
        lo, hi = np.nanmin(L, 0), np.nanmax(L, 0)
        t = r.u(-.3, 1.3, n, sp=[.5])
        Vp = lo + t * (hi - lo)
        if rng.random() < .4:                # neighbours that share a velocity or a porosity, a blocked log
            i = rng.integers(0, n, n // 3)
            j = np.minimum(i + 1, n - 1)
            if rng.random() < .5:
                Vp[j] = Vp[i]
            else:
                phi[j] = phi[i]
            L = cement_lines(p, seeds, phi)
            lo, hi = np.nanmin(L, 0), np.nanmax(L, 0)
            t = (Vp - lo) / (hi - lo)
        form = r.pick(["array", "array", "series", "list"])
        if form == "series":
            idx = rng.permutation(np.arange(n) * 3 + 7)
            a = pd.Series(Vp, index=idx), pd.Series(phi, index=idx)
        elif form == "list":
            a = list(map(float, Vp)), phi
        else:
            a = Vp.copy(), phi.copy()
        sd = list(map(float, seeds)) if r.rng.random() < .5 else seeds.copy()
        log.call("QI.estimate_cem")
        q = lib().QI(*a)
        got = np.asarray(q.estimate_cem(sd, *[p[x] for x in EC]))
        want = estimate_cem(Vp, phi, seeds, p)
        if not log.holds("cement-shape", got.shape == want.shape, got=got, n=n, form=form):
            return
        m = ~np.isnan(want)
        log.event("cement:interpolated", int(np.sum(m & (t > 0) & (t < 1))))
        log.event("cement:clamped", int(np.sum(m & ((t < 0) | (t > 1)))))
        if not log.close("cement-estimate", got[m], want[m], rtol=1e-5, atol=1e-7, Vp=Vp[m], phi=phi[m], seeds=seeds, form=form):
            return
        # a sample without a velocity or a porosity has no estimate, the others keep theirs
        j = int(rng.integers(n))
        V2, f2 = Vp.astype(float).copy(), np.array(phi, float)
        (V2 if rng.random() < .5 else f2)[j] = np.nan
        log.call("QI.estimate_cem")
        g2 = np.asarray(lib().QI(V2, f2).estimate_cem(sd, *[p[x] for x in EC]))
        if not log.holds("cement-missing", g2.shape == (n,) and np.isnan(g2[j]), got=g2[j:j + 1], Vp=V2[j], phi=f2[j]):
            return
        k = np.arange(n) != j
        if not log.close("cement-missing: the others", g2[k], got[k], rtol=1e-9, atol=1e-12):
            return
        mono = np.all(np.diff(L, axis=0) > 1e-6 * L[:-1], axis=0)
        log.holds("cement-range", (got[mono] >= 0) & (got[mono] <= seeds[-1] * (1 + 1e-9)), got=got[mono], phi=phi[mono])


@relation
def logs_kept(e, log):
    """the object carries the logs it was given"""
    r, rng = e.r, e.rng
    QI = lib().QI
    for _ in range(log.n(60, 600)):
        n = r.size(50)
        names = ["Vsh", "Vs", "den", "eff_stress", "TVD"]
        given = {x: r.u(0, 1000, n) for x in names if rng.random() < .6}
        Vp, phi = r.u(1000, 6000, n), r.u(0, .4, n)
        form = r.pick(["array", "list", "series", "number"])
        f = {"array": lambda v: v, "list": lambda v: v.tolist(), "series": lambda v: pd.Series(v, index=np.arange(n) + 7), "number": lambda v: float(v[0])}[form]
        order = list(given)
        rng.shuffle(order)
        q = QI(f(Vp), f(phi), **{x: f(given[x]) for x in order})
        other = QI(f(Vp[::-1]), f(phi[::-1]))
        log.call("QI.QI", 2)
        for x, v in dict(given, Vp=Vp, phi=phi).items():
            w = np.ravel(np.asarray(getattr(q, x), float))
            v = v[:1] if form == "number" else v
            log.holds("the object carries the logs it was given", w.shape == v.shape and np.all(w == v), log=x, given=v, kept=w, form=form)
        for x in names:
            if x not in given:
                log.holds("a log that was not given is absent", getattr(q, x) is None, log=x)
            log.holds("a log that was not given is absent", getattr(other, x) is None, log=x)


REL = {"C23": [cement_estimate, logs_kept]}
