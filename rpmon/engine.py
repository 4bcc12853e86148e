"""Specifications of library functions and the reference-model monitor that runs them."""
import copy, itertools
import numpy as np
from .core import R, Log, fn, flat, brief

SPECS = {}


class Spec:
    """One public function.

    Elem functions work element by element: gen(R, n, opts) draws columns, ref(**columns)
    is the independent model.  Case functions get whole argument lists from cases(R).
    """
    elem = False

    def __init__(self, name, **kw):
        self.name = name
        self.cls, self.func = name.split(".")
        self.rtol = 1e-8
        self.sens = True            # widen the tolerance by the backward error of the inputs
        self.alts = []              # [(finding key, alternative reference)]
        self.size1 = False          # scalar calls return arrays of size 1
        self.nan = "skip"           # rows whose reference is NaN: "skip" or "match"
        self.weight = 1.0           # cost factor for the number of calls
        self.prop = None
        self.scale = False          # compare against the largest entry of the output (matrices)
        self.lists = False          # accepts python lists for its vector arguments
        self.series = True          # accepts pandas Series for its vector arguments
        self.ints = True            # accepts integer arrays
        self.nd = True              # accepts 2-d arrays for its vector arguments
        self.scalars = True         # accepts python scalars for its vector arguments
        self.method = False
        self.tie = True             # rows with simple relations between arguments stay in the domain
        self.atolf = None           # atolf(cols) -> absolute tolerance per output (list)
        self.atol = 0.0             # absolute tolerance of all outputs
        self.absof = ""            # inputs whose size sets the absolute rounding noise of the outputs
        for k, v in kw.items():
            setattr(self, k, v)
        SPECS[name] = self

    def call(self, *a, **k):
        return fn(self.name)(*a, **k)


class Elem(Spec):
    elem = True

    def __init__(self, name, args, gen, ref, vec="", opts=None, **kw):
        self.args = args.split()
        self.gen = gen
        self.ref = ref
        self.vec = vec.split()
        self.opts = opts or {}
        self.optkw = ()             # options passed by keyword
        self.intargs = ()           # scalar integer arguments (iteration counts)
        super().__init__(name, **kw)

    def combos(self):
        ks = list(self.opts)
        for vals in itertools.product(*[self.opts[k] for k in ks]):
            yield dict(zip(ks, vals))

    def build(self, cols, opt):
        """positional + keyword arguments of a call"""
        a, k = [], {}
        for p in self.args:
            if p in self.opts:
                v = opt[p]
                if v is DEFAULT:
                    continue
                if p in self.optkw:
                    k[p] = v
                else:
                    a.append(v)
            else:
                a.append(cols[p])
        return a, k

    def reference(self, cols, opt, ref=None):
        o = {p: self.defaults[p] if opt[p] is DEFAULT else v for p, v in opt.items()}
        return [np.asarray(x) for x in flat((ref or self.ref)(**cols, **o))]

    defaults = {}


class _D:
    value = None

    def __repr__(self):
        return "DEFAULT"

    def __reduce__(self):
        return "DEFAULT"


DEFAULT = _D()


class Case(Spec):
    def __init__(self, name, cases, ref, **kw):
        self.cases = cases          # cases(R) -> (args, kwargs)
        self.ref = ref              # ref(*args, **kwargs) -> outputs
        super().__init__(name, **kw)


# ------------------------------------------------------------------------------------------
def tolerance(spec, want, pert, cols=None):
    """per-element tolerance: relative + backward-error term from perturbed references"""
    tol = []
    for j, w in enumerate(want):
        aw = np.abs(w).astype(float)
        if spec.scale:
            ax = tuple(range(1, aw.ndim)) if spec.elem else None
            m = np.max(np.nan_to_num(aw), axis=ax, keepdims=True) if aw.ndim else aw
            t = spec.rtol * np.maximum(aw, m)
        else:
            t = spec.rtol * aw
        for p in pert:
            d = np.abs(p[j] - w)
            t = t + 30 * np.where(np.isfinite(d), d, 0)
        if spec.absof and cols is not None:
            m = np.max([np.abs(cols[p]) for p in spec.absof.split()], axis=0)
            m = np.reshape(m, np.shape(m) + (1,) * (np.ndim(t) - np.ndim(m)))
            t = t + 1e-12 * m
        if spec.atolf is not None and cols is not None:
            t = t + spec.atolf(cols)[j]
        tol.append(t + spec.atol + 1e-290)
    return tol


def perturbed(spec, cols, opt, rng, k=3, ref=None):
    if not spec.sens:
        return []
    out = []
    for _ in range(k):
        c2 = {}
        for p, v in cols.items():
            if p in spec.intargs or not np.issubdtype(np.asarray(v).dtype, np.floating):
                c2[p] = v
            else:
                c2[p] = v * (1 + 1e-14 * rng.uniform(-1.0, 1.0, np.shape(v)))
        try:
            out.append(spec.reference(c2, opt, ref))
        except Exception:
            pass
    return out


def matches(spec, got, want, tol):
    ok = np.ones(np.shape(got[0])[:1] or (1,), bool)
    res = []
    for g, w, t in zip(got, want, tol):
        gn, wn = np.isnan(g), np.isnan(w)
        with np.errstate(all="ignore"):
            o = (np.abs(g - w) <= t) | (g == w) | (gn & wn)
        if spec.nan == "skip":
            o = o | wn
        if o.ndim > 1:
            o = o.reshape(o.shape[0], -1).all(axis=1)
        res.append(o)
    return res


INTLIKE = 0.5


def scalar_flavour(v, rng, intok):
    k = rng.random()
    if intok and float(v) == int(v) and abs(v) < 2 ** 31 and k < INTLIKE:
        return int(v)
    if k < 0.75:
        return float(v)
    return np.float64(v)


def other_units(spec, rng):
    """{argument: factor} writing the same state in other units of stress, density and length, or None"""
    from .scaling import T, factors
    if spec.name not in T:
        return None
    F = factors(rng)
    return [F(d) if d != "." else 1.0 for d in T[spec.name][0]]


def in_units(spec, cols, rng, whole):
    """part of the rows (or the whole batch) written in other units"""
    for _ in range(1 if whole else 3):
        f = other_units(spec, rng)
        if f is None or (whole and rng.random() > .12):
            return cols
        n = len(next(iter(cols.values())))
        m = np.ones(n, bool) if whole else rng.random(n) < .03
        cols = {p: v if p in spec.intargs else np.where(m, v * dict(zip(spec.args, f)).get(p, 1.0), v) for p, v in cols.items()}
    return cols


def ties(spec, cols, r, rng, opt, share):
    """some rows get an argument that stands in a simple relation to another one: equal, a literal
    multiple of it, or with a literal sum -- where the row stays within the ranges drawn"""
    from .scaling import T
    ps = [p for p in cols if p not in spec.intargs and np.asarray(cols[p]).dtype.kind == "f"]
    if len(ps) < 2 or not spec.tie:
        return cols
    n = len(cols[ps[0]])
    if n < 2:
        return cols
    d = dict(zip(spec.args, T[spec.name][0])) if spec.name in T else {}
    lits = r.own[(r.own > 1e-3) & (r.own < 1e4)]
    out = {p: np.array(v) for p, v in cols.items()}
    hit = np.zeros(n, bool)
    for _ in range(3):
        p = ps[int(rng.integers(len(ps)))]
        qs = [q for q in ps if q != p and d.get(p) == d.get(q)]
        if not qs:
            continue
        q = qs[int(rng.integers(len(qs)))]
        m = (rng.random(n) < share) & ~hit
        if not m.any():
            continue
        k = int(m.sum())
        f = np.where((rng.random(k) < .5) & (lits.size > 0), rng.choice(lits, k) if lits.size else 1.0, 1.0)
        f = np.where(rng.random(k) < .3, 1 / f, f)
        z = cols[q][m] * f
        if d.get(p, "1") == "1" and rng.random() < .3:
            z = np.where(rng.random(k) < .5, f - cols[q][m], z)
        z = z * (1 + rng.choice([0, 0, 1, -1], k) * 10.0 ** rng.uniform(-12, -1.5, k))
        inside = (z >= cols[p].min()) & (z <= cols[p].max())
        idx = np.flatnonzero(m)[inside]
        out[p][idx] = z[inside]
        hit[idx] = True
    if not hit.any():
        return cols
    ok = np.ones(n, bool)
    v = getattr(spec, "valid", None)
    if v is not None:
        ok &= np.broadcast_to(v(out), (n,))
    try:
        for w in spec.reference(out, opt):
            ok &= np.isfinite(np.reshape(np.broadcast_to(w, (n,) + np.shape(w)[1:]), (n, -1))).all(axis=1)
    except Exception:
        return cols
    back = hit & ~ok
    for p in out:
        out[p][back] = np.asarray(cols[p])[back]
    return out


def run_elem_scalar(log: Log, spec: Elem, rng, n):
    combos = list(spec.combos()) or [{}]
    per = max(20, n // len(combos))
    r = R(rng, spec.func)
    for opt in combos:
        cols = in_units(spec, ties(spec, spec.gen(r, per), r, rng, opt, .03), rng, False)
        scalar_batch(log, spec, rng, cols, opt)


def scalar_batch(log, spec, rng, cols, opt):
    """the rows of cols, one call each"""
    want = spec.reference(cols, opt)
    tol = tolerance(spec, want, perturbed(spec, cols, opt, rng), cols)
    rows = []
    f = fn(spec.name)
    for i in range(len(next(iter(cols.values())))):
        row = {p: (int(v[i]) if p in spec.intargs else scalar_flavour(v[i], rng, spec.ints)) for p, v in cols.items()}
        a, k = spec.build(row, opt)
        try:
            o = flat(f(*a, **k))
        except Exception as e:
            if isinstance(e, (ZeroDivisionError, OverflowError)) and not all(np.all(np.isfinite(w[i])) for w in want):
                rows.append([w[i] for w in want])       # undefined for Python numbers
                log.event("model: undefined")
                continue
            log.violate("model", "%s raised %s: %s" % (spec.name, type(e).__name__, e), call=(spec.name, a, k), args=row, opt=opt)
            return
        rows.append(o)
    log.call(spec.name, len(rows))
    judge(log, spec, rows, cols, opt, want, tol, rng)


def judge(log, spec, rows, cols, opt, want, tol, rng):
    n = len(rows)
    got = []
    for j in range(len(want)):
        shape = want[j].shape[1:]
        g = np.empty((n,) + shape, dtype=complex if np.iscomplexobj(want[j]) else float)
        for i in range(n):
            if len(rows[i]) != len(want):
                log.violate("model", "%s returned %d values, expected %d" % (spec.name, len(rows[i]), len(want)),
                            call=(spec.name,) + tuple(spec.build({p: v[i] for p, v in cols.items()}, opt)))
                return
            v = np.asarray(rows[i][j])
            if v.shape != shape:
                if v.size == 1 and shape == () :
                    v = v.reshape(())
                else:
                    log.violate("model", "%s output %d has shape %s, expected %s" % (spec.name, j, v.shape, shape),
                                call=(spec.name,) + tuple(spec.build({p: c[i] for p, c in cols.items()}, opt)))
                    return
            if np.iscomplexobj(v) and not np.iscomplexobj(want[j]):
                log.violate("model", "%s output %d is complex" % (spec.name, j),
                            call=(spec.name,) + tuple(spec.build({p: c[i] for p, c in cols.items()}, opt)))
                return
            g[i] = v
        got.append(g)
    log.evals += n
    log.event("model:" + spec.name, n)
    verdict(log, spec, got, want, tol, cols, opt, rng, "scalar")


def verdict(log, spec, got, want, tol, cols, opt, rng, how):
    n = len(got[0])
    okj = matches(spec, got, want, tol)
    ok = np.all(okj, axis=0)
    for i in range(min(n, 400)):
        log.sig(spec.name, how, str(opt), tuple(np.round(np.nan_to_num(np.abs(np.ravel(w[i])[:2])), 8) .tolist()[0] if np.size(w[i]) else 0 for w in want))
    if not ok.all():
        left = ~ok
        for key, alt in spec.alts:
            w2 = spec.reference(cols, opt, alt)
            t2 = tolerance(spec, w2, perturbed(spec, cols, opt, rng, ref=alt), cols)
            nan = spec.nan
            spec.nan = "match"
            ok2 = np.all(matches(spec, got, w2, t2), axis=0)
            spec.nan = nan
            m = left & ok2
            if m.any():
                log.finding(key, int(m.sum()))
                left &= ~ok2
        if left.any():
            i = int(np.argmax(left))
            j = [k for k in range(len(okj)) if not okj[k][i]]
            j = j[0] if j else 0
            row = {p: np.asarray(v)[i].item() if np.ndim(v) == 1 else v for p, v in cols.items()}
            log.violate("model", "%s(%s) output %d: got %s, model %s (%d of %d inputs differ, %s call)" % (
                spec.name, ", ".join("%s=%r" % kv for kv in list(row.items()) + list(opt.items())), j,
                brief(got[j][i]), brief(want[j][i]), int(left.sum()), n, how),
                call=(spec.name,) + tuple(spec.build(row, opt)))
            return
    i = 0
    log.sample("model:" + spec.name, "%s -> %s" % (brief({p: np.asarray(v)[i] for p, v in cols.items()}), brief([g[i] for g in got], 3)))


def array_args(spec, r, rng, cols, L):
    """pick which arguments are arrays; the others keep their first value"""
    if not spec.vec:
        return None
    vec = list(spec.vec)
    k = rng.random()
    if k < 0.35:
        sub = vec
    elif k < 0.6:
        sub = [vec[int(rng.integers(len(vec)))]]
    else:
        sub = [v for v in vec if rng.random() < 0.5] or [vec[0]]
    req = getattr(spec, "together", None)     # arguments that must be arrays together
    if req:
        for grp in req:
            if any(p in sub for p in grp):
                sub = list(set(sub) | set(grp))
    must = getattr(spec, "needarray", ())
    sub = list(dict.fromkeys(list(sub) + list(must)))
    return sub


def run_elem_array(log, spec, rng, n, big=3000):
    r = R(rng, spec.func)
    combos = list(spec.combos()) or [{}]
    for it in range(n):
        opt = combos[it % len(combos)]
        L = r.size(big)
        cols = in_units(spec, ties(spec, spec.gen(r, L), r, rng, opt, .03 if rng.random() < .8 else .3), rng, True)
        sub = array_args(spec, r, rng, cols, L)
        if sub is None:
            return
        full = only_valid(spec, cols, sub, L)
        if full is not None and not array_batch(log, spec, rng, full, sub, opt):
            return


def only_valid(spec, cols, sub, L):
    """the rows inside the domain, the other arguments at their first value"""
    full = {p: (v if p in sub else np.full(L, v[0], dtype=np.asarray(v).dtype)) for p, v in cols.items()}
    valid = getattr(spec, "valid", None)
    if valid is None:
        return full
    okm = np.broadcast_to(valid(full), (L,))
    if not okm.any():
        return None
    return {p: v[okm] for p, v in full.items()}


def array_batch(log, spec, rng, full, sub, opt):
    """one call with arrays for sub; False after a violation"""
    L = len(next(iter(full.values())))
    want = spec.reference(full, opt)
    want = [np.broadcast_to(w, (L,) + w.shape[1:] if w.ndim else (L,)) for w in want]
    tol = tolerance(spec, want, perturbed(spec, full, opt, rng), full)
    passed = {p: (full[p].copy() if p in sub else (int(full[p][0]) if p in spec.intargs else scalar_flavour(full[p][0], rng, spec.ints))) for p in full}
    a, k = spec.build(passed, opt)
    try:
        out = flat(fn(spec.name)(*a, **k))
    except Exception as e:
        if isinstance(e, (ZeroDivisionError, OverflowError)) and not all(np.all(np.isfinite(w)) for w in want):
            log.event("model: undefined")
            return True
        log.violate("model", "%s raised %s: %s" % (spec.name, type(e).__name__, e), call=(spec.name, a, k), arrays=sub, opt=opt)
        return False
    log.call(spec.name)
    if len(out) != len(want):
        log.violate("model", "%s returned %d values, expected %d" % (spec.name, len(out), len(want)), call=(spec.name, a, k))
        return False
    got = []
    for j, (o, w) in enumerate(zip(out, want)):
        o = np.asarray(o)
        if o.shape != w.shape:
            if o.size == 1:
                o = np.broadcast_to(o.reshape(()), w.shape)
            else:
                log.violate("model", "%s output %d has shape %s for arrays of length %d" % (spec.name, j, o.shape, L), call=(spec.name, a, k), arrays=sub, opt=opt)
                return False
        got.append(o)
    log.evals += L
    log.event("model-array:" + spec.name, L)
    before = len(log.viol)
    verdict(log, spec, got, want, tol, full, opt, rng, "array of %d" % L)
    return len(log.viol) == before


def perturb_obj(x, rng):
    if isinstance(x, (bool, str, int, type(None))) or isinstance(x, np.bool_):
        return x
    if isinstance(x, float):
        return x * (1 + 1e-14 * rng.uniform(-1.0, 1.0))
    if isinstance(x, np.ndarray):
        if x.dtype.kind == "f":
            d = 1e-14 * rng.uniform(-1.0, 1.0, x.shape)
            if x.ndim == 2 and x.shape[0] == x.shape[1]:
                d = np.triu(d) + np.triu(d, 1).T
            return x * (1 + d)
        return x
    if isinstance(x, (list, tuple)):
        return type(x)(perturb_obj(v, rng) for v in x)
    return x


def compare_case(log, spec, a, k, out, rng):
    """one Case call against its model; returns True if it matched (or is a known finding)"""
    want = [np.asarray(w) for w in flat(spec.ref(*a, **k))]
    pert = []
    if spec.sens:
        for _ in range(2):
            try:
                pert.append([np.asarray(w) for w in flat(spec.ref(*[perturb_obj(x, rng) for x in a], **k))])
            except Exception:
                pass
    tol = tolerance(spec, want, [p for p in pert if len(p) == len(want) and all(np.shape(x) == np.shape(y) for x, y in zip(p, want))])
    out = flat(out)
    log.evals += 1
    log.event("model:" + spec.name)
    if len(out) != len(want):
        log.violate("model", "%s returned %d values, expected %d" % (spec.name, len(out), len(want)), call=(spec.name, a, k))
        return False

    def same(want, tol, nanmatch):
        bad = None
        for j, (o, w, t) in enumerate(zip(out, want, tol)):
            try:
                o = np.asarray(o, dtype=complex if np.iscomplexobj(w) else float)
            except (TypeError, ValueError):
                return j, "not numeric"
            if o.shape != w.shape:
                if o.size == 1 and w.size == 1:
                    o = o.reshape(w.shape)
                elif o.size == 1:
                    o = np.broadcast_to(o.reshape(()), w.shape)
                else:
                    return j, "shape %s, expected %s" % (o.shape, w.shape)
            with np.errstate(all="ignore"):
                okm = (np.abs(o - w) <= t) | (o == w) | (np.isnan(o) & np.isnan(w))
            if not nanmatch:
                okm = okm | np.isnan(w)
            if not np.all(okm):
                i = int(np.argmin(np.ravel(okm)))
                return j, "element %d: got %r, model %r" % (i, np.ravel(o)[i], np.ravel(w)[i])
        return None
    bad = same(want, tol, spec.nan == "match")
    log.sig(spec.name, tuple(np.round(np.nan_to_num(np.abs(np.ravel(w)[:2])), 8).tolist() for w in want[:3]))
    if bad is None:
        log.sample("model:" + spec.name, "%s -> %s" % (brief([a, k], 3), brief(out, 3)))
        return True
    for key, alt in spec.alts:
        w2 = [np.asarray(w) for w in flat(alt(*a, **k))]
        p2 = []
        if spec.sens:
            p2 = [[np.asarray(w) for w in flat(alt(*[perturb_obj(x, rng) for x in a], **k))] for _ in range(2)]
        if same(w2, tolerance(spec, w2, p2), True) is None:
            log.finding(key)
            return True
    log.violate("model", "%s%s output %d %s" % (spec.name, brief(a, 8) + (brief(k) if k else ""), bad[0], bad[1]), call=(spec.name, a, k))
    return False


def run_case(log, spec, rng, n):
    r = R(rng, spec.func)
    for _ in range(n):
        a, k = spec.cases(r)
        u = other_units(spec, rng) if rng.random() < .08 else None
        if u:
            from .scaling import mult
            a = [mult(x, f) for x, f in zip(a, u)] + list(a[len(u):])
        if not case_batch(log, spec, rng, a, k):
            return


def case_batch(log, spec, rng, a, k):
    a0, k0 = copy.deepcopy(a), copy.deepcopy(k)
    try:
        out = fn(spec.name)(*a, **k)
    except Exception as e:
        log.violate("model", "%s raised %s: %s on %s %s" % (spec.name, type(e).__name__, e, brief(a0), brief(k0)), call=(spec.name, a0, k0))
        return False
    log.call(spec.name)
    return compare_case(log, spec, a0, k0, out, rng)


def elem_step(log, spec, rng):
    """one small draw of an element-wise function, judged as arrays and as numbers"""
    combos = list(spec.combos()) or [{}]
    opt = combos[int(rng.integers(len(combos)))]
    r = R(rng, spec.func)
    L = int(rng.integers(1, 5))
    cols = spec.gen(r, L)
    sub = array_args(spec, r, rng, cols, L) if spec.vec else None
    if sub is not None:
        full = only_valid(spec, cols, sub, L)
        if full is not None and not array_batch(log, spec, rng, full, sub, opt):
            return
    if spec.scalars:
        row = {p: v[:1] for p, v in cols.items()}
        v = getattr(spec, "valid", None)
        if v is None or np.all(v(row)):
            scalar_batch(log, spec, rng, row, opt)


def case_step(log, spec, rng):
    a, k = spec.cases(R(rng, spec.func))
    case_batch(log, spec, rng, list(a), k)


def model_tasks(names, q_scalar=4000, q_array=120, q_case=600, t_mult=12, chunks=1):
    """tasks of the reference-model monitor for the given functions"""
    tasks = []
    for nm in names:
        s = SPECS[nm]

        def go(log, rng, s=s):
            m = (t_mult if log.tier == "thorough" else 7) * s.weight
            if s.elem:
                if s.scalars:
                    run_elem_scalar(log, s, rng, int(q_scalar * m))
                if s.vec:
                    run_elem_array(log, s, rng, int(q_array * m), big=3000 if log.tier == "quick" else 20000)
            else:
                run_case(log, s, rng, max(8, int(q_case * m)))
        tasks.append(("model:" + nm, go))

        from .guide import tasks_of
        tasks += tasks_of([(nm, lambda lg, g, s=s: (elem_step if s.elem else case_step)(lg, s, g))], 1500, 12000, 8)
    return tasks
