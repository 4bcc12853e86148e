"""C02: the result for an element depends on that element's inputs only, whatever carries it.

Observed on the real functions: the same numbers are handed over as python scalars, numpy
scalars, 0-d, 1-d, 2-d, strided, reversed, read-only, unaligned, Fortran-ordered and
big-endian-safe float arrays, integer arrays, pandas Series with foreign indexes and lists,
whole, permuted, split, repeated, and with one element poisoned by NaN.  The oracle compares
the library with itself; the independent model only supplies the rounding tolerance.
"""
import numpy as np
import pandas as pd
from .core import R, fn, flat, brief
from .engine import SPECS, tolerance, perturbed, array_args, DEFAULT, scalar_flavour, only_valid
from .guide import tasks_of

# variants outside the contract of a function on the current tree (see DESIGN.md):
# {function: {variant: why}}
from .containers_static import UNSUPPORTED


def _strided(x):
    b = np.full(x.size * 3 + 2, -777.0, x.dtype)
    b[1:1 + 3 * x.size:3] = x
    return b[1:1 + 3 * x.size:3]


def _reversed(x):
    return x[::-1].copy()[::-1]


def _readonly(x):
    y = x.copy()
    y.flags.writeable = False
    return y


def _unaligned(x):
    b = np.empty(x.nbytes + 1, np.uint8)
    y = b[1:].view(x.dtype)
    y[...] = x
    return y


def _series(x):
    n = x.size
    return pd.Series(x.copy(), index=np.arange(n) * 2 + 11)


def _series_shuffled(x):
    n = x.size
    return pd.Series(x.copy(), index=np.roll(np.arange(n)[::-1], n // 3))


def _column(x):
    return pd.DataFrame({"a": x.copy(), "b": x * 0 - 5})["a"]


def _sub(x):
    class A(np.ndarray):
        pass
    return x.copy().view(A)


def _memmap(x):
    """a mapped file, as logs are read from disk (anonymous mapping of the same class)"""
    import tempfile
    with tempfile.TemporaryFile() as f:
        y = np.memmap(f, dtype=x.dtype, mode="w+", shape=x.shape)
    y[...] = x
    return y


def _bigendian(x):
    return x.astype(x.dtype.newbyteorder(">"))


# name -> (converter, needs flag)
LAYOUT = {"strided": _strided, "reversed": _reversed, "readonly": _readonly, "unaligned": _unaligned, "bigendian": _bigendian,
          "series": _series, "series-shuffled": _series_shuffled, "column": _column, "list": lambda x: [float(v) for v in x],
          "tuple": lambda x: tuple(float(v) for v in x), "subclass": _sub, "memmap": _memmap,
          "longdouble": lambda x: x.astype(np.longdouble) if x.dtype.kind == "f" else x.copy()}


def outs(o):
    return [np.asarray(x) for x in flat(o)]


def cmp(log, rule, name, got, base, tol, what, call):
    """elementwise equality up to tol; returns False after reporting"""
    log.evals += int(np.size(base[0])) if base else 1
    log.event(rule, int(np.size(base[0])) if base else 1)
    if len(got) != len(base):
        log.violate(rule, "%s: %d outputs, expected %d (%s)" % (name, len(got), len(base), what), call=call)
        return False
    for j, (g, b, t) in enumerate(zip(got, base, tol)):
        if g.shape != b.shape and not (g.size == 1 and b.size == 1):
            if g.size == 1 and g.size < b.size:
                g = np.broadcast_to(g.reshape(()), b.shape)
            else:
                log.violate(rule, "%s output %d: shape %s, expected %s (%s)" % (name, j, g.shape, b.shape, what), call=call)
                return False
        g = g.reshape(b.shape)
        try:
            g = g.astype(complex if np.iscomplexobj(b) or np.iscomplexobj(g) else float)
        except (TypeError, ValueError):
            log.violate(rule, "%s output %d: dtype %s (%s)" % (name, j, g.dtype, what), call=call)
            return False
        with np.errstate(all="ignore"):
            ok = (np.abs(g - b) <= t) | (g == b) | (np.isnan(g) & np.isnan(b))
        if not np.all(ok):
            i = int(np.argmin(np.ravel(ok)))
            log.violate(rule, "%s output %d element %d: %r, expected %r (%s)" % (name, j, i, np.ravel(g)[i], np.ravel(b)[i], what), call=call)
            return False
    log.sample(rule, "%s (%s) -> %s" % (name, what, brief(got, 3)))
    return True


def tolerance32(spec, want, cols, opt, rng):
    """rounding of single precision arithmetic, estimated by perturbing the reference"""
    tol = [3e-4 * np.abs(w) + 1e-4 * np.max(np.nan_to_num(np.abs(w)), initial=0) + 1e-30 for w in want]
    for _ in range(3):
        c2 = {p: (v if p in spec.intargs else v * (1 + 1e-6 * rng.uniform(-1, 1, np.shape(v)))) for p, v in cols.items()}
        for j, w in enumerate(spec.reference(c2, opt)):
            d = np.abs(w - want[j])
            tol[j] = np.where(np.isfinite(d), tol[j] + 100 * d, np.inf)
    return [np.where(np.isfinite(t), t, np.inf) for t in tol]


_BOOLS = {"AVO.EI_ref", "EM.Eshelby_Cheng", "Empirical.ramm_porosity"}        # others ask for the object True or False itself


def other_option(v, rng, name=""):
    """the same option value as another object: from a NumPy array, or put together at run time"""
    if isinstance(v, str):
        return np.str_(v) if rng.random() < .5 else "".join(list(v))
    if isinstance(v, (int, np.integer)) and not isinstance(v, bool):
        return [np.int64, np.int32, float][int(rng.integers(3))](v) if abs(int(v)) < 100 else np.int64(v)
    if isinstance(v, bool) and name in _BOOLS:
        return [np.bool_, int][int(rng.integers(2))](v)
    return v


def elem_round(log, spec, rng, big, crowd=2000):
    r = R(rng, spec.func)
    combos = list(spec.combos()) or [{}]
    opt = combos[int(rng.integers(len(combos)))]
    bad = UNSUPPORTED.get(spec.name, {})
    L = max(2, r.size(big))
    cols = spec.gen(r, L)
    sub = array_args(spec, r, rng, cols, L)
    full = {p: (v if p in sub else np.full(L, v[0], dtype=np.asarray(v).dtype)) for p, v in cols.items()}
    valid = getattr(spec, "valid", None)
    if valid is not None:
        m = np.broadcast_to(valid(full), (L,))
        if m.sum() < 2:
            return True
        idx = np.flatnonzero(m)
        full = {p: v[idx] for p, v in full.items()}
        L = len(idx)
    name = spec.name
    ref = spec.reference(full, opt)
    ref = [np.broadcast_to(w, (L,) + w.shape[1:] if w.ndim else (L,)) for w in ref]
    tol = tolerance(spec, ref, perturbed(spec, full, opt, rng), full)
    tol = [np.where(np.isfinite(t), t, 1e-9) for t in tol]

    def scal(p):
        return int(full[p][0]) if p in spec.intargs else float(full[p][0])

    def run(make, rule, what):
        """call with make(p) for the vector arguments; None after a violation"""
        passed = {p: (make(p) if p in sub else scal(p)) for p in full}
        a, k = spec.build(passed, opt)
        try:
            o = outs(fn(name)(*a, **k))
        except Exception as ex:
            log.violate(rule, "%s raised %s: %s (%s)" % (name, type(ex).__name__, ex, what), call=(name, a, k))
            return None, None
        log.call(name)
        return o, (name, a, k)

    base, _ = run(lambda p: full[p].copy(), "array", "plain arrays of %d: %s" % (L, sub))
    if base is None:
        return False
    outs0 = base
    base = [np.broadcast_to(b.reshape(()), (L,)) if b.size == 1 and L > 1 else b for b in base]
    for b in base:
        if b.shape[:1] != (L,):
            log.violate("array", "%s: output of shape %s for %d elements in %s" % (name, b.shape, L, sub))
            return False
    log.sig(name, str(opt), tuple(sub), L)
    # a model that cannot tell the rounding error (NaN) still needs a finite tolerance
    tol = [np.broadcast_to(t, b.shape) + 1e-13 * np.nan_to_num(np.abs(b)) for t, b in zip(tol, base)]
    take = lambda xs, idx: [x[idx] for x in xs]

    variants = []
    for v, f in LAYOUT.items():
        if v in bad or (v in ("list", "tuple") and not spec.lists) or (v in ("series", "series-shuffled", "column") and not spec.series):
            continue
        variants.append((v, f))
    for v, f in variants:
        w = "%s carrying %s, options %s" % (v, sub, opt)
        g, c = run(lambda p: f(full[p]), "layout:" + v, w)
        t = tol
        if g is not None and v == "longdouble" and len(g) == len(base) and all(x.shape == b.shape for x, b in zip(g, base)):
            # more digits and a wider range: close, and no statement about a few elements where
            # double precision has run out or an iteration stops one step apart
            t = [np.fmax(100 * u, 1e-6 * np.abs(np.nan_to_num(b))) for u, b in zip(tol, base)]
            with np.errstate(all="ignore"):
                off = [(np.isfinite(b) & (np.abs(b) < 1e12)) & ~(np.abs(x - b) <= u) for x, b, u in zip(g, base, t)]
            g = [np.where(np.isfinite(b) & (np.abs(b) < 1e12) & (np.sum(o) > .1 * o.size), x, b) for x, b, o in zip(g, base, off)]
        if g is None or not cmp(log, "layout:" + v, name, g, base, t, w, c):
            return False
    # no elements in, no elements out
    g, c = run(lambda p: full[p][:0].copy(), "empty", "empty arrays for %s" % sub)
    if g is None:
        return False
    log.event("empty", 1)
    if len(g) != len(base) or any(x.shape[:1] != (0,) for x, b in zip(g, [np.shape(y) for y in outs0]) if b[:1] == (L,) and L > 1):
        log.violate("empty", "%s: outputs of shape %s for empty arrays in %s" % (name, [x.shape for x in g], sub), call=c)
        return False
    # mixed layouts in one call
    variants = [(v, f) for v, f in variants if v != "longdouble"]
    if len(sub) > 1 and variants:
        names = [variants[int(rng.integers(len(variants)))] for _ in sub]
        names = [(v, f) if not v.startswith(("series", "column")) else ("readonly", _readonly) for v, f in names]
        pick = dict(zip(sub, names))
        w = "mixed %s" % {p: pick[p][0] for p in sub}
        g, c = run(lambda p: pick[p][1](full[p]), "layout:mixed", w)
        if g is None or not cmp(log, "layout:mixed", name, g, base, tol, w, c):
            return False
    # permutation
    idx = rng.permutation(L)
    g, c = run(lambda p: full[p][idx], "permuted", "permuted %s" % sub)
    if g is None or not cmp(log, "permuted", name, g, take(base, idx), take(tol, idx), "permuted %s of %d" % (sub, L), c):
        return False
    # sorted by one of the arguments, either way
    key = sub[int(rng.integers(len(sub)))]
    idx = np.argsort(full[key], kind="stable")
    if rng.random() < .5:
        idx = idx[::-1]
    g, c = run(lambda p: full[p][idx], "sorted", "sorted %s" % sub)
    if g is None or not cmp(log, "sorted", name, g, take(base, idx), take(tol, idx), "sorted by %s" % key, c):
        return False
    # split
    k = int(rng.integers(1, L))
    for part in (np.arange(k), np.arange(k, L)):
        g, c = run(lambda p: full[p][part], "split", "part")
        if g is None:
            return False
        if not cmp(log, "split", name, g, take(base, part), take(tol, part), "part %d..%d of %d" % (part[0], part[-1], L), c):
            return False
    # repeated / extended with other elements
    idx = rng.integers(0, L, min(4 * L, 5000))
    g, c = run(lambda p: full[p][idx], "resampled", "resampled")
    if g is None or not cmp(log, "resampled", name, g, take(base, idx), take(tol, idx), "resampled %d of %d" % (len(idx), L), c):
        return False
    # constant neighbours: element i alone, surrounded by copies of itself
    i = int(rng.integers(L))
    idx = np.full(int(rng.integers(2, 9)), i)
    one = (lambda p: np.broadcast_to(full[p][i], idx.shape)) if rng.random() < .5 and "readonly" not in bad else (lambda p: full[p][idx])
    g, c = run(one, "resampled", "constant")
    if g is None or not cmp(log, "resampled", name, g, take(base, idx), take(tol, idx), "copies of element %d" % i, c):
        return False
    # one element in a crowd of another: neither the number nor the value of the others matters
    for _ in range(3):
        key = sub[int(rng.integers(len(sub)))]
        pool = [int(np.argmin(full[key])), int(np.argmax(full[key])), int(rng.integers(L)), int(rng.integers(L))]
        i, j = (int(x) for x in rng.permutation(pool)[:2])
        N = int(np.exp(rng.uniform(np.log(3), np.log(crowd))))
        idx = np.full(N, j)
        idx[rng.integers(0, N, 1 + int(rng.integers(3)))] = i
        g, c = run(lambda p: full[p][idx], "crowd", "crowd")
        if g is None or not cmp(log, "crowd", name, g, take(base, idx), take(tol, idx), "element %d among %d copies of element %d" % (i, N, j), c):
            return False
    # a very long log
    if rng.random() < .1:
        N = int(10 ** rng.uniform(3.7, 5.2 if spec.weight >= .5 else 4.2))
        idx = rng.integers(0, L, N)
        g, c = run(lambda p: full[p][idx], "long", "%d samples" % N)
        if g is None or not cmp(log, "long", name, g, take(base, idx), take(tol, idx), "%d samples" % N, c):
            return False
    # single precision: the same numbers, up to single precision rounding
    if "float32" not in bad and rng.random() < .5:
        f32 = {p: np.asarray(full[p]).astype(np.float32) for p in sub if p not in spec.intargs}
        fs = dict(full)
        fs.update({p: v.astype(float) for p, v in f32.items()})
        rf = spec.reference(fs, opt)
        m = np.ones(L, bool)
        if valid is not None:
            m &= np.broadcast_to(valid(fs), (L,))
        if f32 and m.any():
            fs = {p: v[m] for p, v in fs.items()}
            n = int(m.sum())
            rf = [np.broadcast_to(w, (n,) + w.shape[1:] if w.ndim else (n,)) for w in spec.reference(fs, opt)]
            keep = full, L
            full, L = fs, n
            ts = tolerance32(spec, rf, fs, opt, rng)
            g1, c = run(lambda p: fs[p].copy(), "float32", "double")
            g2, c = run(lambda p: fs[p].astype(np.float32) if p in f32 else fs[p].copy(), "float32", "single")
            full, L = keep
            if g1 is None or g2 is None:
                return False
            g1 = [np.broadcast_to(x.reshape(()), (n,)) if x.size == 1 else x for x in g1]
            # overflow and cancellation in single precision are the caller's; the bulk must agree
            for x, y, t in zip(g1, g2, ts):
                y = np.broadcast_to(y.reshape(()), x.shape) if y.size == 1 else y
                if y.shape != x.shape:
                    log.violate("float32", "%s: shape %s in single, %s in double precision" % (name, y.shape, x.shape), call=c)
                    return False
                with np.errstate(all="ignore"):
                    t = np.broadcast_to(t, x.shape)
                    use = np.isfinite(x) & np.isfinite(y) & (np.abs(x) > 1e-30) & (np.abs(x) < 1e30) & (t < .02 * np.abs(x))
                    wrong = use & ~(np.abs(x - y.astype(x.dtype)) <= 10 * t)
                log.evals += int(use.sum())
                log.event("float32", int(use.sum()))
                if use.sum() > 5 and wrong.sum() > .5 * use.sum():
                    i = int(np.argmax(np.ravel(wrong)))
                    log.violate("float32", "%s: single precision %s gives %r, double precision %r" % (name, sorted(f32), np.ravel(y)[i], np.ravel(x)[i]), call=c)
                    return False
    # 2-d
    if spec.nd and "2d" not in bad and all(b.ndim == 1 for b in base):
        rows = int(rng.integers(1, min(L, 7) + 1)) if rng.random() < .8 else L
        n = L // rows * rows
        sh = (rows, n // rows)
        if rng.random() < .3:
            k = [d for d in range(1, n // rows + 1) if n // rows % d == 0]
            d = k[int(rng.integers(len(k)))]
            sh = (rows, d, n // rows // d)
        order = "F" if rng.random() < .5 else "C"
        g, c = run(lambda p: np.array(full[p][:n].reshape(sh), order=order), "2d", "shape %s" % (sh,))
        if g is None or not cmp(log, "2d", name, g, [b[:n].reshape(sh) for b in base], [t[:n].reshape(sh) for t in tol], "%s-ordered array of shape %s" % (order, sh), c):
            return False
        # broadcasting of a column against rows
        if len(sub) > 1 and "broadcast" not in bad and not getattr(spec, "together", None):
            a1 = sub[int(rng.integers(len(sub)))]
            m1, m2 = min(L, 5), min(L, 6)
            if valid is None:
                fc = {p: (np.repeat(full[p][:m1], m2) if p == a1 else (np.tile(full[p][:m2], m1) if p in sub else np.full(m1 * m2, full[p][0]))) for p in full}
                ref2 = spec.reference(fc, opt)
                tol2 = [np.where(np.isfinite(t), t, 1e-9) for t in tolerance(spec, [np.broadcast_to(w, (m1 * m2,)) for w in ref2], perturbed(spec, fc, opt, rng), fc)]
                b2, c = run(lambda p: fc[p].copy(), "broadcast", "flat")
                if b2 is None:
                    return False
                b2 = [np.broadcast_to(x.reshape(()), (m1 * m2,)) if x.size == 1 else x for x in b2]
                g, c = run(lambda p: full[p][:m1].reshape(m1, 1) if p == a1 else full[p][:m2].reshape(1, m2), "broadcast", "broadcast")
                if g is None:
                    return False
                ok = []
                for x in g:      # an output that does not depend on some argument keeps its smaller shape
                    try:
                        ok.append(np.broadcast_to(x, (m1, m2)))
                    except ValueError:
                        ok.append(x)
                if not cmp(log, "broadcast", name, ok, [x.reshape(m1, m2) for x in b2], [np.broadcast_to(t, (m1 * m2,)).reshape(m1, m2) + 1e-13 * np.nan_to_num(np.abs(x.reshape(m1, m2))) for t, x in zip(tol2, b2)], "column %s against rows" % a1, c):
                    return False
    # NaN stays where it is
    if "nan" not in bad:
        i = int(rng.integers(L))
        p0 = sub[int(rng.integers(len(sub)))]
        val = [np.nan, np.nan, np.inf, -np.inf, 0.0, -1.0][int(rng.integers(6))]

        def poison(p):
            x = full[p].copy().astype(float)
            if p == p0:
                x[i] = val
            return x
        g, c = run(poison, "nan", "%s at element %d of %s" % (val, i, p0))
        if g is None:
            return False
        keep = np.arange(L) != i
        g = [np.broadcast_to(x.reshape(()), (L,)) if x.size == 1 else x for x in g]
        if any(x.shape[:1] != (L,) for x in g):
            log.violate("nan", "%s: %s in %s changes the shape to %s" % (name, val, p0, [x.shape for x in g]), call=c)
            return False
        if not cmp(log, "nan", name, take(g, keep), take(base, keep), take(tol, keep), "%s at element %d of %s" % (val, i, p0), c):
            return False
    # integers: the same whole numbers as int and as float
    if spec.ints and "int" not in bad:
        ic = {p: np.round(full[p]) for p in sub if (np.any(np.abs(full[p]) >= 1) or rng.random() < .3) and p not in spec.intargs}
        if rng.random() < .4:            # one argument in whole numbers among others that are not
            one = [p for p in sub if p not in spec.intargs]
            one = one[int(rng.integers(len(one)))] if one else None
            ic = {one: np.round(full[one])} if one else {}
        if ic:
            fi = dict(full)
            fi.update(ic)
            m = np.ones(L, bool)
            if valid is not None:
                m &= np.broadcast_to(valid(fi), (L,))
            try:
                rf = spec.reference(fi, opt)
                for w in rf:
                    w = np.broadcast_to(w, (L,) + w.shape[1:] if w.ndim else (L,))
                    m &= (np.abs(np.nan_to_num(w, nan=np.inf)) < 1e14).reshape(L, -1).all(axis=1)     # int64 does not reach further
                for p in ic:
                    m &= np.abs(fi[p]) <= 1e5
            except Exception:
                m[:] = False
            if m.any():
                fi = {p: v[m] for p, v in fi.items()}
                n = int(m.sum())
                rf = [np.broadcast_to(w, (n,) + w.shape[1:] if w.ndim else (n,)) for w in spec.reference(fi, opt)]
                ti = tolerance(spec, rf, perturbed(spec, fi, opt, rng), fi)
                keep_full, keep_L = full, L
                full = fi
                g1, c = run(lambda p: fi[p].astype(float), "int", "whole numbers as float")
                dt = np.int64
                g2, c = run(lambda p: fi[p].astype(dt) if p in ic else fi[p].copy(), "int", "whole numbers of %s as %s" % (sorted(ic), dt.__name__))
                full, L = keep_full, keep_L
                if g1 is None or g2 is None:
                    return False
                if not cmp(log, "int", name, g2, g1, [np.broadcast_to(t, x.shape) + 1e-13 * np.nan_to_num(np.abs(x)) if x.size > 1 else np.max(t) for t, x in zip(ti, g1)], "whole numbers in %s as %s" % (sorted(ic), dt.__name__), c):
                    return False
    # options from a table or put together at run time are the same options
    if opt or spec.intargs:
        o2 = {k: other_option(v, rng, name) for k, v in opt.items()}
        passed = {p: full[p].copy() if p in sub else (np.int64(scal(p)) if p in spec.intargs else scal(p)) for p in full}
        a, k = spec.build(passed, o2)
        try:
            g = outs(fn(name)(*a, **k))
        except Exception as ex:
            log.violate("options", "%s raised %s: %s with options %r" % (name, type(ex).__name__, ex, o2), call=(name, a, k))
            return False
        log.call(name)
        if not cmp(log, "options", name, g, base, tol, "options %r" % (o2,), (name, a, k)):
            return False
    # scalars, element by element
    if spec.scalars:
        rows = []
        sel = rng.permutation(L)[:min(L, 12)]
        for i in sel:
            row = {p: (int(v[i]) if p in spec.intargs else scalar_flavour(v[i], rng, spec.ints and "int" not in bad)) for p, v in full.items()}
            if "0d" not in bad and rng.random() < .25:
                row = {p: (np.asarray(float(v)) if p in sub else v) for p, v in row.items()}
            a, k = spec.build(row, opt)
            try:
                o = outs(fn(name)(*a, **k))
            except Exception as ex:
                log.violate("scalar", "%s raised %s: %s for scalars" % (name, type(ex).__name__, ex), call=(name, a, k))
                return False
            log.call(name)
            if not cmp(log, "scalar", name, o, take(base, i), take(tol, i), "element %d of %d as scalars %s" % (i, L, brief(row)), (name, a, k)):
                return False
        # arrays of length one
        i = int(sel[0])
        g, c = run(lambda p: full[p][i:i + 1].copy(), "scalar", "length one")
        if g is None or not cmp(log, "scalar", name, g, take(base, slice(i, i + 1)), take(tol, slice(i, i + 1)), "array of length one", c):
            return False
    return True


# ---------------------------------------------------------------------------- case functions
# arguments that carry one value per element, and whether every output has that axis first
# {function: [(argument positions, output axis)]}
CASE_ELEM = {
    "EM.VRH": [((0,), 0)],
    "EM.PQ_vectorize": [((2, 3, 4), 0)],
    "Anisotropy.vel_azi_VTI": [((2,), 0)], "Anisotropy.vel_azi_HTI": [((2,), 0)],
    "AVO.AVO_HTI": [((4,), 1), ((5,), 0)],
    "AVO.Aki_Richards": [((0,), -1), ((1, 2, 3, 4, 5, 6), 0)],
    "AVO.zoeppritz": [((6,), -1)],
    "AVO.EI_ref": [((3,), -1), ((0, 1, 2), 0)],
    "BW.rho_K_go": [((0,), 0)],
    "QI.cst_vels": [((4,), 0)], "QI.cal_v_const": [((14,), 0)],
}


def case_round(log, spec, rng):
    """layout independence of every array argument; element-wise independence where there is one
    array argument (or several of one length) and outputs of the same length"""
    r = R(rng, spec.func)
    a, k = spec.cases(r)
    name = spec.name
    bad = UNSUPPORTED.get(name, {})
    pos = [i for i, x in enumerate(a) if isinstance(x, np.ndarray) and x.dtype.kind == "f" and x.ndim >= 1]
    cp = lambda: [x.copy() if isinstance(x, np.ndarray) else x for x in a]

    def run(args, rule, what):
        try:
            o = outs(fn(name)(*args, **k))
        except Exception as ex:
            log.violate(rule, "%s raised %s: %s (%s)" % (name, type(ex).__name__, ex, what), call=(name, args, k))
            return None
        log.call(name)
        return o
    base = run(cp(), "array", "plain")
    if base is None:
        return False
    log.sig(name, tuple(np.shape(x) for x in a), tuple(np.round(np.nan_to_num(np.abs(np.ravel(b)[:2])), 8).tolist() for b in base))
    want = [np.asarray(w) for w in flat(spec.ref(*cp(), **k))]
    tol = [np.maximum(spec.rtol, 1e-9) * np.max(np.nan_to_num(np.abs(b)), initial=0) + spec.atol + 1e-290 for b in base]
    # the same option as another object
    switch = lambda x, q: (np.str_(x) if isinstance(x, str) else other_option(x, rng, name) if isinstance(x, bool) else
                           [np.int64, np.int32, np.intp][int(rng.integers(3))](x) if isinstance(x, int) else x)
    a2, k2 = [switch(x, i) for i, x in enumerate(cp())], {q: switch(x, q) for q, x in k.items()}
    if any(type(x) is not type(y) for x, y in zip(list(a) + list(k.values()), a2 + list(k2.values()))):
        try:
            g = outs(fn(name)(*a2, **k2))
        except Exception as ex:
            log.violate("options", "%s raised %s: %s with options of another type" % (name, type(ex).__name__, ex), call=(name, a2, k2))
            return False
        log.call(name)
        if not cmp(log, "options", name, g, base, tol, "options of another type", (name, a2, k2)):
            return False
    if not pos:
        return True
    lay = {"strided": lambda x: _strided(x) if x.ndim == 1 else np.repeat(x, 2, axis=-1)[..., ::2], "reversed": _reversed, "readonly": _readonly,
           "fortran": lambda x: np.asfortranarray(x), "transposed-copy": lambda x: x.T.copy().T, "unaligned": lambda x: _unaligned(x.ravel()).reshape(x.shape)}
    if spec.series:
        lay["series"] = lambda x: _series(x) if x.ndim == 1 else x.copy()
    if spec.lists:
        lay["list"] = lambda x: x.tolist()
    for v, f in lay.items():
        if v in bad:
            continue
        args = [f(x) if i in pos else x for i, x in enumerate(a)]
        g = run(args, "layout:" + v, v)
        if g is None or not cmp(log, "layout:" + v, name, g, base, tol, v, (name, args, k)):
            return False
    for where, axis in CASE_ELEM.get(name, ()):
        p1 = [i for i in where if isinstance(a[i], np.ndarray) and a[i].ndim >= (2 if name == "EM.VRH" else 1)]
        if not p1 or len({a[i].shape[0] for i in p1}) != 1:
            continue
        n = a[p1[0]].shape[0]
        if n < 2:
            continue
        has = lambda b: b.ndim > (axis if axis >= 0 else 0) and b.shape[axis] == n
        if not any(has(b) for b in base):
            continue
        sel = lambda xs, idx: [np.take(b, idx, axis=axis) if has(b) else b for b in xs]
        mean = name == "AVO.EI_ref" and axis == 0 and not (k.get("norm") is False or (len(a) > 5 and a[5] is False))
        rules = [("permuted", rng.permutation(n)), ("permuted", np.arange(n)[::-1])]
        if not mean:       # normalised impedances depend on the means of the log
            rules += [("split", np.arange(int(rng.integers(1, n)))), ("resampled", rng.integers(0, n, n)), ("scalar", rng.integers(0, n, 1)), ("resampled", rng.integers(0, n, 3 * n))]
        for rule, idx in rules:
            args = [x[idx] if i in p1 else x for i, x in enumerate(a)]
            g = run(args, rule, rule)
            if g is None:
                return False
            if not cmp(log, rule, name, g, sel(base, idx), tol, "%s of %d along argument %s" % (rule, n, p1), (name, args, k)):
                return False
        if len(p1) == 1 and a[p1[0]].ndim == 1 and not mean:     # the element alone, as a python float
            i = int(rng.integers(n))
            args = [float(x[i]) if j in p1 else x for j, x in enumerate(a)]
            if name not in ("QI.cst_vels",):
                g = run(args, "scalar", "python float")
                if g is None:
                    return False
                want = sel(base, [i])
                if sum(x.size for x in g) == sum(x.size for x in want):
                    g = [x.reshape(w.shape) for x, w in zip(g, want)]
                if not cmp(log, "scalar", name, g, want, tol, "element %d of %d as a float" % (i, n), (name, args, k)):
                    return False
        if "nan" not in bad and not mean and a[p1[0]].dtype.kind == "f":
            i = int(rng.integers(n))
            args = [x.copy() if isinstance(x, np.ndarray) else x for x in a]
            q = p1[int(rng.integers(len(p1)))]
            if args[q].dtype.kind != "f":
                continue
            args[q][i] = np.nan
            keep = np.flatnonzero(np.arange(n) != i)
            g = run(args, "nan", "NaN")
            if g is None or any(x.shape != b.shape for x, b in zip(g, base)):
                if g is not None:
                    log.violate("nan", "%s: NaN changes the shape" % name, call=(name, args, k))
                return False
            if not cmp(log, "nan", name, sel(g, keep), sel(base, keep), tol, "NaN at element %d of argument %d" % (i, q), (name, args, k)):
                return False
    return True


def estimate_round(log, rng):
    """the cement estimate of a sample does not depend on the samples around it, or on what carries them"""
    from .core import lib
    from .models_qi import rock_par, cement_lines, EC
    r = R(rng, "estimate_cem")
    name = "QI.estimate_cem"
    p = rock_par(r)
    seeds = np.array([.003, .01, .03, .06, .09][:int(rng.integers(2, 6))])
    n = max(2, r.size(600))
    phi = r.u(.02, p["phi_c"] - .1, n, sp=[.1, .2])
    L = cement_lines(p, seeds, phi)
    Vp = L[0] + r.u(-.3, 1.3, n) * (L[-1] - L[0])
    if rng.random() < .7:                       # neighbours that share a value
        i = rng.integers(0, n - 1, 1 + n // 3)
        x = Vp if rng.random() < .6 else phi
        x[i + 1] = x[i]

    def run(a, b, what):
        q = lib().QI(a, b)
        args = [list(seeds)] + [p[x] for x in EC]
        try:
            o = outs(q.estimate_cem(*args))
        except Exception as ex:
            log.violate("cement", "%s raised %s: %s (%s)" % (name, type(ex).__name__, ex, what), call=(name, [a, b] + args, {}))
            return None
        log.call(name)
        return o
    base = run(Vp.copy(), phi.copy(), "arrays of %d" % n)
    if base is None:
        return False
    if base[0].shape != (n,):
        log.violate("cement", "%s: shape %s for %d samples" % (name, base[0].shape, n))
        return False
    log.sig(name, n, len(seeds))
    tol = [np.full(n, 1e-9)]
    idx = {"permuted": rng.permutation(n), "sorted": np.argsort(Vp, kind="stable"), "split": np.arange(int(rng.integers(1, n))),
           "resampled": rng.integers(0, n, min(4 * n, 3000)), "length one": rng.integers(0, n, 1), "reversed": np.arange(n)[::-1]}
    for what, k in idx.items():
        o = run(Vp[k], phi[k], what)
        if o is None or not cmp(log, "cement:" + what, name, o, [base[0][k]], [tol[0][k]], "%s, %d samples" % (what, n), (name, [Vp, phi, seeds], p)):
            return False
    for v in ("strided", "readonly", "unaligned", "bigendian", "series", "series-shuffled", "column", "subclass", "memmap"):
        f = LAYOUT[v]
        o = run(f(Vp), f(phi), v)
        if o is None or not cmp(log, "cement:" + v, name, o, base, tol, v, (name, [Vp, phi, seeds], p)):
            return False
    i = int(rng.integers(n))
    V2 = Vp.copy()
    V2[i] = np.nan
    o = run(V2, phi.copy(), "NaN")
    keep = np.arange(n) != i
    if o is None or not cmp(log, "cement:nan", name, [o[0][keep]], [base[0][keep]], [tol[0][keep]], "NaN at sample %d" % i, (name, [V2, phi, seeds], p)):
        return False
    return True


def elem_light(log, spec, rng):
    """a few elements together, in another order, and one by one (the workload step of the guided search)"""
    combos = list(spec.combos()) or [{}]
    opt = combos[int(rng.integers(len(combos)))]
    r = R(rng, spec.func)
    L = int(rng.integers(2, 6))
    cols = spec.gen(r, L)
    sub = array_args(spec, r, rng, cols, L)
    full = only_valid(spec, cols, sub, L)
    if full is None:
        return
    L = len(full[sub[0]])
    name = spec.name
    ref = [np.broadcast_to(w, (L,) + w.shape[1:] if w.ndim else (L,)) for w in spec.reference(full, opt)]
    tol = [np.where(np.isfinite(t), t, 1e-9) for t in tolerance(spec, ref, perturbed(spec, full, opt, rng), full)]

    def run(idx, what, scalar=False):
        get = lambda p: int(full[p][0]) if p in spec.intargs else float(full[p][0])
        if scalar:
            get2 = lambda p: int(full[p][idx]) if p in spec.intargs else float(full[p][idx])
            a, k = spec.build({p: (get2(p) if p in sub else get(p)) for p in full}, opt)
        else:
            a, k = spec.build({p: (full[p][idx].copy() if p in sub else get(p)) for p in full}, opt)
        try:
            o = outs(fn(name)(*a, **k))
        except Exception as ex:
            log.violate("guided", "%s raised %s: %s (%s)" % (name, type(ex).__name__, ex, what), call=(name, a, k))
            return None
        log.call(name)
        return o, (name, a, k)
    o = run(np.arange(L), "array")
    if o is None:
        return
    base = [np.broadcast_to(b.reshape(()), (L,)) if b.size == 1 and L > 1 else b for b in o[0]]
    if any(b.shape[:1] != (L,) for b in base):
        return
    tol = [np.broadcast_to(t, b.shape) + 1e-13 * np.nan_to_num(np.abs(b)) for t, b in zip(tol, base)]
    for what, idx in [("reversed", np.arange(L)[::-1]), ("doubled", np.repeat(np.arange(L), 2))] + [("length one", np.array([i])) for i in range(L)] + \
            ([("scalar", i) for i in range(L)] if spec.scalars else []):
        o = run(idx, what, what == "scalar")
        if o is None or not cmp(log, "guided:" + what, name, o[0], [b[idx] for b in base], [t[idx] for t in tol], what, o[1]):
            return


def tasks(only=None):
    from . import props
    t = []
    for nm, s in SPECS.items():
        if only and nm not in only:
            continue
        if s.elem and not s.vec:
            continue

        def go(log, rng, s=s):
            n = int(log.n(40, 500) * max(.3, min(s.weight, 1)))
            for _ in range(max(6, n)):
                if not (elem_round(log, s, rng, log.n(600, 3000)) if s.elem else case_round(log, s, rng)):
                    return
        t.append(("elements:" + nm, go))
        t += tasks_of([(nm, lambda lg, g, s=s: (elem_light if s.elem else case_round)(lg, s, g))], 160 if s.elem else 60, 4000)
    if not only or "QI.estimate_cem" in only:
        def est(log, rng):
            for _ in range(log.n(60, 700)):
                if not estimate_round(log, rng):
                    return
        t.append(("elements:QI.estimate_cem", est))
    return t
