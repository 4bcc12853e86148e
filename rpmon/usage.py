"""Realistic workload: the library's own worked examples, run with every public function hooked.

The scripts under /repo/examples run unchanged in a scratch copy; wrappers record each call with
its arguments and result, and afterwards the reference models judge the recorded trace.  A script
that does not run to its end (other files, other versions of the plotting library) contributes
the calls made until then.
"""
import copy, glob, inspect, io, os, shutil, sys, tempfile
import numpy as np
from .core import REPO, lib, fn, flat
from .engine import SPECS, DEFAULT, tolerance, perturbed, verdict, compare_case

TOP = 400       # calls kept per function and script


def scripts():
    return sorted(f for f in glob.glob(os.path.join(REPO, "examples", "*", "*.py")) if not f.endswith("__init__.py"))


def record(script, names, watch=None):
    """[(function, args, kwargs, result)] of the script, and how it ended; watch(name, args before, args after)"""
    rp = lib()
    trace, count, depth = [], {}, [0]
    saved = []

    def wrap(name, f):
        def w(*a, **k):
            if depth[0]:
                return f(*a, **k)
            try:
                a0, k0 = copy.deepcopy(a), copy.deepcopy(k)
            except Exception:
                a0 = None
            depth[0] += 1
            try:
                out = f(*a, **k)
            finally:
                depth[0] -= 1
            count[name] = count.get(name, 0) + 1
            if watch is not None and a0 is not None:
                watch(name, (a0, k0), (a, k))
            if a0 is not None and count[name] <= TOP:
                trace.append((name, a0, k0, copy.deepcopy(out)))
            return out
        return w
    d = tempfile.mkdtemp(prefix="rpmon-ex-")
    cwd, so, argv = os.getcwd(), sys.stdout, sys.argv
    import matplotlib.pyplot as plt
    try:
        shutil.copytree(os.path.join(REPO, "examples"), os.path.join(d, "examples"))
        shutil.copytree(os.path.join(REPO, "data"), os.path.join(d, "data"))
        path = os.path.join(d, os.path.relpath(script, REPO))
        os.chdir(os.path.dirname(path))
        for nm in names:
            c, f = nm.split(".")
            cls = getattr(rp, c)
            raw = vars(cls)[f] if f in vars(cls) else None
            if not isinstance(raw, staticmethod):
                continue
            saved.append((cls, f, raw))
            setattr(cls, f, staticmethod(wrap(nm, raw.__func__)))
        sys.stdout = io.StringIO()
        end = "ended"
        try:
            with open(path, encoding="utf8") as fh:
                code = compile(fh.read(), path, "exec")
            exec(code, {"__name__": "__main__", "__file__": path})
        except (Exception, SystemExit) as e:
            end = "%s: %s" % (type(e).__name__, str(e)[:100])
    finally:
        sys.stdout = so
        os.chdir(cwd)
        for cls, f, raw in saved:
            setattr(cls, f, raw)
        plt.close("all")
        shutil.rmtree(d, ignore_errors=True)
    return trace, count, end


def columns(spec, a, k):
    """the call as (columns, option, shape of the broadcast), or None"""
    names = list(spec.args)
    if len(a) > len(names) or any(p not in names for p in k):
        return None
    got = dict(zip(names, a))
    got.update(k)
    opt, cols = {}, {}
    for p in names:
        if p in spec.opts:
            if p not in got:
                opt[p] = DEFAULT
            elif any(got[p] is v or (type(v) in (str, int, bool, float) and got[p] == v) for v in spec.opts[p]):
                opt[p] = got[p]
            else:
                return None
        elif p not in got:
            return None
        else:
            cols[p] = np.asarray(got[p], dtype=float)
    arr = np.broadcast_arrays(*cols.values())
    return {p: v.ravel() for p, v in zip(cols, arr)}, opt, arr[0].shape


def judge(log, rng, name, a, k, out):
    spec = SPECS[name]
    if not spec.elem:
        return compare_case(log, spec, a, k, out, rng)
    c = columns(spec, a, k)
    if c is None:
        log.event("usage: form not modelled")
        return True
    cols, opt, shape = c
    v = getattr(spec, "valid", None)
    n = len(next(iter(cols.values())))
    ok = np.broadcast_to(v(cols), (n,)) if v is not None else np.ones(n, bool)
    if not ok.any():
        return True
    want = [np.broadcast_to(w, (n,) + np.shape(w)[1:]) for w in spec.reference(cols, opt)]
    tol = tolerance(spec, want, perturbed(spec, cols, opt, rng), cols)
    o = flat(out)
    if len(o) != len(want):
        log.violate("usage", "%s returned %d values, expected %d" % (name, len(o), len(want)), call=(name, a, k))
        return False
    got = []
    for x, w in zip(o, want):
        x = np.asarray(x)
        if x.size == w.size:
            x = x.reshape(w.shape)
        elif x.size == 1:
            x = np.broadcast_to(x.reshape(()), w.shape)
        else:
            log.event("usage: form not modelled")
            return True
        got.append(x[ok])
    before = len(log.viol)
    log.evals += int(ok.sum())
    log.event("usage:" + name, int(ok.sum()))
    verdict(log, spec, got, [w[ok] for w in want], [np.broadcast_to(t, w.shape)[ok] for t, w in zip(tol, want)], {p: x[ok] for p, x in cols.items()}, opt, rng, "example")
    return len(log.viol) == before


def task(names):
    def go(log, rng):
        for s in scripts():
            trace, count, end = record(s, names)
            if count:
                log.extra.setdefault("examples", {})[os.path.basename(s)] = "%d calls hooked, %s" % (sum(count.values()), end)
            for nm, n in count.items():
                log.call(nm, n)
            for nm, a, k, out in trace:
                try:
                    if not judge(log, rng, nm, list(a), k, out):
                        return
                except (ValueError, TypeError, IndexError):
                    log.event("usage: form not modelled")
    return go


def purity(log, rng):
    """the examples as histories: arguments stay, and every recorded call repeated after the script, in
    another order, gives the same result again"""
    from .purity import fingerprint, equal, value, _copyargs
    names = list(SPECS)

    def watch(name, before, after):
        log.event("example arguments compared")
        if fingerprint(before) != fingerprint(after):
            log.violate("arguments", "%s changed its arguments in an example" % name, call=(name,) + tuple(before))
    for s in scripts():
        trace, count, end = record(s, names, watch)
        log.extra.setdefault("examples", {})[os.path.basename(s)] = "%d calls hooked, %s" % (sum(count.values()), end)
        for nm, n in count.items():
            log.call(nm, n)
        for i in rng.permutation(len(trace)):
            nm, a, k, out = trace[int(i)]
            try:
                v = value(out)
            except Exception:
                continue
            log.evals += 1
            log.event("example calls repeated")
            e = equal(value(fn(nm)(*_copyargs(list(a)), **_copyargs(k))), v)
            if e:
                log.violate("history", "%s repeated after the example %s: %s" % (nm, os.path.basename(s), e), call=(nm, a, k))
                return
