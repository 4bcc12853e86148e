"""C01: a result is a function of the arguments alone.

A catalogue of calls covers every public function.  Each call first runs alone in a process of
its own (forked before any other library call); those results are the reference.  The same
calls then run in long shuffled histories, on shared arrays, with faults injected inside the
library, on arrays that the caller rewrites in place, in eight threads with injected delays,
and in a fresh interpreter with another environment.  Monitors watch arguments, results,
earlier results, process-wide state and system calls (audit hook).
"""
import ast, base64, copy, decimal, gc, hashlib, inspect, io, json, locale, logging, os, pickle, random, shutil, signal, subprocess, sys, tempfile, threading, time, warnings
import numpy as np
import pandas as pd
import scipy.special
import matplotlib
matplotlib.use("Agg")
import matplotlib.pyplot as plt
from .core import R, lib, fn, flat, brief, literals, REPO, VERIF, task_seed
from .engine import SPECS, DEFAULT, array_args
from . import figures as F
from .models_qi import rock_par, EC, cement_lines
from . import models_em as E

PLOTS = {"QI.screening_plot", "QI.kde_plot", "QI.cst_plot", "QI.cement_diag_plot", "QI.plot_rpt"}
SLOW = {"QI.kde_plot", "EM.Berryman_DEM"}


# ------------------------------------------------------------------------------ catalogue
def family_elem(spec, r, rng):
    """argument tuples of one structure: a draw, near duplicates of it, a permutation, another draw"""
    combos = list(spec.combos()) or [{}]
    opt = combos[int(rng.integers(len(combos)))]
    L = int(rng.integers(3, 40)) if rng.random() < .85 else int(rng.integers(300, 2500))
    sub = array_args(spec, r, rng, None, L) if spec.vec else []
    if not spec.scalars and not sub:
        sub = list(spec.vec)
    if rng.random() < .35 and spec.scalars:
        sub = list(getattr(spec, "needarray", ()))
    valid = getattr(spec, "valid", None)
    for _ in range(30):
        cols = spec.gen(r, L)
        alt = spec.gen(r, L)
        one = lambda c: {p: (v.astype(float) if p in sub else (int(v[0]) if p in spec.intargs else float(v[0]))) for p, v in c.items()}
        a, b = one(cols), one(alt)
        ok = True
        if valid is not None:
            for z in (a, b):
                ok &= bool(np.all(valid({p: np.broadcast_to(v, (L,)) for p, v in z.items()})))
        if ok:
            break
    else:
        L = 1
        cols, alt = spec.gen(r, 200), spec.gen(r, 200)
        pick = lambda c: {p: v[np.flatnonzero(np.broadcast_to(valid(c), (200,)))[:1]] for p, v in c.items()}
        one = lambda c: {p: (v.astype(float) if p in sub else (int(v[0]) if p in spec.intargs else float(v[0]))) for p, v in c.items()}
        a, b = one(pick(cols)), one(pick(alt))
    fam = [a, b]
    idx = rng.permutation(L)
    if sub and L > 1:
        fam.append({p: (v[idx] if p in sub else v) for p, v in a.items()})
    for eps in (3e-10, 2e-6, 3e-4):
        c = dict(a)
        ps = [p for p in c if p not in spec.intargs]
        for p in ps:
            # towards the other draw, so that the point stays within the domain
            c[p] = a[p] + eps * (b[p] - a[p])
        if valid is None or np.all(valid({p: np.broadcast_to(v, (L,)) for p, v in c.items()})):
            fam.append(c)
    # two values of one argument exchanged for those of the other draw
    if valid is None and not getattr(spec, "together", None):
        ps = [p for p in a if p not in spec.intargs]
        c = dict(a)
        p = ps[int(rng.integers(len(ps)))]
        c[p] = copy.copy(b[p])
        try:
            if all(np.all(np.isfinite(w)) for w in spec.reference({q: np.broadcast_to(v, (L,)) if L > 1 else np.atleast_1d(v) for q, v in c.items()}, opt)):
                fam.append(c)
        except Exception:
            pass
    return [tuple(spec.build(c, opt)) for c in fam]


def _copyargs(a):
    return copy.deepcopy(a)


def family_case(spec, r, rng):
    out = [spec.cases(r) for _ in range(3)]
    a, k = out[0]
    for eps in (3e-10, 2e-6):
        b = [x + eps * x if isinstance(x, np.ndarray) and x.dtype.kind == "f" and x.ndim < 2 else x for x in a]
        if spec.name in ("EM.VRH", "Anisotropy.Backus"):
            continue
        out.append((b, k))
    return [(list(x), dict(y)) for x, y in out]


def special(name, r, rng):
    if name == "EM.Berryman_sc":
        out = []
        for _ in range(3):
            n = 3
            K, G = r.mineral(n, lo=8, numin=.05, numax=.38)
            out.append(([K, G, rng.dirichlet(np.ones(n) * 3), r.log(.02, .9, n)], {}))
        return out
    if name == "EM.OConnell_Budiansky_fl":
        out = []
        for _ in range(4):
            K, G = r.mineral(lo=8, numin=.05, numax=.38)
            al = r.log(1e-3, .05)
            out.append(([K, G, r.log(.05, 2) * al * K, r.u(.02, .25) if len(out) % 2 else r.u(0, .6), al], {}))
        return out
    if name == "EM.Berryman_DEM":
        # two of the fractions here are ones odeint does not reach in one go
        stiff = [(19.0, 17.0, .1329, 0.0, 2.0124, .02), (44.42, 30.6, 0.0, 0.0, 2.0725, .447), (41.7, 33.22, .6625, 0.0, 1.9948, .2636)]
        return [(list(E.bdem_case(r)[0]), {}) for _ in range(2)] + [(list(stiff[int(r.rng.integers(3))]), {})]
    if name == "QI.estimate_cem":
        out = []
        for _ in range(3):
            p = rock_par(r)
            seeds = np.array([.005, .02, .05, .08]) * r.u(.8, 1.2)
            phi = r.u(.05, p["phi_c"] - .12, 12)
            L = cement_lines(p, seeds, phi)
            Vp = L[0] + r.u(-.2, 1.2, 12) * (L[-1] - L[0])
            out.append(([dict(Vp=Vp, phi=phi), seeds if rng.random() < .5 else seeds.tolist()] + [p[x] for x in EC], {}))
        return out
    d = lambda n=25: F.samples(R(rng, hostile=0), rng, n)
    nd = lambda n=25: {k: np.nan_to_num(np.asarray(v), nan=.2) for k, v in d(n).items()}
    if name == "QI.screening_plot":
        out = []
        for _ in range(2):
            phi, v = F.bounds(r, 20)
            out.append(([nd(), phi] + v, dict(cmap="jet") if rng.random() < .5 else {}))
        return out
    if name == "QI.kde_plot":
        out = []
        for v_ in ("Vp", "Vs"):
            phi, v = F.bounds(r, 20)
            out.append(([nd(80), phi] + v, dict(vels=v_, n=32)))
        return out
    if name == "QI.cst_plot":
        return [([F.cst_args(r)[0][x] for x in F._CP], {}) for _ in range(2)]
    if name == "QI.cement_diag_plot":
        return [([nd(), r.u(0, .1, 25)] + [F.cst_args(r)[0][x] for x in F._CP], {}) for _ in range(2)]
    if name == "QI.plot_rpt":
        out = []
        for _ in range(2):
            p = F.rpt_args(r)
            out.append(([p[x] for x in F.RP], {}))
        return out
    raise KeyError(name)


SPECIAL = ["EM.Berryman_sc", "EM.OConnell_Budiansky_fl", "EM.Berryman_DEM", "QI.estimate_cem", "QI.screening_plot", "QI.kde_plot", "QI.cst_plot",
           "QI.cement_diag_plot", "QI.plot_rpt"]
INSTANCE = {"QI.estimate_cem", "QI.screening_plot", "QI.kde_plot", "QI.cement_diag_plot"}


def catalogue(seed, rounds=1):
    """[(family id, function, args, kwargs)]"""
    cat = []
    fam = 0
    for k in range(rounds):
        for name in list(SPECS) + SPECIAL:
            rng = task_seed(seed, "cat/%d/%s" % (k, name))
            r = R(rng, name.split(".")[1])
            if name in SPECS:
                s = SPECS[name]
                fs = (family_elem if s.elem else family_case)(s, r, rng)
            else:
                if name in SLOW and k:
                    continue
                fs = special(name, r, rng)
            for a, kw in fs:
                cat.append((fam, name, list(a), dict(kw)))
            fam += 1
    return cat


def invoke(name, a, k):
    if name in INSTANCE:
        d = dict(a[0])
        q = lib().QI(d.pop("Vp"), d.pop("phi"), **d)
        return getattr(q, name.split(".")[1])(*a[1:], **k)
    return fn(name)(*a, **k)


def value(out):
    """comparable value of a result"""
    res = []
    for o in flat(out):
        if isinstance(o, matplotlib.figure.Figure):
            res += F.digest(o)
        elif isinstance(o, matplotlib.axes.Axes):
            pass
        else:
            x = np.array(o)
            res.append(x)
    return res


def equal(a, b):
    if len(a) != len(b):
        return "%d results instead of %d" % (len(a), len(b))
    for j, (x, y) in enumerate(zip(a, b)):
        if x.shape != y.shape:
            return "result %d has shape %s instead of %s" % (j, x.shape, y.shape)
        if x.dtype == object or y.dtype == object:
            try:
                x, y = x.astype(complex), y.astype(complex)
            except (TypeError, ValueError):
                continue
        with np.errstate(all="ignore"):
            fy = np.abs(y[np.isfinite(y)]) if y.size else np.zeros(1)
            ok = (np.abs(x - y) <= 1e-10 * np.abs(y) + 1e-13 * (fy.max() if fy.size else 0)) | (x == y) | (np.isnan(x) & np.isnan(y))
        if not np.all(ok):
            i = int(np.argmin(np.ravel(ok)))
            return "result %d element %d is %r instead of %r" % (j, i, np.ravel(x)[i], np.ravel(y)[i])
    return None


def _iso_one(item):
    _, name, a, k = item
    try:
        v = value(invoke(name, a, k))
        plt.close("all")
        return ("ok", v)
    except Exception as e:
        return ("exc", "%s: %s" % (type(e).__name__, e))


def isolated(cat):
    """each call in a process of its own, forked from this one (which makes no library call)"""
    nw = 8
    res = [None] * len(cat)
    kids = []
    for w in range(nw):
        rd, wr = os.pipe()
        pid = os.fork()
        if pid == 0:
            code = 1
            try:
                os.close(rd)
                out = []
                for i in range(w, len(cat), nw):
                    r2, w2 = os.pipe()
                    p2 = os.fork()
                    if p2 == 0:
                        try:
                            os.close(r2)
                            signal.alarm(150)       # a call that hangs ends as a call that died
                            with os.fdopen(w2, "wb") as f:
                                pickle.dump(_iso_one(cat[i]), f)
                        finally:
                            os._exit(0)
                    os.close(w2)
                    with os.fdopen(r2, "rb") as f:
                        b = f.read()
                    os.waitpid(p2, 0)
                    out.append((i, b))
                with os.fdopen(wr, "wb") as f:
                    pickle.dump(out, f)
                code = 0
            finally:
                os._exit(code)
        os.close(wr)
        kids.append((pid, rd))
    for pid, rd in kids:
        with os.fdopen(rd, "rb") as f:
            b = f.read()
        os.waitpid(pid, 0)
        if b:
            for i, x in pickle.loads(b):
                res[i] = pickle.loads(x) if x else ("exc", "the process died")
    return [x if x is not None else ("lost", "") for x in res]


# ------------------------------------------------------------------------------- monitors
def _leaves(x, path=""):
    if isinstance(x, dict):
        for k, v in x.items():
            yield from _leaves(v, path + "[%r]" % k)
    elif isinstance(x, (list, tuple)):
        yield path, x
        for i, v in enumerate(x):
            yield from _leaves(v, path + "[%d]" % i)
    else:
        yield path, x


def fingerprint(a):
    out = []
    for p, x in _leaves(a):
        if isinstance(x, np.ndarray):
            out.append((p, "nd", x.shape, str(x.dtype), x.tobytes(), x.flags.writeable))
        elif isinstance(x, (pd.Series, pd.DataFrame)):
            out.append((p, "pd", x.shape, np.asarray(x).tobytes(), tuple(np.ravel(x.index)[:50]), getattr(x, "name", None)))
        elif isinstance(x, (list, tuple)):
            out.append((p, type(x).__name__, len(x)))
        else:
            out.append((p, type(x).__name__, repr(x)))
    return out


def _pd_options(d, pre=""):
    out = []
    for k, v in sorted(d.items()):
        out += _pd_options(v, pre + k + ".") if isinstance(v, dict) else [(pre + k, v if isinstance(v, (int, float, str, bool, type(None))) else id(v))]
    return out


def global_state(full=False):
    st = np.random.get_state()
    s = {"numpy error handling": tuple(sorted(np.geterr().items())), "numpy print options": repr(sorted(np.get_printoptions().items(), key=str)),
         "numpy random state": (hashlib.blake2b(st[1].tobytes()).hexdigest(), st[2], st[3], st[4]), "numpy error callback": repr(np.geterrcall()),
         "python random state": hash(random.getstate()), "warning filters": repr(warnings.filters), "environment": hash(tuple(sorted(os.environ.items()))),
         "working directory": os.getcwd(), "recursion limit": sys.getrecursionlimit(), "module path": tuple(sys.path), "locale": locale.setlocale(locale.LC_ALL),
         "garbage collector": (gc.isenabled(), gc.get_threshold()), "float display": pd.get_option("display.precision"), "umask-free files": None,
         "scipy error handling": tuple(sorted(scipy.special.geterr().items())), "decimal context": repr(decimal.getcontext().copy()),
         "root logger": (logging.root.level, tuple(map(id, logging.root.handlers)), logging.root.disabled, logging.root.manager.disable),
         "standard streams": (id(sys.stdout), id(sys.stderr), id(sys.stdin)), "hooks": (id(sys.excepthook), id(sys.displayhook), id(warnings.showwarning), id(warnings.formatwarning)),
         "switch interval": sys.getswitchinterval(), "integer digits": sys.get_int_max_str_digits(),
         "colour maps": F.cmaps()}
    if full:
        s["pandas options"] = repr(_pd_options(pd._config.config._global_config))
        s["plot settings"] = repr(dict(matplotlib.rcParams))
        s["signal handlers"] = repr([signal.getsignal(x) for x in (signal.SIGINT, signal.SIGALRM, signal.SIGTERM)])
        s["threads"] = threading.active_count()
    return s


_AUDIT = {"on": False, "events": []}


def _hook(ev, args):
    if not _AUDIT["on"]:
        return
    if ev == "open":
        mode, flags = args[1], args[2]
        wr = (isinstance(mode, str) and any(c in mode for c in "wax+")) or (mode is None and isinstance(flags, int) and flags & (os.O_WRONLY | os.O_RDWR | os.O_CREAT))
        if wr and "mpl" not in str(args[0]):
            _AUDIT["events"].append("open for writing %s" % (args[0],))
    elif ev in ("os.remove", "os.rename", "os.mkdir", "os.rmdir", "os.truncate", "os.chmod", "os.chdir", "os.putenv", "os.unsetenv", "os.system", "os.exec", "os.posix_spawn",
                "subprocess.Popen", "socket.connect", "socket.bind", "shutil.rmtree", "os.kill", "os.symlink", "os.link"):
        if "mpl" not in str(args):
            _AUDIT["events"].append("%s%r" % (ev, args))


ERR = [dict.fromkeys(("divide", "over", "under", "invalid"), "ignore"), dict(divide="warn", over="warn", under="ignore", invalid="warn"),
       dict(divide="warn", over="ignore", under="warn", invalid="ignore"), dict(divide="ignore", over="warn", under="warn", invalid="warn")]


class Injected(Exception):
    pass


LIBDIR = os.path.join(os.path.realpath(REPO), "rockphypy") + os.sep


_KEEP = {}


def _no_fault(path):
    """lines where an interruption proves nothing: clean-up code and the statement that guards it"""
    if path not in _KEEP:
        s = set()
        try:
            def blocks(node):
                for f in ("body", "orelse", "finalbody", "handlers"):
                    b = getattr(node, f, None)
                    if isinstance(b, list) and b and isinstance(b[0], ast.stmt):
                        yield b
            for node in ast.walk(ast.parse(open(path, encoding="utf8").read())):
                if isinstance(node, ast.Try):
                    for x in node.finalbody + [h for h in node.handlers]:
                        s.update(range(x.lineno, x.end_lineno + 1))
                    s.add(node.lineno)
                for b in blocks(node):
                    for x, y in zip(b, b[1:]):
                        if isinstance(y, ast.Try):
                            s.update(range(x.lineno, x.end_lineno + 1))
        except Exception:
            pass
        _KEEP[path] = s
    return _KEEP[path]


def with_fault(name, a, k, at):
    """run the call, raise Injected when the library first reaches the line `at` (file, line);
    (fired, the lines reached)"""
    seen = {}
    fired = [False]

    def local(frame, ev, arg):
        if ev == "line":
            key = (frame.f_code.co_filename, frame.f_lineno)
            if key not in seen:
                seen[key] = True
                if key == at:
                    fired[0] = True
                    raise Injected()
        return local

    def glob(frame, ev, arg):
        f = frame.f_code.co_filename
        if f.startswith(LIBDIR) or os.path.realpath(f).startswith(LIBDIR):
            return local
        return None
    old = sys.gettrace()
    sys.settrace(glob)
    try:
        invoke(name, a, k)
    except Exception:
        pass
    finally:
        sys.settrace(old)
    return fired[0], [x for x in seen if x[1] not in _no_fault(x[0])]


class Shared:
    cat = None
    iso = None


S = Shared()


def judge(log, rule, i, out, hist):
    """result of call i against its isolated result"""
    _, name, a, k = S.cat[i]
    kind, want = S.iso[i]
    if kind != "ok":
        return True
    got = value(out)
    log.evals += 1
    log.event(rule)
    d = equal(got, want)
    if d:
        log.violate(rule, "%s(%s): %s than alone in a fresh process; before it ran %s" % (name, brief(a, 4), d, hist), call=(name, a, k))
        return False
    log.sig(rule, i)
    return True


def mutate(out):
    for o in flat(out):
        if isinstance(o, np.ndarray) and o.flags.writeable and o.dtype.kind in "fc" and o.size:
            o[...] = -12345.678
        elif isinstance(o, pd.Series):
            try:
                o.iloc[:] = -12345.678
            except Exception:
                pass


def caller_settings(rng):
    """settings a caller may have made, none of them the default"""
    np.set_printoptions(precision=int(rng.integers(3, 7)), suppress=bool(rng.random() < .5), threshold=int(rng.integers(50, 900)))
    pd.set_option("display.precision", int(rng.integers(2, 5)))
    pd.set_option("display.max_rows", int(rng.integers(7, 50)))
    matplotlib.rcParams["savefig.pad_inches"] = float(rng.uniform(.02, .09))
    matplotlib.rcParams["savefig.dpi"] = float(rng.integers(50, 90))
    scipy.special.seterr(all=("ignore", "warn")[int(rng.integers(2))])
    logging.root.setLevel(int(rng.integers(11, 29)))
    decimal.getcontext().prec = int(rng.integers(15, 40))
    sys.setrecursionlimit(int(rng.integers(1500, 3000)))
    gc.set_threshold(int(rng.integers(500, 900)), 9, 9)
    warnings.filterwarnings("ignore", message="caller %d" % rng.integers(1000))
    os.environ["RPMON_CALLER"] = str(rng.integers(1000))


def history(which):
    def go(log, rng):
        """a long shuffled history in one process"""
        sys.addaudithook(_hook)
        caller_settings(rng)
        order = rng.permutation(len(S.cat))
        if which == "grouped":       # all variants of a family one after the other
            fams = {}
            for i in order:
                fams.setdefault(S.cat[i][0], []).append(i)
            order = [i for f in fams.values() for i in f + f[:1]]
        elif which == "pairs":       # the same call again later
            order = np.concatenate([order, rng.permutation(len(S.cat))])
        recent = []
        held = []
        nplot = 0
        for i in order:
            i = int(i)
            _, name, a0, k0 = S.cat[i]
            if name in PLOTS:
                nplot += 1
                if nplot % 3 and which != "plots":
                    continue
            a, k = _copyargs(a0), _copyargs(k0)
            ro = rng.random() < .5
            if ro:
                for _, x in _leaves(a):
                    if isinstance(x, np.ndarray):
                        x.flags.writeable = False
            fp = fingerprint((a, k))
            full = True
            np.seterr(**ERR[int(rng.integers(len(ERR)))])      # whatever the caller had set must stay
            g0 = global_state(full)
            figs = plt.get_fignums()
            _AUDIT["events"].clear()
            _AUDIT["on"] = True
            try:
                out = invoke(name, a, k)
            except Exception as e:
                _AUDIT["on"] = False
                if S.iso[i][0] == "ok":
                    log.violate("history", "%s raised %s: %s%s; alone in a fresh process it returned" % (name, type(e).__name__, e, " on read-only arrays" if ro else ""), call=(name, a0, k0), before=recent[-6:])
                    return
                continue
            finally:
                _AUDIT["on"] = False
            log.call(name)
            g1 = global_state(full)
            if g0 != g1:
                log.violate("process state", "%s changed: %s" % (name, [x for x in g0 if g0[x] != g1[x]]), call=(name, a0, k0))
                return
            if name not in PLOTS and plt.get_fignums() != figs:
                log.violate("process state", "%s opened a figure" % name, call=(name, a0, k0))
                return
            log.event("process state compared")
            if _AUDIT["events"]:
                log.violate("side effect", "%s: %s" % (name, _AUDIT["events"][:3]), call=(name, a0, k0))
                return
            log.event("audited calls")
            if fingerprint((a, k)) != fp:
                ch = [x[0] for x, y in zip(fp, fingerprint((a, k))) if x != y]
                log.violate("arguments", "%s changed its argument %s" % (name, ch), call=(name, a0, k0))
                return
            log.event("arguments compared", len(fp))
            if not judge(log, "history", i, out, recent[-6:]):
                return
            recent.append(name)
            if name not in PLOTS:
                held.append((name, i, out, value(out)))
                if len(held) > 60:
                    j = int(rng.integers(len(held)))
                    nm, ii, o, v = held.pop(j)
                    log.evals += 1
                    log.event("earlier result compared")
                    d = equal(value(o), v)
                    if d:
                        log.violate("earlier result", "a result of %s changed afterwards: %s" % (nm, d), call=(nm,) + tuple(S.cat[ii][2:]))
                        return
                    if rng.random() < .5:
                        mutate(o)          # the caller owns its results
            plt.close("all")
        for nm, ii, o, v in held:
            d = equal(value(o), v)
            log.event("earlier result compared")
            if d:
                log.violate("earlier result", "a result of %s changed afterwards: %s" % (nm, d), call=(nm,) + tuple(S.cat[ii][2:]))
                return
        log.sample("history", "%s: %d calls, ending %s" % (which, len(recent), recent[-5:]))
        log.sig("history", which, tuple(recent[:40]))
    return go


def overwrite(log, rng):
    """the caller owns results and arguments: rewrite both in place between calls"""
    fams = {}
    for i, (f, name, a, k) in enumerate(S.cat):
        if name not in PLOTS:
            fams.setdefault(f, []).append(i)
    for f, ids in fams.items():
        name = S.cat[ids[0]][1]
        reps = 1 if name in SLOW else 2
        for _ in range(reps):
            ids = [int(x) for x in rng.permutation(ids)]
            a, k = _copyargs(S.cat[ids[0]][2]), _copyargs(S.cat[ids[0]][3])
            for n, i in enumerate(ids):
                _, _, b, kb = S.cat[i]
                if n:
                    if not _into(a, b) or repr(k) != repr(kb):
                        a, k = _copyargs(b), _copyargs(kb)
                if S.iso[i][0] != "ok":
                    continue
                try:
                    out = invoke(name, a, k)
                except Exception as e:
                    log.violate("rewritten arrays", "%s raised %s: %s after its arrays were rewritten in place" % (name, type(e).__name__, e), call=(name, b, kb))
                    return
                log.call(name)
                if not judge(log, "rewritten arrays", i, out, "the same call with other numbers in the same arrays"):
                    return
                out = invoke(name, _copyargs(b), _copyargs(kb))
                keep = value(out)
                mutate(out)
                out = invoke(name, _copyargs(b), _copyargs(kb))
                log.call(name, 2)
                if not judge(log, "rewritten result", i, out, "the same call, whose result was then overwritten"):
                    return
                a, k = _copyargs(b), _copyargs(kb)


def _into(a, b):
    """write the numbers of b into the mutable objects of a; False if the structures differ"""
    if len(a) != len(b):
        return False
    for j, (x, y) in enumerate(zip(a, b)):
        if isinstance(y, np.ndarray):
            if not isinstance(x, np.ndarray) or x.shape != y.shape or x.dtype != y.dtype:
                return False
        elif isinstance(y, (list, dict)) and (type(x) is not type(y) or len(x) != len(y)):
            return False
    for j, (x, y) in enumerate(zip(a, b)):
        if isinstance(y, np.ndarray):
            x[...] = y
        elif isinstance(y, list):
            x[:] = copy.deepcopy(y)
        else:
            a[j] = copy.deepcopy(y)
    return True


def faults(part, parts):
    def go(log, rng):
        """interrupt calls at every line the library reaches; hand over nonsense; the next calls are unaffected"""
        per = log.n(1, 6)
        ids = [i for i, c in enumerate(S.cat) if c[1] not in SLOW and S.iso[i][0] == "ok"]
        byname = {}
        for i in ids:
            byname.setdefault(S.cat[i][1], []).append(i)
        for name in sorted(byname)[part::parts]:
            lst = byname[name]
            for _ in range(per):
                i = int(lst[int(rng.integers(len(lst)))])
                _, _, a0, k0 = S.cat[i]
                t0 = time.time()
                _, lines = with_fault(name, _copyargs(a0), _copyargs(k0), None)
                plt.close("all")
                if not lines:
                    continue
                if (time.time() - t0) * len(lines) > log.n(2.5, 40):
                    lines = [lines[int(x)] for x in rng.permutation(len(lines))[:max(2, int(log.n(2.5, 40) / (time.time() - t0)))]]
                log.event("lines interrupted", len(lines))
                for at in lines:
                    a, k = _copyargs(a0), _copyargs(k0)
                    fp = fingerprint((a, k))
                    np.seterr(**ERR[int(rng.integers(len(ERR)))])
                    full = rng.random() < .2
                    g0 = global_state(full)
                    fired, _ = with_fault(name, a, k, at)
                    where = "%s:%d" % (os.path.basename(at[0]), at[1])
                    plt.close("all")
                    log.event("faults injected", int(fired))
                    log.call(name)
                    log.evals += 1
                    log.sig("fault", name, at[1])
                    if fingerprint((a, k)) != fp:
                        log.violate("arguments", "%s interrupted at %s leaves its arguments changed" % (name, where), call=(name, a0, k0))
                        return
                    g1 = global_state(full)
                    if g0 != g1:
                        log.violate("process state", "%s interrupted at %s leaves changed: %s" % (name, where, [x for x in g0 if g0[x] != g1[x]]), call=(name, a0, k0))
                        return
                    j = i if rng.random() < .5 else int(lst[int(rng.integers(len(lst)))])
                    if name in PLOTS and rng.random() < .7:
                        continue
                    if not after(log, rng, name, j, "%s interrupted at %s" % (name, where)):
                        return
                # nonsense arguments
                for _k in range(3):
                    if not a0:
                        break
                    b = _copyargs(a0)
                    j = int(rng.integers(len(b)))
                    b[j] = [None, "x", np.zeros((2, 3, 5)), np.nan, -1e300, [], np.zeros(0), "reject"][int(rng.integers(8))]
                    g0 = global_state()
                    so = sys.stdout
                    sys.stdout = io.StringIO()
                    try:
                        invoke(name, b, _copyargs(k0))
                    except Exception:
                        log.event("refused calls")
                    finally:
                        sys.stdout = so
                    plt.close("all")
                    g1 = global_state()
                    if g0 != g1:
                        log.violate("process state", "%s, refusing its arguments, leaves changed: %s" % (name, [x for x in g0 if g0[x] != g1[x]]), call=(name, b, k0))
                        return
                    if not after(log, rng, name, int(lst[int(rng.integers(len(lst)))]), "%s refusing its arguments" % name):
                        return
    return go


def after(log, rng, name, j, what):
    try:
        out = invoke(name, _copyargs(S.cat[j][2]), _copyargs(S.cat[j][3]))
    except Exception as e:
        log.violate("after a fault", "%s raised %s: %s after %s" % (name, type(e).__name__, e, what), call=(name,) + tuple(S.cat[j][2:]))
        return False
    log.call(name)
    ok = judge(log, "after a fault", j, out, what)
    plt.close("all")
    return ok


VALUES = [0.0, -0.0, 1.0, -1.0, 0.5, 2.0, 1e-7, -1e-3, 100.0, 1e9, -1e300, np.nan, np.inf, -np.inf, 0.36, 0.4]


def hostile(part, parts):
    def go(log, rng):
        """values outside the domain, odd containers: arguments and process state stay, and
        the same call twice gives the same result or the same refusal"""
        names = [n for j, n in enumerate(SPECS) if j % parts == part]
        sys.addaudithook(_hook)
        for name in names:
            s = SPECS[name]
            r = R(rng, s.func)
            for _ in range(max(3, int(log.n(12, 120) * min(1, s.weight)))):
                a, k = (family_elem if s.elem else family_case)(s, r, rng)[0]
                a = list(a)
                for j, x in enumerate(a):
                    if isinstance(x, np.ndarray) and x.size and x.dtype.kind == "f":
                        x = x.copy()
                        z = rng.random()
                        if z < .5:
                            m = rng.random(x.shape) < .3
                            m.flat[int(rng.integers(x.size))] = True
                            x[m] = rng.choice(VALUES, int(m.sum()))
                        elif z < .6 and x.ndim == 1:
                            x = np.sort(x)[::-1].copy()
                        elif z < .65:
                            x[...] = x.flat[0]
                        z = rng.random()
                        if z < .12 and x.ndim == 1 and x.size % 2 == 0:
                            x = x.reshape(2, -1)
                        elif z < .24 and np.all(np.isfinite(x)) and np.all(np.abs(x) < 1e9):
                            x = np.round(x).astype(np.int64)
                        elif z < .36 and x.ndim == 1:
                            x = pd.Series(x, index=np.arange(x.size)[::-1])
                        elif z < .42:
                            x = x.tolist()
                        elif z < .48:
                            x = x.astype(np.float32)
                        elif z < .54 and x.ndim == 1:
                            x = np.repeat(x, 2)[::2]
                        a[j] = x
                    elif isinstance(x, float) and rng.random() < .1:
                        a[j] = float(rng.choice(VALUES))
                a1, k1 = _copyargs(a), _copyargs(k)
                fp = fingerprint((a1, k1))
                full = rng.random() < .1
                g0 = global_state(full)
                res = []
                _AUDIT["events"].clear()
                so = sys.stdout
                for args in (a1, _copyargs(a), a1):
                    _AUDIT["on"] = True
                    sys.stdout = io.StringIO()
                    try:
                        res.append(("ok", value(fn(name)(*args, **k1))))
                    except Exception as e:
                        res.append(("exc", type(e).__name__))
                    finally:
                        sys.stdout = so
                        _AUDIT["on"] = False
                log.call(name, 3)
                log.evals += 1
                log.event("hostile calls", 3)
                log.event("hostile calls that returned", sum(x[0] == "ok" for x in res))
                if fingerprint((a1, k1)) != fp:
                    ch = [x[0] for x, y in zip(fp, fingerprint((a1, k1))) if x != y]
                    log.violate("arguments", "%s changed its argument %s" % (name, ch), call=(name, a, k))
                    return
                g1 = global_state(full)
                if g0 != g1:
                    log.violate("process state", "%s changed: %s" % (name, [x for x in g0 if g0[x] != g1[x]]), call=(name, a, k))
                    return
                if _AUDIT["events"]:
                    log.violate("side effect", "%s: %s" % (name, _AUDIT["events"][:3]), call=(name, a, k))
                    return
                for b in res[1:]:
                    if res[0][0] != b[0] or (b[0] == "exc" and b[1] != res[0][1]) or (b[0] == "ok" and equal(b[1], res[0][1])):
                        log.violate("repeat", "%s(%s) twice: %s then %s" % (name, brief(a, 4), brief(res[0]), brief(b)), call=(name, a, k))
                        return
                log.sig("hostile", name, res[0][0], tuple(type(x).__name__ for x in a))
    return go


def instance(log, rng):
    """one set of samples, methods called on it in any order: the samples and the answers stay"""
    r = R(rng, hostile=.2)
    for _ in range(log.n(25, 250)):
        p = rock_par(r)
        seeds = [.005, .02, .05, .08]
        n = 30
        phi = r.u(.05, p["phi_c"] - .12, n)
        L = cement_lines(p, seeds, phi)
        Vp = L[0] + r.u(-.2, 1.2, n) * (L[-1] - L[0])
        d = dict(Vp=Vp, phi=phi, Vs=Vp / 1.8, Vsh=r.u(0, 1, n))
        if rng.random() < .4:
            d = {k: pd.Series(v, index=np.arange(n)[::-1]) for k, v in d.items()}
        fp = fingerprint(d)
        q = lib().QI(d["Vp"], d["phi"], Vs=d["Vs"], Vsh=d["Vsh"])
        held = list(vars(q))
        attr = lambda: {k: (None if getattr(q, k, None) is None else fingerprint([getattr(q, k)])) for k in held}
        a0 = attr()
        args = {}
        for v in (0, 1):
            b, cs = F.bounds(r, 20), F.cst_args(r)[0]
            sd = list(np.array(seeds) * (1 if v == 0 else r.u(.7, 1.3)))
            pe = dict(p) if v == 0 else dict(p, phi_c=p["phi_c"] * .999)
            args["estimate_cem", v] = [sd] + [pe[x] for x in EC]
            args["screening_plot", v] = [b[0]] + list(b[1])
            args["cement_diag_plot", v] = [r.u(0, .1, n)] + [cs[x] for x in F._CP]
            args["kde_plot", v] = [b[0]] + list(b[1])
        for v in range(2, 5):     # the same request with one parameter changed
            x = EC[int(rng.integers(len(EC)))]
            y = {"scheme": 3 - p["scheme"]}.get(x, p[x] * .99 if p[x] else .01)
            args["estimate_cem", v] = [list(seeds)] + [dict(p, **{x: y})[z] for z in EC]
        kw = {"kde_plot": dict(n=16)}
        run = lambda q, o: value(getattr(q, o[0])(*copy.deepcopy(args[o]), **kw.get(o[0], {})))
        first = {}
        seq = []
        ops = [o for o in args for _ in range(4 if o[0] == "estimate_cem" else 1)]
        for _k in range(7):
            o = ops[int(rng.integers(len(ops)))]
            if o not in first:      # another set of the same samples, asked only this
                d2 = copy.deepcopy(d)
                first[o] = run(lib().QI(d2["Vp"], d2["phi"], Vs=d2["Vs"], Vsh=d2["Vsh"]), o)
            seq.append(o)
            v = run(q, o)
            plt.close("all")
            log.call("QI." + o[0])
            log.evals += 1
            log.event("instance calls")
            if attr() != a0 or fingerprint(d) != fp:
                log.violate("arguments", "QI.%s changed the samples it was given (sequence %s)" % (o[0], seq))
                return
            e = equal(v, first[o])
            if e:
                log.violate("history", "QI.%s on the same samples, sequence %s: %s" % (o[0], seq, e))
                return
        log.sig("instance", tuple(seq))


def soak(part, parts):
    def go(log, rng):
        """many repetitions of one call, mixed with its family"""
        fams = {}
        for i, (f, name, a, k) in enumerate(S.cat):
            if name not in PLOTS and name not in SLOW and S.iso[i][0] == "ok":
                fams.setdefault(f, []).append(i)
        fl = [ids for f, ids in fams.items() if f % parts == part]
        budget = log.n(5.0, 90.0) / max(1, len(fl))
        for ids in fl:
            name = S.cat[ids[0]][1]
            t0, n = time.time(), 0
            top = log.n(320, 2500)
            while n < top and (time.time() - t0 < budget or n < 10):
                i = ids[int(rng.integers(len(ids)))]
                a, k = _copyargs(S.cat[i][2]), _copyargs(S.cat[i][3])
                try:
                    out = invoke(name, a, k)
                except Exception as e:
                    log.violate("soak", "%s raised %s: %s at repetition %d" % (name, type(e).__name__, e, n), call=(name, a, k))
                    return
                n += 1
                if not judge(log, "soak", i, out, "%d calls of %s" % (n, name)):
                    return
            log.call(name, n)
            log.event("soak rounds", n)
            # past every whole number the function itself mentions (a call counter, a bounded cache)
            own = [int(v) for v in literals()[1].get(name.split(".")[1], ()) if v == int(v) and n < v <= log.n(5000, 50000)]
            if not own:
                continue
            cost = []
            for i in ids[:6]:
                t1 = time.time()
                invoke(name, _copyargs(S.cat[i][2]), _copyargs(S.cat[i][3]))
                cost.append((time.time() - t1, i))
            i, t0, top, m = min(cost)[1], time.time(), max(own) + 10, n
            while n < top and time.time() - t0 < log.n(1.0, 20.0):
                out = invoke(name, _copyargs(S.cat[i][2]), _copyargs(S.cat[i][3]))
                n += 1
                if not judge(log, "soak", i, out, "%d calls of %s" % (n, name)):
                    return
            log.call(name, n - m)
            log.event("soak rounds past literals", n - m)
    return go


def threads(log, rng):
    """eight threads on shared argument arrays, with delays injected inside the library"""
    ids = [i for i, c in enumerate(S.cat) if c[1] not in PLOTS and c[1] not in SLOW and S.iso[i][0] == "ok"]
    shared = {i: (_copyargs(S.cat[i][2]), _copyargs(S.cat[i][3])) for i in ids}
    fps = {i: fingerprint(v) for i, v in shared.items()}
    byname = {}
    for i in ids:
        byname.setdefault(S.cat[i][1], []).append(i)
    names = list(byname)
    old = sys.getswitchinterval()
    sys.setswitchinterval(1e-6)
    lock = threading.Lock()
    switches = {"last": None, "n": 0, "pairs": set()}
    bad = []
    stop = time.time() + log.n(5.0, 60.0)
    done = [0]
    T = 8
    try:
        def worker(t, seed):
            g = np.random.default_rng(seed)
            r = random.Random(int(g.integers(1 << 30)))

            def local(frame, ev, arg):
                if ev == "line":
                    x = r.random()
                    if x < .12:
                        last = switches["last"]
                        if last is not None and last[0] != t:
                            switches["n"] += 1
                            switches["pairs"].add((last[1], last[2], frame.f_code.co_name, frame.f_lineno))
                        switches["last"] = (t, frame.f_code.co_name, frame.f_lineno)
                        time.sleep(0 if x < .10 else 2e-5)
                return local

            def glob(frame, ev, arg):
                return local if frame.f_code.co_filename.startswith(LIBDIR) else None
            step = 0
            while time.time() < stop and not bad:
                # all threads work on the same function at about the same time, with different arguments
                nm = names[(int((time.time() * 40)) * 7 + (0 if g.random() < .8 else int(g.integers(len(names))))) % len(names)]
                i = byname[nm][int(g.integers(len(byname[nm])))]
                a, k = shared[i]
                sys.settrace(glob)
                try:
                    out = invoke(nm, a, k)
                except Exception as e:
                    sys.settrace(None)
                    bad.append((i, "raised %s: %s" % (type(e).__name__, e)))
                    return
                sys.settrace(None)
                d = equal(value(out), S.iso[i][1])
                with lock:
                    done[0] += 1
                    log.call(nm)
                if d:
                    bad.append((i, d))
                    return
                step += 1
        ts = [threading.Thread(target=worker, args=(t, int(rng.integers(1 << 40)))) for t in range(T)]
        for t in ts:
            t.start()
        for t in ts:
            t.join()
    finally:
        sys.setswitchinterval(old)
    log.evals += done[0]
    log.event("concurrent calls", done[0])
    log.event("thread switches inside the library", switches["n"])
    log.event("distinct interleavings of library lines", len(switches["pairs"]))
    for p in list(switches["pairs"])[:5000]:
        log.sig("interleaving", p)
    if bad:
        i, d = bad[0]
        log.violate("threads", "%s(%s) in eight threads: %s" % (S.cat[i][1], brief(S.cat[i][2], 4), d), call=(S.cat[i][1],) + tuple(S.cat[i][2:]))
        return
    for i, v in shared.items():
        if fingerprint(v) != fps[i]:
            log.violate("arguments", "%s changed a shared argument" % S.cat[i][1], call=(S.cat[i][1],) + tuple(S.cat[i][2:]))
            return
    if switches["n"] < 50:
        log.extra["inconclusive:threads"] = "only %d switches inside the library" % switches["n"]


CHILD = r'''
import sys, os, pickle
sys.dont_write_bytecode = True
sys.path.insert(0, %(verif)r)
sys.path.insert(0, %(repo)r)
import importlib
import numpy as np, random, warnings, matplotlib
import matplotlib.pyplot, scipy.optimize, scipy.integrate, pandas
from rpmon import core
before = [dict(matplotlib.rcParams), np.geterr(), random.getstate(), np.random.get_state()[1].tolist(), os.getcwd(), dict(os.environ), list(warnings.filters)]
mods = %(mods)r
for m in mods:
    importlib.import_module("rockphypy." + m)
import rockphypy
after = [dict(matplotlib.rcParams), np.geterr(), random.getstate(), np.random.get_state()[1].tolist(), os.getcwd(), dict(os.environ), list(warnings.filters)]
names = ["plot settings", "numpy error handling", "python random state", "numpy random state", "working directory", "environment", "warning filters"]
changed = [n for n, x, y in zip(names, before, after) if x != y]
from rpmon import props, purity
cat = pickle.load(open(%(src)r, "rb"))
np.random.seed(%(seed)d); random.seed(%(seed)d)
out = [purity._iso_one(c) for c in cat]
pickle.dump((changed, out), open(%(dst)r, "wb"))
'''


def environment(which):
    def go(log, rng):
        """a fresh interpreter with another environment, import order, hash seed, directory"""
        d = tempfile.mkdtemp(prefix="rpmon-env-")
        try:
            ids = [i for i in range(len(S.cat)) if S.iso[i][0] == "ok"]
            ids = [int(x) for x in rng.permutation(ids)]
            src, dst = os.path.join(d, "in.pkl"), os.path.join(d, "out.pkl")
            with open(src, "wb") as f:
                pickle.dump([S.cat[i] for i in ids], f)
            mods = ["AVO", "BW", "utils", "Perm", "GM", "Fluid", "EM", "Emp", "QI", "Anisotropy"]
            mods = [mods[int(x)] for x in rng.permutation(len(mods))]
            env = dict(os.environ, PYTHONHASHSEED=str(int(rng.integers(1, 4000000))), TZ=["UTC", "Asia/Tokyo", "America/Lima"][which % 3], LC_ALL="C", RPMON_REPO=REPO, HOME=d, PYTHONWARNINGS="ignore")
            code = CHILD % dict(verif=VERIF, repo=REPO, mods=mods, src=src, dst=dst, seed=int(rng.integers(1 << 30)))
            cmd = [sys.executable] + (["-O"] if which % 2 else []) + ["-c", code]
            p = subprocess.run(cmd, cwd=d, env=env, capture_output=True, text=True, timeout=600)
            if p.returncode or not os.path.exists(dst):
                if "rockphypy" in p.stderr and "Error" in p.stderr:
                    log.violate("environment", "a fresh interpreter importing %s fails: %s" % (mods, p.stderr[-800:]))
                else:
                    log.extra["inconclusive:environment"] = p.stderr[-800:]
                return
            changed, out = pickle.load(open(dst, "rb"))
            changed = [c for c in changed if c not in ("environment",)]
            log.holds("importing leaves process-wide settings alone", not changed, changed=changed)
            left = [x for x in os.listdir(d) if x not in ("in.pkl", "out.pkl") and "matplotlib" not in x and not x.startswith(".")]
            log.holds("no files are left behind", not left, left=left)
            for i, o in zip(ids, out):
                log.evals += 1
                log.event("environment")
                log.call(S.cat[i][1])
                e = equal(o[1], S.iso[i][1]) if o[0] == "ok" else "raised " + str(o[1])
                if e:
                    log.violate("environment", "%s(%s) in another interpreter (%s, %s): %s" % (S.cat[i][1], brief(S.cat[i][2], 4), mods, "-O" if which % 2 else "plain", e), call=(S.cat[i][1],) + tuple(S.cat[i][2:]))
                    return
                log.sig("environment", which, i)
        finally:
            shutil.rmtree(d, ignore_errors=True)
    return go


def coverage(log, rng):
    """every public function is in the catalogue, and every call of it returns"""
    rp = lib()
    names = set()
    for c in ("Anisotropy", "AVO", "BW", "utils", "Permeability", "GM", "Fluid", "EM", "Empirical", "QI"):
        for f, v in vars(getattr(rp, c)).items():
            if not f.startswith("_") and callable(getattr(getattr(rp, c), f)):
                names.add("%s.%s" % (c, f))
    have = {c[1] for c in S.cat}
    log.extra["public functions"] = len(names)
    log.extra["public functions in the catalogue"] = len(names & have)
    log.extra["public functions not in the catalogue"] = sorted(names - have)
    for i, (kind, v) in enumerate(S.iso):
        log.evals += 1
        log.event("isolated calls")
        log.sig("isolated", i)
        if kind == "lost":
            log.extra["inconclusive:isolated"] = "a call process was lost"
        elif kind == "exc":
            log.violate("isolated", "%s(%s) raised %s in a fresh process" % (S.cat[i][1], brief(S.cat[i][2], 4), v), call=(S.cat[i][1],) + tuple(S.cat[i][2:]))


def pure_step(log, name, rng):
    """arguments stay as they were; the same call again gives the same after the result was overwritten"""
    r = R(rng, name.split(".")[1])
    if name in SPECS:
        s = SPECS[name]
        a, k = (family_elem(s, r, rng) if s.elem else [s.cases(r)])[0]
    else:
        a, k = special(name, r, rng)[0]
    a, k = list(a), dict(k)
    b, kb = _copyargs(a), _copyargs(k)
    before = fingerprint([b, kb])
    try:
        out = invoke(name, b, kb)
    except Exception as e:
        log.violate("guided", "%s raised %s: %s" % (name, type(e).__name__, e), call=(name, a, k))
        return
    v = value(out)
    log.call(name)
    if not log.holds("guided: arguments unchanged", fingerprint([b, kb]) == before, what="%s%s" % (name, brief(a, 4)), call=(name, a, k)):
        return
    mutate(out)
    d = equal(value(invoke(name, _copyargs(a), _copyargs(k))), v)
    log.holds("guided: same answer after the result was overwritten", d is None, what="%s%s: %s" % (name, brief(a, 4), d), call=(name, a, k))


def tasks(seed=None, tier=None):
    seed = int(os.environ.get("VERIF_SEED", "1") or 1) if seed is None else seed
    tier = tier or os.environ.get("RPMON_TIER", "quick")
    lib()
    S.cat = catalogue(seed, 3 if tier == "quick" else 10)
    S.iso = isolated(S.cat)
    t = [("threads", threads), ("threads2", threads), ("overwrite", overwrite), ("env0", environment(0)), ("env1", environment(1))]
    t += [("history:" + w, history(w)) for w in ("shuffled", "grouped", "pairs", "plots")]
    t += [("hostile%d" % p, hostile(p, 4)) for p in range(4)] + [("instance", instance)] + [("faults%d" % p, faults(p, 4)) for p in range(4)]
    t += [("soak%d" % p, soak(p, 4)) for p in range(4)]
    if tier != "quick":
        from . import usage
        t.append(("usage", usage.purity))
        t += [("env%d" % j, environment(j)) for j in range(2, 6)] + [("history%d" % j, history(["shuffled", "grouped", "pairs"][j % 3])) for j in range(12)]
    t += [("coverage", coverage)]
    from .guide import tasks_of
    t += tasks_of([(nm, lambda lg, g, nm=nm: pure_step(lg, nm, g)) for nm in list(SPECS) + SPECIAL if nm not in PLOTS], 120, 3000)
    return t
