"""Core of the monitors: target loading, verdicts, workload generator, comparison oracle.

Nothing in here looks at how the library is written.  The one use made of its source
text is a *dictionary* of numeric literals (as in fuzzing), from which the workload
draws extra input values; the oracle never sees it.
"""
import ast, base64, glob, hashlib, json, math, os, pickle, signal, sys, time, traceback, warnings, zlib
import itertools

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("RPMON_REPO", "/repo")

sys.dont_write_bytecode = True
sys.pycache_prefix = "/nonexistent-pycache"      # never read a stale .pyc of the tree under test
os.environ.setdefault("MPLBACKEND", "Agg")
for _v in ("OMP_NUM_THREADS", "OPENBLAS_NUM_THREADS", "MKL_NUM_THREADS"):
    os.environ.setdefault(_v, "1")
os.environ.setdefault("MPLCONFIGDIR", "/tmp/rpmon-mpl-%d" % os.getuid())

import numpy as np

warnings.simplefilter("ignore")
np.seterr(all="ignore")


class Inconclusive(Exception):
    pass


def load_target():
    """Import rockphypy from the working tree of the repository."""
    if REPO not in sys.path[:1]:
        sys.path.insert(0, REPO)
    import rockphypy
    f = os.path.realpath(rockphypy.__file__)
    if not f.startswith(os.path.realpath(REPO) + os.sep):
        raise Inconclusive("rockphypy imported from %s, not from %s" % (f, REPO))
    np.seterr(all="ignore")
    warnings.simplefilter("ignore")
    return rockphypy


_LIB = None


def lib():
    global _LIB
    if _LIB is None:
        _LIB = load_target()
    return _LIB


def fn(name):
    """'EM.HS' -> the current attribute (looked up at every use, so hooks are seen)."""
    c, f = name.split(".")
    return getattr(getattr(lib(), c), f)


# ----------------------------------------------------------------------------------------
# dictionary of literals in the tree under test (inputs only)
# ----------------------------------------------------------------------------------------
def mine_literals():
    vals, per_func = set(), {}
    def const(node, depth=0):
        """value of a numeric constant expression, or None"""
        if isinstance(node, ast.Constant) and type(node.value) in (int, float):
            return node.value
        if isinstance(node, ast.UnaryOp) and isinstance(node.op, ast.USub):
            v = const(node.operand, depth + 1)
            return None if v is None else -v
        if isinstance(node, ast.BinOp) and depth < 8:
            a, b = const(node.left, depth + 1), const(node.right, depth + 1)
            if a is None or b is None or (isinstance(node.op, ast.Pow) and (abs(a) > 1e4 or abs(b) > 40)):
                return None
            try:
                v = {ast.Add: lambda: a + b, ast.Sub: lambda: a - b, ast.Mult: lambda: a * b, ast.Div: lambda: a / b, ast.Pow: lambda: a ** b,
                     ast.FloorDiv: lambda: a // b, ast.LShift: lambda: a << b if b < 64 else None}.get(type(node.op), lambda: None)()
            except Exception:
                return None
            return v if isinstance(v, (int, float)) else None
        return None
    for path in sorted(glob.glob(os.path.join(REPO, "rockphypy", "*.py"))):
        try:
            tree = ast.parse(open(path, encoding="utf8").read())
        except Exception:
            continue
        for node in ast.walk(tree):
            if isinstance(node, (ast.FunctionDef,)):
                s = set()
                for sub in ast.walk(node):
                    v = const(sub) if isinstance(sub, (ast.Constant, ast.BinOp)) else None
                    if v is not None and abs(v) < 1e300:
                        v = float(v)
                        if math.isfinite(v):
                            s.add(v)
                            s.add(-v)
                per_func.setdefault(node.name, set()).update(s)
                vals |= s
            elif isinstance(node, ast.Constant) and type(node.value) in (int, float):
                if math.isfinite(float(node.value)):
                    vals.add(float(node.value))
    return sorted(vals), {k: sorted(v) for k, v in per_func.items()}


_LITS = None


def literals():
    global _LITS
    if _LITS is None:
        _LITS = mine_literals()
    return _LITS


# ----------------------------------------------------------------------------------------
# workload generator
# ----------------------------------------------------------------------------------------
class R:
    """Random source for inputs.  u/log draw n values (or one float if n is None): mostly
    continuous, mixed with special values, interval ends, round numbers, integers and
    literals of the tree under test with their floating point neighbours."""

    def __init__(self, rng, func=None, hostile=0.38, wide=True):
        self.rng = rng
        self.hostile = hostile
        self.wide = wide            # everyday ranges only (relations), or the whole domain of the formula
        allv, per = literals()
        self._rows, self._left = {}, 0
        self.own = np.array(per.get(func, []), dtype=float) if func else np.array([])
        self.all = np.array(allv, dtype=float)

    def _mix(self, cont, lo, hi, sp, n, ends):
        rng = self.rng
        k = rng.random(n)
        out = cont
        h = self.hostile
        if h <= 0:
            return out
        sp = [s for s in sp if lo <= s <= hi]
        own = self.own[(self.own >= lo) & (self.own <= hi)]
        al = self.all[(self.all >= lo) & (self.all <= hi)]
        # special values
        m = k < 0.34 * h
        if sp and m.any():
            out[m] = rng.choice(sp, m.sum())
        m = (k >= 0.34 * h) & (k < 0.56 * h)
        if own.size and m.any():
            out[m] = rng.choice(own, m.sum())
        m = (k >= 0.56 * h) & (k < 0.62 * h)
        if al.size and m.any():
            out[m] = rng.choice(al, m.sum())
        m = (k >= 0.62 * h) & (k < 0.72 * h)
        if m.any():
            r = np.round(out[m], rng.integers(0, 4))
            out[m] = np.where((r >= lo) & (r <= hi), r, out[m])
        m = (k >= 0.72 * h) & (k < 0.82 * h)
        if ends and m.any():
            out[m] = np.where(rng.random(m.sum()) < 0.5, lo, hi)
        m = (k >= 0.82 * h) & (k < h)
        if m.any():   # floating point neighbours / tiny offsets of what is there
            z = out[m].copy()
            pool = list(sp) + list(own)
            if pool:
                z = rng.choice(pool, m.sum())
            f = rng.choice([1e-15, 1e-12, 1e-9, 1e-6, 1e-4, 1e-3, 1e-2], m.sum()) * rng.choice([-1, 1], m.sum())
            z = z + f * np.where(z == 0, (hi - lo), np.abs(z))
            out[m] = np.clip(z, lo, hi) if ends else np.where((z > lo) & (z < hi), z, out[m])
        return out

    def u(self, lo, hi, n=None, sp=(), ends=True, wide=None):
        """wide: a larger range, outside everyday use, from which a tenth of the values come"""
        m = 1 if n is None else n
        v = self._mix(self.rng.uniform(lo, hi, m), lo, hi, sp, m, ends)
        if wide and self.wide:
            v = np.where(self.rng.random(m) < .1, self._mix(self.rng.uniform(wide[0], wide[1], m), wide[0], wide[1], sp, m, True), v)
        v = self._corner(v, lo, hi, n, wide, False)
        return float(v[0]) if n is None else v

    def log(self, lo, hi, n=None, sp=(), ends=True, wide=None):
        m = 1 if n is None else n
        v = self._mix(np.exp(self.rng.uniform(math.log(lo), math.log(hi), m)), lo, hi, sp, m, ends)
        if wide and self.wide:
            v = np.where(self.rng.random(m) < .1, self._mix(np.exp(self.rng.uniform(math.log(wide[0]), math.log(wide[1]), m)), wide[0], wide[1], sp, m, True), v)
        v = self._corner(v, lo, hi, n, wide, True)
        return float(v[0]) if n is None else v

    def _corner(self, v, lo, hi, n, wide, log):
        """rows whose arguments lie near the ends of their ranges all at once"""
        if not self.wide or self.hostile <= 0:
            return v
        rng, m = self.rng, len(v)
        if n is None:
            if self._left <= 0 and rng.random() < .004:
                self._left = 12
            self._left -= 1
            c = np.array([self._left >= 0])
        else:
            if m not in self._rows:
                self._rows[m] = rng.random(m) < .06
            c = self._rows[m]
        c = c & (rng.random(m) < .75)
        if not c.any():
            return v
        if wide and rng.random() < .5:
            lo, hi = wide
        t = np.where(rng.random(m) < .5, 10 ** rng.uniform(-3, -.5, m), rng.random(m) * .15)
        t = np.where(rng.random(m) < .5, t, 1 - t)
        z = np.exp(math.log(lo) + (math.log(hi) - math.log(lo)) * t) if log else lo + (hi - lo) * t
        return np.where(c, z, v)

    def plain(self, lo, hi, n=None):
        v = self.rng.uniform(lo, hi, 1 if n is None else n)
        return float(v[0]) if n is None else v

    def int(self, lo, hi, n=None):
        v = self.rng.integers(lo, hi + 1, 1 if n is None else n)
        return int(v[0]) if n is None else v

    def pick(self, seq):
        return seq[int(self.rng.integers(len(seq)))]

    def size(self, big=3000):
        """array lengths: small, ordinary, large, and around integer literals of the tree"""
        k = self.rng.random()
        if k < 0.15:
            return 1
        if k < 0.55:
            return int(self.rng.integers(2, 12))
        if k < 0.80:
            return int(self.rng.integers(12, 300))
        if k < 0.89:
            return int(self.rng.integers(min(300, big // 2), big))
        if k < 0.91:
            return int(np.exp(self.rng.uniform(np.log(big), np.log(20 * big))))
        ints = self.own[(self.own == np.floor(self.own)) & (self.own >= 1) & (self.own <= min(20000, 7 * big))]
        if ints.size:
            return max(1, int(self.rng.choice(ints)) + int(self.rng.integers(-1, 2)))
        return int(self.rng.choice([16, 31, 32, 33, 64, 65, 100, 101, 128, 129, 255, 256, 257, 512, 513, 1000, 1001, 1024, 1025, 2048, 4097]))

    # --- physical draws
    MINERALS = [(37., 44.), (36.6, 45.), (36., 45.), (25., 9.), (20.9, 6.9), (76.8, 32.), (94.9, 45.),
                (37., 45.), (21., 7.), (40., 20.), (65., 31.), (147.4, 132.5)]

    def mineral(self, n=None, lo=3., hi=120., numin=-0.08, numax=0.47):
        m = 1 if n is None else n
        K = self.log(lo, hi, m)
        nu = self.rng.uniform(numin, numax, m)
        aux = (self.rng.random(m) < .08) & (numin < 0) & self.wide       # auxetic grains, where the model allows them
        nu = np.where(aux, self.rng.uniform(-.6, 0, m), nu)
        G = 3 * K * (1 - 2 * nu) / (2 * (1 + nu))
        k = self.rng.random(m)
        G2 = self.log(1., 110., m)
        nu2 = (3 * K - 2 * G2) / (6 * K + 2 * G2)
        ok = (k < 0.3) & ~aux & (nu2 > numin) & (nu2 < numax)
        G = np.where(ok, G2, G)
        sel = (k > 0.9) & ~aux & (lo <= 20)
        if sel.any():
            idx = self.rng.integers(0, len(self.MINERALS), m)
            mm = np.array(self.MINERALS)
            K = np.where(sel, mm[idx, 0], K)
            G = np.where(sel, mm[idx, 1], G)
        r = (k > 0.82) & (k <= 0.9)
        K = np.where(r, np.maximum(np.round(K), 1), K)
        G = np.where(r & (np.round(G) >= 1), np.maximum(np.round(G), 1), G)
        nu3 = (3 * K - 2 * G) / (6 * K + 2 * G)
        bad = (nu3 < np.where(aux, -.7, -.2)) | (nu3 > 0.485)
        G = np.where(bad, 0.6 * K, G)
        return (float(K[0]), float(G[0])) if n is None else (K, G)

    def porosity(self, n=None, cmin=0.25, cmax=0.6, fmin=0.0, fmax=1.0):
        """(phi, phic) with fmin*phic <= phi <= fmax*phic, the ends included"""
        m = 1 if n is None else n
        phic = self.u(cmin, cmax, m, sp=[0.36, 0.4, 0.38, 0.45])
        t = self.u(fmin, fmax, m, sp=[fmin, fmax, 0.5, 1e-7])
        phi = np.where(t == 1.0, phic, phic * t)
        d = self.u(fmin, cmax, m, sp=[0.1, 0.2, 0.3])
        use = (self.rng.random(m) < 0.3) & (d <= phic * fmax) & (d >= phic * fmin)
        phi = np.where(use, d, phi)
        return (float(phi[0]), float(phic[0])) if n is None else (phi, phic)


# ----------------------------------------------------------------------------------------
# results of a monitored run
# ----------------------------------------------------------------------------------------
def flat(out):
    if isinstance(out, (tuple, list)):
        r = []
        for o in out:
            r += flat(o)
        return r
    return [out]


def brief(x, lim=6):
    try:
        if hasattr(x, "to_numpy"):
            return "Series" + brief(x.to_numpy(), lim)
        if isinstance(x, np.ndarray):
            if x.size <= lim:
                return np.array2string(x, precision=17, separator=",").replace("\n", "")
            return "array%s[%s ...]" % (x.shape, ",".join("%.17g" % v if np.isrealobj(x) and x.dtype.kind in "fiu" else str(v) for v in x.ravel()[:lim]))
        if isinstance(x, (tuple, list)):
            return "(" + ", ".join(brief(v, lim) for v in x[:8]) + (" ..." if len(x) > 8 else "") + ")"
        if isinstance(x, dict):
            return "{" + ", ".join("%s=%s" % (k, brief(v, lim)) for k, v in x.items()) + "}"
        if isinstance(x, (float, np.floating)):
            return "%.17g" % x
        return repr(x)[:200]
    except Exception:
        return "<%s>" % type(x).__name__


def _size(v):
    try:
        return np.size(v)
    except ValueError:                       # a ragged list
        return -1


class Log:
    """What one worker observed.  Merged by the parent."""

    def __init__(self, prop, tier="quick", seed=1):
        self.prop, self.tier, self.seed = prop, tier, seed
        self.counts = {}        # events by kind
        self.calls = {}         # library calls observed, by function
        self.evals = 0          # oracle evaluations
        self.sigs = set()       # distinct nontrivial signatures
        self.samples = []
        self.viol = []
        self.finds = {}         # known-finding key -> number of matching events
        self.nsamp = {}
        self.extra = {}

    def n(self, q, t):
        if self.tier == "thorough":
            return t
        return min(int(2.5 * q), max(q, t)) if isinstance(q, int) else q

    def event(self, kind, k=1):
        self.counts[kind] = self.counts.get(kind, 0) + k

    def call(self, name, k=1):
        self.calls[name] = self.calls.get(name, 0) + k

    def sig(self, *parts):
        self.sigs.add(hashlib.blake2b(repr(parts).encode(), digest_size=8).digest())

    def sample(self, kind, text):
        c = self.nsamp.get(kind, 0)
        if c < 2:
            self.nsamp[kind] = c + 1
            self.samples.append(("%s: %s" % (kind, text))[:400])

    def violate(self, rule, msg, /, **info):
        self.event("violations")
        if len(self.viol) < 20:
            pk = None
            if "call" in info:
                try:
                    pk = base64.b64encode(pickle.dumps(info["call"])).decode()
                except Exception:
                    pk = None
            self.viol.append({"rule": rule, "what": msg,
                              "info": {k: brief(v, 12) for k, v in info.items()},
                              "pickled_call": pk})

    def finding(self, key, k=1):
        self.finds[key] = self.finds.get(key, 0) + k

    def merge(self, o):
        for k, v in o.counts.items():
            self.event(k, v)
        for k, v in o.calls.items():
            self.call(k, v)
        for k, v in o.finds.items():
            self.finding(k, v)
        for k, v in o.extra.items():
            self.extra.setdefault(k, v)
        self.evals += o.evals
        self.sigs |= o.sigs
        self.samples += o.samples
        self.viol += o.viol

    # --- oracle helpers -------------------------------------------------------------
    def close(self, rule, got, want, rtol=1e-8, atol=0.0, scale=None, **info):
        """got == want up to rounding (NaN == NaN).  Returns True when it holds."""
        self.evals += max(1, np.size(want))
        self.event("relation:" + rule, max(1, np.size(want)))
        g, w = np.asarray(got), np.asarray(want)
        try:
            g, w = np.broadcast_arrays(g, w)
        except ValueError:
            self.violate(rule, "shape %s, expected %s" % (np.shape(got), np.shape(want)), got=got, want=want, **info)
            return False
        if g.dtype == object or w.dtype == object:
            g, w = g.astype(complex), w.astype(complex)
        s = np.abs(w) if scale is None else np.maximum(np.abs(w), scale)
        d = np.abs(g - w)
        ok = (d <= rtol * s + atol) | (np.isnan(g) & np.isnan(w)) | (g == w)
        self.sig(rule, tuple(np.round(np.nan_to_num(np.abs(np.asarray(w, dtype=complex).ravel()[:3])), 9)))
        if np.all(ok):
            self.sample(rule, "got %s want %s %s" % (brief(g, 3), brief(w, 3), brief(info, 3)))
            return True
        i = int(np.argmin(ok.ravel()))
        at = {k: np.ravel(v)[i] for k, v in info.items() if k != "call" and _size(v) == w.size and not isinstance(v, str)}
        self.violate(rule, "got %s, expected %s (element %d, tolerance %.3g) %s" % (
            g.ravel()[i], w.ravel()[i], i, float(np.ravel(rtol * s + atol * np.ones(s.shape))[i]), brief(at)), got=got, want=want, **info)
        return False

    def holds(self, rule, cond, /, **info):
        self.evals += max(1, np.size(cond))
        self.event("relation:" + rule, max(1, np.size(cond)))
        c = np.asarray(cond)
        self.sig(rule, tuple((k, brief(v, 2)) for k, v in sorted(info.items())[:3]))
        if np.all(c):
            self.sample(rule, "held for %s" % brief(info, 3))
            return True
        i = int(np.argmin(c.ravel()))
        self.violate(rule, "does not hold (element %d: %s)" % (i, brief({k: (np.ravel(v)[i] if _size(v) == c.size > 1 else v) for k, v in info.items() if k == "what" or _size(v) == c.size})), **info)
        return False


# ----------------------------------------------------------------------------------------
# running tasks in parallel
# ----------------------------------------------------------------------------------------
def task_seed(seed, name):
    return np.random.default_rng([int(seed) & 0xFFFFFFFF, zlib.crc32(name.encode())])


class Hang(BaseException):
    pass


def _alarm(sig, frame):
    raise Hang("at " + "".join(traceback.format_stack(frame)[-3:]))


def limit(tier):
    """seconds after which a workload that takes a few seconds is taken to hang"""
    return 3000 if tier == "thorough" else 480


def _run_task(t):
    prop, tier, seed, name, f = t
    log = Log(prop, tier, seed)
    t0 = time.time()
    try:
        signal.signal(signal.SIGALRM, _alarm)
        signal.alarm(limit(tier))
        f(log, task_seed(seed, prop + "/" + name))
    except Inconclusive as e:
        log.extra["inconclusive:" + name] = str(e)
    except Exception as e:
        log.extra["error:" + name] = traceback.format_exc()[-3000:]
    except Hang as e:
        log.violate("hang", "the workload %s did not end within %d s; %s" % (name, limit(tier), str(e)[-900:]))
    finally:
        signal.alarm(0)
    log.extra["t:" + name] = round(time.time() - t0, 2)
    return log


_TASKS = []


def _run_idx(i):
    return _run_task(_TASKS[i])


def run_tasks(prop, tier, seed, tasks, workers=None):
    """tasks: list of (name, callable(log, rng)).  Forked workers; deterministic per seed."""
    import multiprocessing as mp
    global _TASKS
    lib()
    _TASKS = [(prop, tier, seed, n, f) for n, f in tasks]
    total = Log(prop, tier, seed)
    workers = workers or int(os.environ.get("RPMON_WORKERS", "0")) or min(8, os.cpu_count() or 1)
    if workers > 1 and len(tasks) > 1:
        with mp.get_context("fork").Pool(min(workers, len(tasks))) as p:
            it = p.imap_unordered(_run_idx, range(len(_TASKS)), chunksize=1)
            for _ in _TASKS:
                try:
                    total.merge(it.next(timeout=limit(tier) + 120))
                except mp.TimeoutError:         # stuck outside Python, or the process was killed
                    total.violate("hang", "a workload process did not answer for %d s" % (limit(tier) + 120))
                    break
    else:
        for t in _TASKS:
            total.merge(_run_task(t))
    return total
