"""Workload guidance from comparisons observed at run time.

A second copy of the library is loaded from the same working tree with every comparison,
truth test, clip, minimum/maximum, closeness test and table search wrapped by a probe that
records how far each operand was from giving the other answer.  A search over the recorded
random choices of a workload step then drives inputs to answers that were not seen yet, to
ties, and to combinations (`a & b`), staying inside the domain of the generators because only
the choices move.  The copy only supplies *inputs*: whatever oracle the step contains is
judged on the library itself, with the same choices.
"""
import ast, importlib.abc, importlib.util, os, sys, time
import numpy as np
from . import core
from .core import Log

ALIAS = "_rockphypy_probed"
TRACE = {}                      # (site, outcome) -> distance
LAST = {}                       # site -> (distance to True, distance to False), element by element
SITES = {}                      # site -> text
_ON = [False]


# ----------------------------------------------------------------------------- the probes
def _put(site, out, d):
    k = (site, out)
    o = TRACE.get(k)
    if o is None or d < o:
        TRACE[k] = d


def _num(x):
    if isinstance(x, (bool, str, bytes, type(None), type)):
        return None
    try:
        v = np.asarray(x)
        if v.dtype == object:
            v = v.astype(float)
        if v.dtype.kind == "c":
            v = v.real
        if v.dtype.kind not in "fiu" or v.size == 0 or v.size > 4096:
            return None
        return v.astype(float)
    except Exception:
        return None


def _signed(site, s, strict, eq=False, scale=1.0):
    """record a comparison s < 0 (strict), s <= 0, or s == 0"""
    s = np.where(np.isnan(s), 1e300, s)
    if eq:
        dT = np.abs(s)
        dF = np.where(s == 0, 1e-12, 0.0)
        _put(site, "T", float(dT.min()))
        _put(site, "F", float(dF.min()))
    else:
        tiny = 1e-13
        t = s < 0 if strict else s <= 0
        dT = np.where(t, 0.0, np.maximum(s, tiny))
        dF = np.where(t, np.maximum(-s, tiny), 0.0)
        _put(site, "T", float(dT.min()))
        _put(site, "F", float(dF.min()))
        a = np.abs(s)
        _put(site, "E", float(a.min()))
        if t.any():                         # the nearest to the border, from either side
            _put(site, "ET", float(a[t].min()))
        if not t.all():
            _put(site, "EF", float(a[~t].min()))
    if s.size > 1:
        _put(site, "AT", float(dT.max()))
        _put(site, "AF", float(dF.max()))
    LAST[site] = (dT, dF)


def _compare(site, op, a, b):
    x, y = _num(a), _num(b)
    if x is None or y is None:
        if op in ("in", "not in") and x is not None and x.size == 1:
            try:
                y = _num(list(b))
            except Exception:
                y = None
            if y is not None:
                _signed(site, np.abs(x.reshape(()) - y) / (np.abs(x.reshape(())) + np.abs(y) + 1e-300), False, True)
        return
    try:
        with np.errstate(all="ignore"):
            s = (x - y) / (np.abs(x) + np.abs(y) + 1e-300)
    except ValueError:
        return
    if op == "<":
        _signed(site, s, True)
    elif op == "<=":
        _signed(site, s, False)
    elif op == ">":
        _signed(site, -s, True)
    elif op == ">=":
        _signed(site, -s, False)
    elif op in ("==", "!="):
        _signed(site, s, False, True)


OPS = {ast.Lt: ("<", lambda a, b: a < b), ast.LtE: ("<=", lambda a, b: a <= b), ast.Gt: (">", lambda a, b: a > b), ast.GtE: (">=", lambda a, b: a >= b),
       ast.Eq: ("==", lambda a, b: a == b), ast.NotEq: ("!=", lambda a, b: a != b), ast.In: ("in", lambda a, b: a in b), ast.NotIn: ("not in", lambda a, b: a not in b),
       ast.Is: ("is", lambda a, b: a is b), ast.IsNot: ("is not", lambda a, b: a is not b)}
_OPF = {n: f for n, f in OPS.values()}


def P_cmp(site, op, a, b):
    r = _OPF[op](a, b)
    if _ON[0]:
        try:
            _compare(site, op, a, b)
        except Exception:
            pass
    return r


def P_truth(site, v):
    if _ON[0]:
        try:
            if isinstance(v, (bool, np.bool_)):
                _put(site, "T" if v else "F", 0.0)
                if (site, "F" if v else "T") not in TRACE:
                    TRACE[(site, "F" if v else "T")] = 1.0      # no direction known
            else:
                x = _num(v)
                if x is not None and x.size == 1:
                    d = float(np.abs(x).reshape(()))
                    _put(site, "F", d)
                    _put(site, "T", 0.0 if d else 1e-12)
        except Exception:
            pass
    return v


def P_comb(site, op, ca, cb, a, b):
    r = (a & b) if op == "&" else (a | b)
    if _ON[0]:
        try:
            da, db = LAST.get(ca), LAST.get(cb)
            if da is not None and db is not None:
                dT = da[0] + db[0] if op == "&" else np.minimum(da[0], db[0])
                dF = np.minimum(da[1], db[1]) if op == "&" else da[1] + db[1]
                _put(site, "T", float(dT.min()))
                _put(site, "F", float(dF.min()))
                if dT.size > 1:
                    _put(site, "AT", float(dT.max()))
                    _put(site, "AF", float(dF.max()))
                LAST[site] = (dT, dF)
        except Exception:
            pass
    return r


def P_not(site, child, a):
    r = ~a
    if child in LAST:
        LAST[site] = LAST[child][::-1]
    return r


def P_call(site, kind, f, *a, **k):
    if _ON[0]:
        try:
            if kind == "pair" and len(a) == 2:
                _compare(site, "<", a[0], a[1])
            elif kind == "clip":
                lo = a[1] if len(a) > 1 else k.get("a_min", k.get("min"))
                hi = a[2] if len(a) > 2 else k.get("a_max", k.get("max"))
                if lo is not None:
                    _compare(site, "<", a[0], lo)
                if hi is not None:
                    _compare(site + 0.5, ">", a[0], hi)
            elif kind == "zero":
                _compare(site, "<", a[0], 0.0)
            elif kind == "close":
                x, y = _num(a[0]), _num(a[1])
                rt = k.get("rtol", a[2] if len(a) > 2 else k.get("rel_tol", 1e-5))
                at = k.get("atol", a[3] if len(a) > 3 else k.get("abs_tol", 1e-8))
                if x is not None and y is not None:
                    _signed(site, (np.abs(x - y) - at - rt * np.abs(y)) / (np.abs(x) + np.abs(y) + 1e-300), False)
            elif kind == "bins":
                x, y = _num(a[0]), _num(a[1])
                if f is np.searchsorted:
                    x, y = y, x
                if x is not None and y is not None:
                    for i, e in enumerate(np.ravel(y)[:40]):
                        _compare(site + (i + 1) / 64.0, "<", x, float(e))
        except Exception:
            pass
    return f(*a, **k)


def P_method(site, o, name, *a, **k):
    if name == "clip" and _ON[0]:
        try:
            if len(a) > 0 and a[0] is not None:
                _compare(site, "<", o, a[0])
            if len(a) > 1 and a[1] is not None:
                _compare(site + .5, ">", o, a[1])
        except Exception:
            pass
    return getattr(o, name)(*a, **k)


def P_mark(site):
    if _ON[0]:
        _put(site, "T", 0.0)


PAIR = {"minimum", "maximum", "fmin", "fmax"}
ZERO = {"abs", "absolute", "fabs", "sign", "heaviside"}


class Instrument(ast.NodeTransformer):
    def __init__(self, mod, pkg):
        self.mod, self.pkg = mod, pkg
        self.fn = "?"

    def site(self, n):
        s = len(SITES) * 1.0 + 1
        try:
            t = ast.unparse(n)[:90]
        except Exception:
            t = type(n).__name__
        SITES[s] = "%s.%s:%s %s" % (self.mod, self.fn, getattr(n, "lineno", "?"), t)
        return s

    @staticmethod
    def call(name, *args):
        return ast.Call(func=ast.Name(name, ast.Load()), args=[a if isinstance(a, ast.AST) else ast.Constant(a) for a in args], keywords=[])

    @staticmethod
    def of(n):
        """site of an instrumented expression"""
        if isinstance(n, ast.Call) and isinstance(n.func, ast.Name) and n.func.id in ("P_cmp", "P_comb", "P_not", "P_call") and n.args and isinstance(n.args[0], ast.Constant):
            return n.args[0].value
        return -1.0

    def visit_FunctionDef(self, n):
        old, self.fn = self.fn, n.name
        n.body = [self.visit(b) for b in n.body]
        self.fn = old
        return n

    def visit_ImportFrom(self, n):
        if n.level == 0 and n.module and (n.module == "rockphypy" or n.module.startswith("rockphypy.")):
            n.module = ALIAS + n.module[len("rockphypy"):]
        return n

    def visit_Import(self, n):
        for a in n.names:
            if a.name == "rockphypy" or a.name.startswith("rockphypy."):
                if a.asname is None:
                    raise SyntaxError("plain import of the package")
                a.name = ALIAS + a.name[len("rockphypy"):]
        return n

    def visit_AnnAssign(self, n):
        if n.value is not None:
            n.value = self.visit(n.value)
        return n

    def visit_JoinedStr(self, n):
        return n

    def visit_Compare(self, n):
        src = n
        s0 = self.site(src)
        n = self.generic_visit(n)
        if any(type(o) not in OPS for o in n.ops):
            return n
        if len(n.ops) == 1:
            return self.call("P_cmp", s0, OPS[type(n.ops[0])][0], n.left, n.comparators[0])
        if not all(isinstance(c, (ast.Name, ast.Constant)) for c in n.comparators[:-1]):
            return n
        parts, left = [], n.left
        for o, c in zip(n.ops, n.comparators):
            parts.append(self.call("P_cmp", self.site(src), OPS[type(o)][0], left, c))
            left = c
        return ast.BoolOp(ast.And(), parts)

    def visit_BinOp(self, n):
        s = self.site(n) if isinstance(n.op, (ast.BitAnd, ast.BitOr)) else None
        n = self.generic_visit(n)
        if s is not None:
            return self.call("P_comb", s, "&" if isinstance(n.op, ast.BitAnd) else "|", self.of(n.left), self.of(n.right), n.left, n.right)
        return n

    def visit_UnaryOp(self, n):
        s = self.site(n) if isinstance(n.op, (ast.Invert, ast.Not)) else None
        n = self.generic_visit(n)
        if s is not None and isinstance(n.op, ast.Invert):
            return self.call("P_not", s, self.of(n.operand), n.operand)
        if s is not None:
            n.operand = self.truth(n.operand, s)
        return n

    def truth(self, e, s):
        if isinstance(e, ast.BoolOp) or self.of(e) != -1.0 and isinstance(e, ast.Call) and e.func.id == "P_cmp" and e.args[1].value in ("is", "is not") :
            return e
        return self.call("P_truth", s, e)

    def test(self, n):
        s = self.site(n.test)
        n = self.generic_visit(n)
        n.test = self.truth(n.test, s)
        return n

    visit_If = visit_While = visit_IfExp = test

    def visit_BoolOp(self, n):
        s = [self.site(v) for v in n.values]
        n = self.generic_visit(n)
        n.values = [self.truth(v, t) for v, t in zip(n.values, s)]
        return n

    def visit_ExceptHandler(self, n):
        s = self.site(n)
        n = self.generic_visit(n)
        n.body.insert(0, ast.Expr(self.call("P_mark", s)))
        return n

    def visit_Call(self, n):
        s = self.site(n)
        n = self.generic_visit(n)
        if any(isinstance(a, ast.Starred) for a in n.args):
            return n
        f = n.func
        kind = None
        if isinstance(f, ast.Attribute) and isinstance(f.value, ast.Name) and f.value.id in ("np", "numpy", "math"):
            a = f.attr
            kind = "pair" if a in PAIR and len(n.args) == 2 else "clip" if a == "clip" else "zero" if a in ZERO and n.args else "close" if a in ("isclose", "allclose") and len(n.args) >= 2 else \
                "bins" if a in ("digitize", "searchsorted", "interp") and len(n.args) >= 2 else \
                "and" if a == "logical_and" and len(n.args) == 2 else "or" if a == "logical_or" and len(n.args) == 2 else None
            if kind in ("and", "or"):
                return self.call("P_comb", s, "&" if kind == "and" else "|", self.of(n.args[0]), self.of(n.args[1]), *n.args)
        elif isinstance(f, ast.Name) and f.id in ("min", "max") and len(n.args) == 2 and not n.keywords:
            kind = "pair"
        elif isinstance(f, ast.Name) and f.id == "abs" and len(n.args) == 1:
            kind = "zero"
        elif isinstance(f, ast.Attribute) and f.attr == "clip":
            return ast.Call(func=ast.Name("P_method", ast.Load()), args=[ast.Constant(s), f.value, ast.Constant("clip")] + n.args, keywords=n.keywords)
        if kind:
            return ast.Call(func=ast.Name("P_call", ast.Load()), args=[ast.Constant(s), ast.Constant(kind), f] + n.args, keywords=n.keywords)
        return n


class Finder(importlib.abc.MetaPathFinder, importlib.abc.Loader):
    def find_spec(self, name, path=None, target=None):
        if name != ALIAS and not name.startswith(ALIAS + "."):
            return None
        rel = name[len(ALIAS):].replace(".", os.sep)
        base = os.path.join(core.REPO, "rockphypy") + rel
        for f, pkg in ((os.path.join(base, "__init__.py"), True), (base + ".py", False)):
            if os.path.exists(f):
                s = importlib.util.spec_from_loader(name, self, origin=f, is_package=pkg)
                s.loader_state = f
                if pkg:
                    s.submodule_search_locations = [base]
                return s
        return None

    def create_module(self, spec):
        return None

    def exec_module(self, m):
        f = m.__spec__.loader_state
        m.__file__ = f
        t = ast.parse(open(f, encoding="utf8").read())
        t = Instrument(m.__name__[len(ALIAS) + 1:], m.__package__).visit(t)
        ast.fix_missing_locations(t)
        m.__dict__.update({n: g for n, g in globals().items() if n.startswith("P_")})
        exec(compile(t, f, "exec"), m.__dict__)


_SHADOW = []


def shadow():
    """the probed copy, or None when it cannot be made"""
    if not _SHADOW:
        try:
            core.lib()
            sys.meta_path.insert(0, Finder())
            _SHADOW.append(importlib.import_module(ALIAS))
        except Exception as e:
            _SHADOW.append(None)
            shadow.error = repr(e)
    return _SHADOW[0]


# ------------------------------------------------------------------- recorded random choices
class GRng:
    """a numpy generator whose draws are recorded, and replayed from a list of choices"""

    def __init__(self, seed, choices=()):
        self.seed = seed
        self.g = np.random.default_rng(seed)
        self.todo, self.pos = choices, 0
        self.out = []

    def _next(self, kind, size, fresh):
        """unit values of this draw: replayed when the recorded draw has the same kind"""
        n = 1 if size is None else int(np.prod(size))
        v = None
        if self.pos < len(self.todo):
            k, w = self.todo[self.pos]
            if k == kind:
                self.pos += 1
                if w.size == n:
                    v = w
                elif n and w.size:
                    v = np.concatenate([w, fresh(n - w.size)]) if n > w.size else w[:n]
        if v is None:
            v = fresh(n)
        self.out.append((kind, v))
        return v

    def _shape(self, v, size):
        return v[0] if size is None else v.reshape(size)

    def random(self, size=None):
        v = self._next("u", size, self.g.random)
        v = np.minimum(v, 1 - 2 ** -53)
        return float(v[0]) if size is None else v.reshape(size)

    def uniform(self, low=0.0, high=1.0, size=None):
        if size is None and (np.ndim(low) or np.ndim(high)):
            size = np.broadcast(low, high).shape
        v = self._next("u", size, self.g.random)
        v = float(v[0]) if size is None else v.reshape(size)
        return low + (high - low) * v

    def integers(self, low, high=None, size=None, dtype=np.int64, endpoint=False):
        if high is None:
            low, high = 0, low
        if np.ndim(low) or np.ndim(high):
            size = np.broadcast(low, high).shape if size is None else size
        v = self._next("i", size, self.g.random)
        v = v[0] if size is None else v.reshape(size)
        w = np.asarray(high) - np.asarray(low) + (1 if endpoint else 0)
        r = low + np.minimum(np.floor(v * w), w - 1)
        return int(r) if size is None else np.asarray(r).astype(dtype)

    def choice(self, a, size=None, replace=True, p=None, **kw):
        n = int(a) if np.ndim(a) == 0 else len(a)
        if not replace:
            i = self.permutation(n)[: 1 if size is None else int(np.prod(size))]
            i = i[0] if size is None else i.reshape(size)
        elif p is not None:
            v = self._next("i", size, self.g.random)
            i = np.minimum(np.searchsorted(np.cumsum(p), v, side="right"), n - 1)
            i = int(i[0]) if size is None else i.reshape(size)
        else:
            i = self.integers(0, n, size)
        return i if np.ndim(a) == 0 else (a[i] if isinstance(a, np.ndarray) else np.asarray(a)[i])

    def normal(self, loc=0.0, scale=1.0, size=None):
        from scipy.special import ndtri
        v = self._next("u", size, self.g.random)
        z = ndtri(np.clip(v, 1e-9, 1 - 1e-9))
        return loc + scale * self._shape(z, size)

    def standard_normal(self, size=None):
        return self.normal(0.0, 1.0, size)

    def dirichlet(self, alpha, size=None):
        n = len(alpha)
        sh = (n,) if size is None else tuple(np.atleast_1d(size)) + (n,)
        from scipy.special import gammaincinv
        v = self._next("u", sh, self.g.random).reshape(sh)
        z = gammaincinv(np.asarray(alpha, float), np.clip(v, 1e-12, 1 - 1e-12)) + 1e-30
        return z / z.sum(axis=-1, keepdims=True)

    def permutation(self, x):
        n = int(x) if np.ndim(x) == 0 else len(x)
        v = self._next("p", n, self.g.random)
        i = np.argsort(v, kind="stable")
        return i if np.ndim(x) == 0 else np.asarray(x)[i]

    def __getattr__(self, name):
        return getattr(self.g, name)


class GLog(Log):
    """a log of a few cases: its own judgement of whether there were enough does not count"""
    def fold(self, into):
        self.extra = {k: v for k, v in self.extra.items() if not k.startswith("inconclusive:")}
        into.merge(self)

    def n(self, q, t):
        return 1


class Cand:
    __slots__ = ("seed", "choices", "trace")

    def __init__(self, seed, choices, trace):
        self.seed, self.choices, self.trace = seed, choices, trace


class Search:
    def __init__(self, step, log, rng, budget, evals=10 ** 9):
        self.step, self.log, self.rng = step, log, rng
        self.t_end = time.time() + budget
        self.left = evals
        self.best = {}              # (site, outcome) -> [(distance, Cand)]
        self.hit = {}               # (site, outcome) -> first Cand that reached it
        self.found = []             # candidates that reached something new
        self.suspects = []
        self.n = 0
        self.base = int(rng.integers(2 ** 31))

    def over(self):
        return self.left <= 0 or time.time() > self.t_end or len(self.suspects) >= 3

    def run(self, seed, choices=()):
        """one execution on the probed copy"""
        self.left -= 1
        self.n += 1
        g = GRng(seed, choices)
        lg = GLog(self.log.prop, "quick", self.log.seed)
        TRACE.clear()
        LAST.clear()
        keep = core._LIB
        core._LIB = _SHADOW[0]
        _ON[0] = True
        err = None
        try:
            self.step(lg, g)
        except core.Inconclusive:
            pass
        except Exception as e:
            err = e
        finally:
            _ON[0] = False
            core._LIB = keep
        c = Cand(seed, g.out, dict(TRACE))
        if err is not None or lg.viol:
            self.suspects.append((c, lg.viol[:1] or repr(err)))
        new = False
        for k, d in c.trace.items():
            if d == 0.0 and k not in self.hit:
                self.hit[k] = c
                new = True
            b = self.best.setdefault(k, [])
            if len(b) < 4 or d < b[-1][0]:
                b.append((d, c))
                b.sort(key=lambda z: z[0])
                del b[4:]
        if new:
            self.found.append(c)
        return c

    def targets(self):
        return [k for k in self.best if k[1] != "E" and k not in self.hit and np.isfinite(self.best[k][0][0])]

    def with_value(self, c, i, j, v):
        ch = list(c.choices)
        k, w = ch[i]
        w = w.copy()
        w[j] = v
        ch[i] = (k, w)
        return self.run(c.seed, ch)

    def whole(self, c, i, f):
        ch = list(c.choices)
        k, w = ch[i]
        ch[i] = (k, f(w))
        return self.run(c.seed, ch)

    def climb(self, key, c):
        """move one choice at a time towards the wanted answer"""
        rng = self.rng
        d = c.trace[key]
        coords = [(i, j) for i, (k, w) in enumerate(c.choices) if k in "ui" for j in range(min(w.size, 6))]
        rng.shuffle(coords)
        array = key[1] in ("AT", "AF")
        for i, j in coords[:48]:
            if self.over() or key in self.hit:
                return c
            if i >= len(c.choices) or j >= c.choices[i][1].size:
                continue
            u0 = c.choices[i][1][j]
            if array and c.choices[i][1].size > 1 and rng.random() < .6:
                w = c.choices[i][1]
                n = self.whole(c, i, lambda w: [np.sort(w), np.sort(w)[::-1], np.full(w.size, w[j]), w[0] + (w - w[0]) * 1e-3][int(rng.integers(4))].copy())
                if n.trace.get(key, np.inf) < d:
                    c, d = n, n.trace[key]
                continue
            u1 = u0 + (.07 if u0 < .5 else -.07) * (.2 + rng.random())
            if c.choices[i][0] == "i" or rng.random() < .25:
                u1 = rng.random()
            n = self.with_value(c, i, j, u1)
            d1 = n.trace.get(key)
            if d1 is None or d1 == d:
                continue
            # regula falsi / secant on the distance
            ua, da, ub, db = u0, d, u1, d1
            if d1 < d:
                c, d = n, d1
            for _ in range(9):
                if self.over() or d == 0.0 or da == db:
                    break
                u = ub - db * (ub - ua) / (db - da)
                u += (u - ub) * 1e-3 * rng.random()
                u = min(max(u, 0.0), 1.0)
                if u in (ua, ub):
                    break
                n = self.with_value(c, i, j, u)
                dn = n.trace.get(key)
                if i >= len(c.choices) or j >= c.choices[i][1].size:
                    break
                if dn is None:                  # another path was taken on the way: half the step
                    u = (u + c.choices[i][1][j]) / 2
                    n = self.with_value(c, i, j, u)
                    dn = n.trace.get(key)
                    if dn is None:
                        break
                ua, da, ub, db = ub, db, u, dn
                if dn < d:
                    c, d = n, dn
            if d == 0.0 and i < len(c.choices) and j < c.choices[i][1].size:
                # deeper into the region, and to its other end
                u = c.choices[i][1][j]
                for f in (.3, 1.0):
                    e = (1.0 if u > u0 else 0.0)
                    self.with_value(c, i, j, u + (e - u) * f)
            if d == 0.0:
                return c
        return c

    def echo(self, c, k=3):
        """the same answer with the other choices changed"""
        rng = self.rng
        for _ in range(k):
            if self.over():
                return
            ch = [(kk, np.where(rng.random(w.size) < .3, rng.random(w.size), w)) for kk, w in c.choices]
            self.run(c.seed, ch)

    def go(self, first=24):
        for i in range(first):
            if self.over():
                break
            self.run([self.base, i])
        tries = {}
        i = first
        while not self.over():
            t = [k for k in self.targets() if tries.get(k, 0) < (2 if k[1][0] == "E" else 5)]
            if not t:
                if i > first * 4:
                    break
                self.run([self.base, i])
                i += 1
                continue
            k = min(t, key=lambda z: (tries.get(z, 0), z[1][0] == "E", self.best[z][0][0]))
            tries[k] = tries.get(k, 0) + 1
            b = self.best[k]
            c = self.climb((k[0], "E") if k[1][0] == "E" else k, b[int(self.rng.integers(len(b)))][1])
            if k in self.hit:
                self.echo(self.hit[k])
        return self


def explore(step, log, rng, budget, oracle=None, evals=10 ** 9):
    """drive step(log, rng) over the answers of the library's comparisons; judge on the library"""
    if os.environ.get("RPMON_NOGUIDE"):          # to measure what the guidance adds
        return
    if shadow() is None:
        log.event("guided: no probed copy")
        return
    s = Search(step, log, rng, budget, evals).go()
    log.event("guided:executions", s.n)
    log.event("guided:answers reached", len(s.hit))
    log.event("guided:answers not reached", len(s.targets()))
    log.event("guided:comparison sites", len({k[0] for k in s.best}))
    for c, what in s.suspects:
        before = len(log.viol)
        lg = GLog(log.prop, "quick", log.seed)
        (oracle or step)(lg, GRng(c.seed, c.choices))
        lg.fold(log)
        log.event("guided:confirmed on the library" if len(log.viol) > before else "guided:not confirmed")
    if oracle is not None and not log.viol:
        for c in s.found[:60]:
            lg = GLog(log.prop, "quick", log.seed)
            oracle(lg, GRng(c.seed, c.choices))
            lg.fold(log)
            if log.viol:
                break
    elif s.suspects == []:
        for c in s.found[:40]:
            lg = GLog(log.prop, "quick", log.seed)
            step(lg, GRng(c.seed, c.choices))
            lg.fold(log)
    return s


def tasks_of(pairs, quick, thorough, seconds=5):
    """guided tasks for (name, step(log, rng)) pairs"""
    def make(step):
        return lambda log, rng: explore(step, log, rng, log.n(seconds, 90), evals=log.n(quick, thorough)) and None
    return [("guided:" + n, make(f)) for n, f in pairs]
