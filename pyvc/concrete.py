"""Concrete contract context: the same contracts run on the real code with real numpy (replay and random runs)."""
import importlib
import json
import math
import os
import random
import sys
import time
import traceback
import types
import warnings

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
REPO = os.environ.get("VERIF_REPO", "/repo")


def install_stubs():
    """third-party packages absent here"""
    if REPO not in sys.path:
        sys.path.insert(0, REPO)
    sys.path.insert(0, VERIF)
    sys.path.insert(0, os.path.join(VERIF, "stubs"))
    for n in ("scipy.interpolate", "scipy.ndimage", "scipy.stats", "scipy.spatial", "scipy.special"):
        importlib.import_module(n)      # iris imports these
    try:
        import iris  # noqa
    except ImportError:
        import miniris
        sys.modules.update(miniris.modules())

    class Stub(types.ModuleType):
        def __getattr__(self, n):
            if n.startswith("__"):
                raise AttributeError(n)
            v = type(n, (), {})
            setattr(self, n, v)
            return v
    for n in ("cartopy", "cartopy.crs", "pandas", "clize", "clize.parameters", "stratify", "pysteps", "timezonefinder",
              "pytz", "statsmodels", "statsmodels.api", "sigtools", "sigtools.wrappers", "treelite_runtime", "lightgbm"):
        try:
            importlib.import_module(n)
        except Exception:
            if n == "numba":
                continue
            m = Stub(n)
            m.__path__ = []
            if n == "pandas":
                import datetime
                m.Timedelta = datetime.timedelta
            if n == "stratify":
                import ministratify
                m.interpolate, m.EXTRAPOLATE_NEAREST = ministratify.interpolate, ministratify.EXTRAPOLATE_NEAREST
                m.EXTRAPOLATE_NAN = ministratify.EXTRAPOLATE_NAN
            if n == "cartopy.crs":
                import minicartopy as m
            sys.modules[n] = m
            if "." in n:
                setattr(sys.modules[n.rsplit(".", 1)[0]], n.rsplit(".", 1)[1], m)


class Reject(Exception):
    pass


class Fail(Exception):
    pass


class ConcContext(object):
    symbolic = False

    def __init__(self, inputs=None, rng=None, size=4):
        import numpy as np
        self.np = np
        self._np = np
        self.given = inputs
        self.rng = rng or random.Random(0)
        self.record = {}
        self.fails = []
        self.nchecks = 0
        self.size = size
        self.undo = []
        self.pi = math.pi
        self.pool = []

    # ---------------------------------------------- code
    def mod(self, name):
        return importlib.import_module(name)

    def fn(self, target):
        m, q = target.split(":")
        o = self.mod(m)
        for p in q.split("."):
            o = getattr(o, p)
        return o

    @property
    def iris(self):
        import iris
        return iris

    def unit(self, s, calendar=None):
        from cf_units import Unit
        return Unit(s, calendar=calendar) if calendar else Unit(s)

    def loop(self, key, inv):
        pass

    def std_by_range(self):
        pass

    def cut(self, target, repl):
        pass

    def replace(self, target, repl):
        """a callee stood in for by its contract, in the proof and in the runs of the real code alike"""
        m, q = target.split(":")
        o = self.mod(m)
        ps = q.split(".")
        for p in ps[:-1]:
            o = getattr(o, p)
        old = o.__dict__[ps[-1]]
        self.undo.append(lambda: setattr(o, ps[-1], old))
        setattr(o, ps[-1], staticmethod(repl) if isinstance(old, staticmethod) else repl)

    # ---------------------------------------------- inputs
    def _given(self, name):
        if self.given is not None and name in self.given:
            return True, self.given[name]
        return False, None

    def _rand_real(self, lo, hi):
        r = self.rng
        u = r.random()
        if self.pool and u < 0.12:
            v = r.choice(self.pool)
            if (lo is None or v >= lo) and (hi is None or v <= hi):
                return v
        if lo is not None and hi is not None:
            lo, hi = float(lo), float(hi)
            if u < 0.08:
                v = lo
            elif u < 0.16:
                v = hi
            elif u < 0.4 and hi - lo > 2:
                v = float(r.randint(int(math.ceil(lo)), int(math.floor(hi))))
            else:
                v = r.uniform(lo, hi)
        elif lo is not None:
            v = float(lo) + r.choice([0.0, 0.5, 1.0, r.random(), r.random() * 10, r.random() * 1000])
        elif hi is not None:
            v = float(hi) - r.choice([0.0, 0.5, 1.0, r.random(), r.random() * 10, r.random() * 1000])
        else:
            v = r.choice([0.0, 1.0, -1.0, 0.5, r.uniform(-1, 1), r.uniform(-10, 10), r.uniform(-300, 300),
                          float(r.randint(-5, 5))])
        if len(self.pool) < 12:
            self.pool.append(v)
        return v

    def _num(self, x):
        if hasattr(x, "item"):
            return x.item()
        return x

    def real(self, name, lo=None, hi=None, dt=None, nan=False):
        ok, v = self._given(name)
        if ok:
            v = float("nan") if v == "nan" else float(v)
        else:
            lo, hi = self._num(lo), self._num(hi)
            if lo is not None and hi is not None and lo > hi:
                raise Reject()
            v = float("nan") if nan and self.rng.random() < 0.2 else self._rand_real(lo, hi)
        self.record[name] = "nan" if v != v else v
        return self._np.dtype(dt).type(v) if dt else v

    def int(self, name, lo=None, hi=None, dt=None):
        ok, v = self._given(name)
        if not ok:
            lo, hi = self._num(lo), self._num(hi)
            if lo is not None and hi is not None:
                if lo > hi:
                    raise Reject()
                if self.rng.random() < 0.3:
                    v = self.rng.choice([int(lo), int(hi)])
                elif hi - lo > 100 and self.rng.random() < 0.3:
                    v = self.rng.randint(int(lo), int(lo) + 20)
                else:
                    v = self.rng.randint(int(lo), int(hi))
            else:
                base = int(lo) if lo is not None else (int(hi) if hi is not None else 0)
                k = self.rng.choice([0, 1, 2, 3, self.rng.randint(0, 10), self.rng.randint(0, 1000)])
                v = base + k if lo is not None else (base - k if hi is not None else self.rng.choice([-1, 1]) * k)
        self.record[name] = v
        return self._np.dtype(dt).type(v) if dt else int(v)

    def dim(self, name, lo=1, hi=None, small=4):
        ok, v = self._given(name)
        if not ok:
            lo = int(lo)
            top = max(lo, min(hi if hi is not None else 10**9, lo + small))
            v = self.rng.randint(lo, top)
        self.record[name] = v
        return int(v)

    def bool(self, name):
        ok, v = self._given(name)
        if not ok:
            v = self.rng.random() < 0.5
        self.record[name] = bool(v)
        return bool(v)

    def flag(self, name):
        return self.choice(name, [False, True])

    def choice(self, name, options):
        options = list(options)
        ok, k = self._given(name)
        if not ok:
            k = self.rng.randrange(len(options))
        self.record[name] = k
        return options[k]

    def array(self, name, shape, dtype="float32", lo=None, hi=None, mask=False, nan=False, cell=None, values=None,
              grid=None, sorted=None, often=None):
        np = self._np
        shape = tuple(int(s) for s in (shape if isinstance(shape, (tuple, list)) else (shape,)))
        dt = np.dtype(dtype)
        ok, v = self._given(name)
        n = int(np.prod(shape)) if shape else 1
        if ok:
            if tuple(v["shape"]) != shape:
                raise Reject()
            vals = [float("nan") if x == "nan" else x for x in v["data"]]
            if any(x is None for x in vals):
                raise Reject()
            lo_, hi_ = self._num(lo), self._num(hi)
            vals = [x if x != x or dt.kind == "b" else min(max(x, lo_ if lo_ is not None else x), hi_ if hi_ is not None else x)
                    for x in vals]
            m = v.get("mask")
        else:
            lo_, hi_ = self._num(lo), self._num(hi)
            if lo_ is not None and hi_ is not None and lo_ > hi_:
                raise Reject()
            vals = []
            style = self.rng.random()
            const = None
            for _ in range(n):
                if values is not None:
                    x = self.rng.choice([self._num(q) for q in values])
                elif often is not None and self.rng.random() < 0.5:
                    x = self.rng.choice([self._num(q) for q in often])
                elif dt.kind == "b":
                    x = self.rng.random() < 0.5
                elif dt.kind in "iu":
                    if lo_ is not None and hi_ is not None:
                        x = self.rng.randint(int(lo_), int(hi_))
                    else:
                        x = int(self._rand_real(lo_, hi_))
                else:
                    x = self._rand_real(lo_, hi_)
                if style < 0.1:
                    const = x if const is None else const
                    x = const
                if nan and self.rng.random() < 0.25:
                    x = float("nan")
                vals.append(x)
            mm = self.rng.random()
            p = 0.0 if mm < 0.15 else (1.0 if mm > 0.93 else self.rng.choice([0.15, 0.4]))
            m = [self.rng.random() < p for _ in range(n)] if mask else None
        a = np.array(vals, dtype=dt).reshape(shape)
        if sorted is not None:
            a.sort(axis=sorted[1])
            if sorted[0] == "lt" and a.size and (np.diff(a, axis=sorted[1]) <= 1e-3 * (1 if hi_ is None else hi_ - lo_)).any():
                k = a.shape[sorted[1]]
                l0 = 0.0 if lo_ is None else lo_
                h0 = l0 + k if hi_ is None else hi_
                line = l0 + (h0 - l0) * (np.arange(k) + self.rng.random()) / float(k)
                if dt.kind in "iu":
                    line = int(l0) + np.arange(k)
                sh = [1] * a.ndim
                sh[sorted[1]] = k
                a[...] = line.reshape(sh)
        if grid:
            a = np.around(a / grid) * grid
            a = a.astype(dt)
        if cell is not None:
            for ix in np.ndindex(*shape):
                if not cell(a[ix], *ix):
                    # a few retries per cell
                    for _ in range(30):
                        a[ix] = self._rand_real(lo_, hi_) if dt.kind == "f" else (
                            self.rng.randint(int(lo_ if lo_ is not None else -5), int(hi_ if hi_ is not None else 5)))
                        if cell(a[ix], *ix):
                            break
                    else:
                        raise Reject()
        self.record[name] = {"shape": list(shape), "data": [("nan" if x != x else x) for x in a.flatten().tolist()],
                             "mask": m}
        if mask:
            a = np.ma.masked_array(a, mask=np.array(m, dtype=bool).reshape(shape))
        return a

    def from_fn(self, shape, fn, dtype="float32"):
        np = self._np
        a = np.zeros(tuple(int(s) for s in shape), dtype=dtype)
        for ix in np.ndindex(*a.shape):
            a[ix] = fn(*ix)
        return a

    def masked_array(self, data, mask):
        return self._np.ma.masked_array(data, mask=mask)

    def const(self, values, dtype="float32"):
        return self._np.array(values, dtype=dtype)

    # ---------------------------------------------- logic
    def and_(self, *a):
        return all(bool(x) for x in a)

    def or_(self, *a):
        return any(bool(x) for x in a)

    def not_(self, a):
        return not bool(a)

    def implies(self, a, b):
        return (not bool(a)) or bool(b)

    def iff(self, a, b):
        return bool(a) == bool(b)

    def ite(self, c, a, b):
        return a if bool(c) else b

    def when(self, cond, fn):
        return fn() if cond else True

    def _tol(self, a, b, tol, atol=None):
        tol = 2e-5 if tol is None else tol
        at = tol if atol is None else atol
        return at + tol * max(abs(a), abs(b))

    def _v(self, x):
        if isinstance(x, self._np.ma.core.MaskedConstant):
            return float("nan")
        return x.item() if hasattr(x, "item") else x

    def eq(self, a, b, tol=None, atol=None):
        a, b = self._v(a), self._v(b)
        if isinstance(a, bool) or isinstance(b, bool) or (isinstance(a, int) and isinstance(b, int)):
            return a == b
        if a == b:
            return True
        if a != a or b != b:
            return False
        if math.isinf(a) or math.isinf(b):
            return False
        return abs(a - b) <= self._tol(a, b, tol, atol)

    def near(self, a, b, tol, loose=False):
        return self.le(abs(self._v(a) - self._v(b)), tol)

    def le(self, a, b, tol=None):
        a, b = self._v(a), self._v(b)
        if isinstance(a, int) and isinstance(b, int):
            return a <= b
        if a != a or b != b:
            return False
        if math.isinf(a) or math.isinf(b):
            return a <= b
        return a <= b + self._tol(a, b, tol)

    def lt(self, a, b, tol=None):
        a, b = self._v(a), self._v(b)
        if isinstance(a, int) and isinstance(b, int):
            return a < b
        return a < b + self._tol(a, b, tol)

    def ge(self, a, b, tol=None):
        return self.le(b, a, tol)

    def gt(self, a, b, tol=None):
        return self.lt(b, a, tol)

    def isnan(self, a):
        a = self._v(a)
        return a != a

    def finite(self, a):
        return math.isfinite(self._v(a))

    def max(self, a, b):
        return max(self._v(a), self._v(b))

    def min(self, a, b):
        return min(self._v(a), self._v(b))

    def abs(self, a):
        return abs(self._v(a))

    def f(self, name, *x):
        x = [self._v(v) for v in x]
        np = self._np
        with np.errstate(all="ignore"):
            if name == "pow":
                return float(np.power(float(x[0]), x[1]))
            if name in ("ndtr", "ndtri"):
                from scipy import special
                return float(getattr(special, name)(float(x[0])))
            if name == "floor":
                return math.floor(x[0])
            if name == "trunc":
                return math.trunc(x[0])
            return float(getattr(np, {"deg2rad": "deg2rad"}.get(name, name))(*[float(v) for v in x]))

    def idiv(self, a, b):
        return a // b

    # ---------------------------------------------- arrays
    def at(self, a, *idx):
        np = self._np
        idx = idx[0] if len(idx) == 1 and isinstance(idx[0], tuple) else idx
        a = np.ma.getdata(a) if np.ma.isMaskedArray(a) else np.asarray(a)
        if len(idx) != a.ndim:
            raise IndexError("wrong number of indices in contract")
        v = a[tuple(int(i) for i in idx)]
        return v.item() if hasattr(v, "item") else v

    def lemma(self, label, cond):
        self.check(label, cond)

    def ghost(self, x):
        return x

    def split_at(self, a, *idx):
        return self.at(a, *idx)

    def name_bounds(self):
        pass

    def masked(self, a, *idx):
        np = self._np
        idx = idx[0] if len(idx) == 1 and isinstance(idx[0], tuple) else idx
        return bool(np.ma.getmaskarray(np.ma.asarray(a))[tuple(int(i) for i in idx)])

    def isma(self, a):
        return self._np.ma.isMaskedArray(a)

    def shape(self, a):
        return tuple(a.shape)

    def same_shape(self, a, b):
        a, b = (x if isinstance(x, tuple) else tuple(x.shape) for x in (a, b))
        return tuple(int(x) for x in a) == tuple(int(x) for x in b)

    def dtype_is(self, a, dt):
        return a.dtype == self._np.dtype(dt)

    def snap(self, a):
        return a.copy()

    def sum_list(self, xs):
        r = 0
        for x in xs:
            r = r + x
        return r

    def sum(self, n, fn):
        return math.fsum(float(fn(k)) for k in range(int(n)))

    def asum(self, shape, fn):
        return math.fsum(float(fn(*ix)) for ix in self._np.ndindex(*[int(s) for s in shape]))

    # ---------------------------------------------- checks
    def assume(self, cond):
        if not bool(cond):
            raise Reject()

    def assume_all(self, shape, fn):
        shape = [shape] if not isinstance(shape, (tuple, list)) else shape
        for ix in self._np.ndindex(*[int(s) for s in shape]):
            if not bool(fn(*ix)):
                raise Reject()

    def same_angle(self, a, b):
        pass

    def use_index(self, *idx):
        pass

    def check(self, label, cond):
        self.nchecks += 1
        if not bool(cond):
            self.fails.append((label, ""))

    def skolem(self, shape, base="i"):
        raise NotImplementedError

    def check_all(self, label, shape, fn):
        shape = [shape] if not isinstance(shape, (tuple, list)) else shape
        for ix in self._np.ndindex(*[int(s) for s in shape]):
            self.nchecks += 1
            if not bool(fn(*ix)):
                self.fails.append((label, "at index %s" % (ix,)))
                return

    def index(self, label, shape):
        shape = [shape] if not isinstance(shape, (tuple, list)) else shape
        sh = [int(s) for s in shape]
        if any(s <= 0 for s in sh):
            raise Reject()
        return tuple(self.rng.randrange(s) for s in sh)

    def raises(self, exc, fn):
        try:
            r = fn()
        except exc:
            return True, None
        return False, r

    def cover(self, label):
        pass


def run_once(fn, inputs=None, rng=None, size=4):
    """-> (status, context, info): status ok | reject | fail | error"""
    c = ConcContext(inputs, rng, size)
    import numpy as np
    try:
        with warnings.catch_warnings(), np.errstate(all="ignore"):
            warnings.simplefilter("ignore")
            fn(c)
    except Reject:
        return "reject", c, ""
    except MemoryError:
        return "reject", c, "memory"
    except Exception as e:
        import vc
        if vc.helper_gone(e):
            return "reject", c, "a helper the contract is about is not there: %s" % e
        tb = traceback.format_exc()
        return "error", c, "%s: %s\n%s" % (type(e).__name__, e, tb)
    finally:
        for u in reversed(c.undo):
            u()
    if c.fails:
        return "fail", c, "; ".join("%s %s" % f for f in c.fails[:5])
    return "ok", c, ""


def load_contracts(prop=None):
    import vc
    if not vc.REG:
        d = os.path.join(VERIF, "contracts")
        sys.path.insert(0, d)
        for f in sorted(os.listdir(d)):
            if f.endswith(".py") and not f.startswith("_"):
                importlib.import_module(f[:-3])
    return [k for k in vc.REG if prop is None or prop in k.prop]


def main(argv):
    """stdin: JSON list of jobs {contract, inputs | trials, seed, seconds}; stdout: JSON lines"""
    sys.path.insert(0, VERIF)
    install_stubs()
    jobs = json.load(sys.stdin)
    real_out = os.fdopen(os.dup(1), "w")
    os.dup2(2, 1)
    ks = {k.name: k for k in load_contracts()}
    for j in jobs:
        k = ks[j["contract"]]
        out = {"contract": k.name, "id": j.get("id")}
        if "inputs" in j:
            st, c, info = run_once(k.fn, j["inputs"], random.Random(1))
            out.update(mode="replay", status=st, info=info, inputs=c.record, nchecks=c.nchecks)
        else:
            n = ok = rej = checks = 0
            first = None
            seen = set()
            t0 = time.time()
            rng = random.Random("%s-%s" % (j.get("seed", 1), k.name))
            while n < j["trials"] and time.time() - t0 < j.get("seconds", 20):
                n += 1
                st, c, info = run_once(k.fn, None, rng, 4)
                if st == "reject":
                    rej += 1
                    continue
                checks += c.nchecks
                if st in ("fail", "error"):
                    first = {"status": st, "info": info, "inputs": c.record}
                    break
                ok += 1
                seen.add(hash(json.dumps(c.record, sort_keys=True, default=str)))
            out.update(mode="random", trials=n, ok=ok, rejected=rej, checks=checks, distinct=len(seen), first=first)
        real_out.write(json.dumps(out, default=str) + "\n")
        real_out.flush()


if __name__ == "__main__":
    main(sys.argv[1:])
