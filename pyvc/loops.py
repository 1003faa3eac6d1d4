"""Loops.  A loop over a concrete collection is executed as it is.  A loop over a symbolic range is cut at its invariant:
the invariant is checked on entry; arbitrary iteration: modified state havocked, invariant assumed, body run, invariant
checked again; after the loop: modified state havocked, invariant assumed."""
import builtins

import numpy as _np
import z3

from . import core, arr
from .arr import SymArray, SymSel
from .core import SymNum, Unsupported, PathEnd, SymBool, mki


class Unbound(object):
    def __init__(self, name):
        self.name = name

    def __getattr__(self, n):
        raise Unsupported("value of loop variable %s after an abstracted loop" % self.name)


class _Plain(object):
    active = False
    __slots__ = ("it",)

    def __init__(self, it):
        self.it = it

    def __iter__(self):
        return builtins.iter(self.it)


def enter(it, key):
    from .loader import SymRange, SymZip
    if isinstance(it, (SymRange, SymZip)):
        n = it.length()
        v = core.zval(n)
        if v is None:
            v = core.CTX.known_const(n)
        if v is not None and v <= 64:
            return _Plain([it.item(z3.IntVal(i)) for i in range(int(v))])
        return SymLoop(key, n, it.item)
    if isinstance(it, SymArray) and it.ndim >= 1:
        n = it.sym_len()
        if isinstance(n, SymNum):
            v = core.CTX.known_const(n.t)
            if v is None:
                return SymLoop(key, n.t, lambda k: it[mki(k)])
            return _Plain([it[i] for i in range(int(v))])
    return _Plain(it)


class Forall(object):
    """a statement about every index of a box; hint(*idx): the other indices its proof needs"""

    def __init__(self, shape, f, hint=None):
        self.shape, self.f, self.hint = shape, f, hint


class LoopState(object):
    """what an invariant may talk about"""

    def __init__(self, loop, locals_, k):
        self.locals = locals_
        self.k = mki(k)                  # iterations completed
        self.n = loop.n
        self.modified = [m.copy() for m in loop.modified]      # as they are now
        self.entry = loop.entry


class SymLoop(object):
    active = True

    def __init__(self, key, n, item):
        self.key = key
        self.n = n
        self.item = item
        self.phase = "new"
        self.modified = []
        self.entry = {}
        inv = None
        fn = key.split("#")[0]
        for k, v in core.CTX.loops.items():
            if k == key or k == fn or fn.endswith(k):
                inv = v
        if inv is None:
            # any function in the same module may carry the module-wide invariant
            mod = fn.split(":")[0]
            inv = core.CTX.loops.get(mod + ":*")
        if inv is None:
            raise Unsupported("loop %s over a symbolic range has no invariant" % key)
        self.inv = inv

    def __iter__(self):
        return self

    def _check(self, label, locs, k):
        for nm, cond in self.inv(LoopState(self, locs, k)):
            if isinstance(cond, Forall):
                idx = core.CTX.contract.skolem(cond.shape)
                if idx is None:
                    continue
                for h in (cond.hint(*idx) if cond.hint else ()):
                    core.CTX.contract.use_index(*h)
                cond = cond.f(*idx)
            core.CTX.shared.obligation("%s: loop invariant %s (%s)" % (nm, label, self.key), cond)

    def _assume(self, locs, k):
        for nm, cond in self.inv(LoopState(self, locs, k)):
            if isinstance(cond, Forall):
                core.CTX.add_universal(tuple(cond.shape), lambda tup, f=cond.f: f(*[mki(t) for t in tup]))
            else:
                core.CTX.assume(cond)

    def _havoc_arrays(self):
        for a in self.modified:
            havoc(a)

    def __next__(self):
        c = core.CTX
        if self.phase == "new":
            self.phase = "decide"
            it = c.fresh_bool("iterate")
            if c.branch(it):
                c.assume(self.n > 0)
                self.k = c.fresh_int("k")
                c.assume(z3.And(self.k >= 0, self.k < self.n))
                self.phase = "body"
                return self.item(self.k)
            self.phase = "end"
            raise StopIteration
        if self.phase == "body":
            import sys
            locs = sys._getframe(1).f_locals
            extra = [r for r in _written_since(self.mark) if not any(r is m for m in self.modified)]
            if extra:
                # frame discovery: these arrays are part of the modified set; rerun with them havocked
                mods = c.shared.enum.setdefault(("loopmods", self.key), set())
                new = {serial(r) for r in extra} - mods
                if new:
                    mods |= new
                    c.shared.rerun = True
                    raise PathEnd()
            self._check("preserved", locs, self.k + 1)
            raise PathEnd()
        raise StopIteration

    def _setup(self, locs):
        c = core.CTX
        self.mark = len(c.writes)
        mods = c.shared.enum.get(("loopmods", self.key), set())
        self.modified = [r for r in c.roots if serial(r) in mods]
        self.entry = {serial(a): (a.shape, a.getter()) for a in self.modified}

    def head(self, names, locs):
        c = core.CTX
        if self.phase != "body":
            raise Unsupported("loop state")
        self._setup(locs)
        self._check("on entry", locs, z3.IntVal(0))
        self._havoc_arrays()
        vals = []
        new = dict(locs)
        for nm in names:
            v = havoc_scalar(nm, locs.get(nm, None)) if nm in locs else Unbound(nm)
            new[nm] = v
            vals.append(v)
        self._assume(new, self.k)
        self.mark = len(c.writes)
        return tuple(vals)

    def exit(self, names, locs):
        if self.phase == "body":           # left by break: state is that of the iteration
            return tuple(locs.get(nm, Unbound(nm)) for nm in names)
        self._setup(locs)
        self._check("on entry", locs, z3.IntVal(0))
        self._havoc_arrays()
        vals = []
        new = dict(locs)
        for nm in names:
            v = havoc_scalar(nm, locs[nm]) if nm in locs else Unbound(nm)
            new[nm] = v
            vals.append(v)
        self._assume(new, self.n)
        self.phase = "done"
        return tuple(vals)


def _written_since(mark):
    out = []
    for r in core.CTX.writes[mark:]:
        if not any(r is x for x in out):
            out.append(r)
    # arrays created inside the loop body are not part of the frame
    return [r for r in out if serial(r) is not None]


def serial(r):
    return getattr(r, "_serial", None)


def havoc(a):
    c = core.CTX
    f = c.fresh_fun("hv", *([z3.IntSort()] * max(a.ndim, 0) + [z3.BoolSort() if a.dtype.kind == "b" else
                    z3.IntSort() if a.dtype.kind in "iu" else z3.RealSort()])) if a.ndim else None
    dt = a.dtype
    if f is None:
        v = c.fresh_real("hv")
        a._f = lambda idx: SymNum(v, None, dt)
    else:
        def g(idx):
            t = f(*[core.iterm(arr.it(i)) for i in idx])
            return core.mkb(t) if dt.kind == "b" else SymNum(t, None, dt)
        a._f = arr.memo(g)
    a._real = None


def havoc_scalar(nm, v):
    c = core.CTX
    if isinstance(v, (SymNum, int, float, _np.number)) and not isinstance(v, bool):
        isint = v.t.is_int() if isinstance(v, SymNum) else isinstance(v, (int, _np.integer))
        dt = v.dt if isinstance(v, SymNum) else (v.dtype if isinstance(v, _np.generic) else None)
        return SymNum(c.fresh_int("hs") if isint else c.fresh_real("hs"), None, dt)
    if isinstance(v, (bool, SymBool)):
        return SymBool(c.fresh_bool("hs"))
    if isinstance(v, SymArray):
        # a rebinding of an array: fresh array of the same shape
        f = SymArray(v.shape, None, v.dtype, real=None) if False else None
        raise Unsupported("array %s rebound in an abstracted loop" % nm)
    if v is None:
        return None
    raise Unsupported("loop-modified local %s" % nm)
