"""Symbolic n-dimensional arrays: concrete rank, possibly symbolic sizes, contents given by a function of the index."""
import itertools
import math

import datetime as _dt

import numpy as _np
import z3

from . import core
from .core import (Sym, SymBool, SymNum, CplxCell, Unsupported, bterm, cell_abs, cell_and, cell_astype, cell_bin,
                   cell_cmp, cell_isnan, cell_ite, cell_max, cell_min, cell_neg, cell_not, cell_or, iterm, mkb, mki,
                   num, zval)

EXPAND = 64          # largest concrete axis expanded cell by cell
TABLE = 512          # largest concrete array addressed by a symbolic index


class FlatIdx:
    """position idx of a box `shape`, as a flat C-order index"""
    __slots__ = ("tup", "shape")

    def __init__(self, tup, shape):
        self.tup, self.shape = tup, shape


def it(i):
    """index element -> int or z3 Int"""
    if isinstance(i, FlatIdx):
        r = 0
        for k, n in zip(i.tup, i.shape):
            k = it(k)
            n = n if isinstance(n, int) else iterm(n)
            r = k if isinstance(r, int) and r == 0 else r * n + k
        return r
    if isinstance(i, SymNum):
        v = zval(i.t)
        return i.t if v is None else int(v)
    if isinstance(i, (_np.integer,)):
        return int(i)
    return i


def ieq(i, j):
    i, j = it(i), it(j)
    if isinstance(i, int) and isinstance(j, int):
        return i == j
    return mkb(iterm(i) == iterm(j))


def ilt(i, j):
    i, j = it(i), it(j)
    if isinstance(i, int) and isinstance(j, int):
        return i < j
    return mkb(iterm(i) < iterm(j))


def dim(n):
    """normalise a size: int or SymNum"""
    if isinstance(n, (int, _np.integer)):
        return int(n)
    if isinstance(n, SymNum):
        return mki(iterm(n))
    if isinstance(n, z3.ArithRef):
        return mki(n)
    if isinstance(n, SymArray) and n.ndim == 0:
        return dim(n._as_scalar())
    if isinstance(n, (float, _np.floating)):
        raise TypeError("'float' object cannot be interpreted as an integer")
    raise TypeError("bad dimension %r" % type(n))


def dterm(n):
    return z3.IntVal(n) if isinstance(n, int) else n.t


def prod(xs):
    r = 1
    for x in xs:
        r = r * x
    return r


def same_dim(a, b):
    """are two sizes equal (forks when undecided)"""
    if isinstance(a, int) and isinstance(b, int):
        return a == b
    ta, tb = dterm(a), dterm(b)
    if ta.eq(tb):
        return True
    return core.CTX.branch(ta == tb)


def surely_same(a, b):
    if isinstance(a, int) and isinstance(b, int):
        return a == b
    ta, tb = dterm(a), dterm(b)
    return ta.eq(tb) or core.CTX.entails(ta == tb)


def bshape(*shapes):
    """numpy broadcasting; returns the shape"""
    nd = max((len(s) for s in shapes), default=0)
    out = []
    for ax in range(nd):
        cur = 1
        for s in shapes:
            k = ax - (nd - len(s))
            if k < 0:
                continue
            n = s[k]
            if isinstance(n, int) and n == 1:
                continue
            if isinstance(cur, int) and cur == 1:
                cur = n
                continue
            if same_dim(cur, n):
                if isinstance(n, int):
                    cur = n
                continue
            if not isinstance(n, int) and core.CTX.branch(n.t == 1):
                continue
            if not isinstance(cur, int) and core.CTX.branch(cur.t == 1):
                cur = n
                continue
            raise ValueError("operands could not be broadcast together")
        out.append(cur)
    return tuple(out)


def bget(a, idx, shape):
    """cell of array a broadcast to shape at idx"""
    if not isinstance(a, SymArray):
        return a
    off = len(idx) - len(a.shape)
    return tuple(0 if isinstance(n, int) and n == 1 else idx[off + k] for k, n in enumerate(a.shape))


def _key(idx):
    out = []
    for i in idx:
        i = it(i)
        out.append(i if isinstance(i, int) else (i.get_id(),))
    return tuple(out)


def memo(f):
    cache = {}

    def g(idx):
        k = _key(idx)
        r = cache.get(k)
        if r is None:
            v = f(idx)
            cache[k] = (v, idx)
            return v
        return r[0]
    return g


class SymArray:
    __array_priority__ = 1e6
    __array_ufunc__ = None

    def __init__(self, shape, f=None, dt=None, real=None, base=None, imap=None, rmap=None, m=None, isma=False,
                 fill_value=None):
        self._shape = tuple(shape)
        self.dt = _np.dtype(dt) if dt is not None else None
        self._f = f
        self._real = real            # concrete storage of an owner
        self._rm = None              # concrete mask storage
        self.base = base
        self.imap = imap
        self.rmap = rmap
        self._m = m                  # mask closure of an owner (None: nothing masked)
        self._isma = isma
        self.fill_value = fill_value
        self._stamp = 0
        if base is not None:
            self._isma = base._isma or isma
        elif core.CTX is not None:
            self._serial = len(core.CTX.roots)
            core.CTX.roots.append(self)

    # ------------------------------------------------------------ storage
    def root(self):
        a = self
        while a.base is not None:
            a = a.base
        return a

    @property
    def real_(self):
        """concrete numpy contents, or None"""
        if self.base is None:
            return self._real
        b = self.base.real_
        if b is None or self.rmap is None:
            return None
        return self.rmap(b)

    def get(self, idx):
        """current cell at idx"""
        return self.getter()(idx)

    def getter(self):
        if self.base is None:
            if self._f is None:
                return _table(self._real.copy())
            return self._f
        g = self.base.getter()
        im = self.imap
        return lambda idx: g(im(idx))

    def mget(self, idx):
        g = self.mgetter()
        return False if g is None else g(idx)

    def mgetter(self):
        if self.base is None:
            return self._m
        if getattr(self, "_plain", False):
            return None
        g = self.base.mgetter()
        if g is None:
            return None
        im = self.imap
        return lambda idx: g(im(idx))

    @property
    def isma(self):
        return self._isma or (self.base is not None and not getattr(self, "_plain", False) and self.base.isma)

    @property
    def shape(self):
        return self._shape

    @shape.setter
    def shape(self, s):
        b = self.reshape(s)
        self._shape = b._shape
        g = b.getter()
        mg = b.mgetter()
        r = b.real_
        self.base, self.imap, self.rmap = None, None, None
        self._real, self._f, self._m = r, (None if r is not None else g), mg

    @property
    def ndim(self):
        return len(self._shape)

    @property
    def size(self):
        return prod(self._shape)

    @property
    def dtype(self):
        return self.dt

    @property
    def itemsize(self):
        return self.dt.itemsize

    @property
    def nbytes(self):
        return self.size * self.dt.itemsize

    @property
    def flags(self):
        class F:
            writeable = True
            c_contiguous = True
        return F

    @property
    def T(self):
        return self.transpose()

    @property
    def data(self):
        if self.isma:
            v = self.view_plain()
            return v
        return self

    @property
    def hardmask(self):
        return False

    def harden_mask(self):
        self.root()._hard = True

    def soften_mask(self):
        self.root()._hard = False

    def view_plain(self):
        """same storage seen as a plain array"""
        v = SymArray(self._shape, dt=self.dt, base=self, imap=lambda i: i, rmap=lambda r: r)
        v._plain = True
        return v

    @property
    def mask(self):
        if not self.isma:
            raise AttributeError("'numpy.ndarray' object has no attribute 'mask'")
        g = self.mgetter()
        if g is None:
            if getattr(self.root(), "_nomask", True):
                return _np.False_
            return full(self._shape, False, bool)
        return _MaskView(self)

    @mask.setter
    def mask(self, v):
        if self.base is not None:
            raise Unsupported("mask assignment to a view")
        v = asarr(v)
        self._isma = True
        if getattr(v, "_isnomask", False):
            self._m = None
            return
        v = broadcast_to(v, self._shape) if v.ndim < self.ndim or v._shape != self._shape else v
        self._nomask = False
        self._m = memo(_bool_getter(v))

    # ------------------------------------------------------------ conversion
    def is_concrete(self):
        return self.real_ is not None and self.mgetter() is None or self._conc_try() is not None

    def _conc_try(self):
        r = self.real_
        if r is not None:
            return r
        if all(isinstance(n, int) for n in self._shape) and prod(self._shape) <= 4096:
            g = self.getter()
            out = _np.empty(self._shape, dtype=object)
            for idx in itertools.product(*[range(n) for n in self._shape]):
                c = g(idx)
                if isinstance(c, SymNum):
                    v = c.const()
                    if v is None:
                        return None
                    c = int(v) if c.t.is_int() else float(v)
                elif isinstance(c, Sym):
                    return None
                out[idx] = c
            return out.astype(self.dt)
        return None

    def conc(self):
        """concrete numpy array (masked if masked) or None"""
        r = self._conc_try()
        if r is None:
            return None
        if self.isma and not getattr(self, "_plain", False):
            g = self.mgetter()
            if g is None:
                return _np.ma.masked_array(r, mask=False if False else _np.ma.nomask)
            m = _np.zeros(r.shape, bool)
            for idx in itertools.product(*[range(n) for n in self._shape]):
                c = g(idx)
                if isinstance(c, Sym):
                    return None
                m[idx] = bool(c)
            return _np.ma.masked_array(r, mask=m)
        return r

    def _as_scalar(self):
        if self.ndim == 0:
            return self.get(())
        for n in self._shape:
            if not (isinstance(n, int) and n == 1):
                if isinstance(n, SymNum) and core.CTX.branch(n.t == 1):
                    continue
                raise ValueError("The truth value of an array with more than one element is ambiguous. "
                                 "Use a.any() or a.all()" if True else "")
        return self.get((0,) * self.ndim)

    def __bool__(self):
        c = self._as_scalar()
        return bool(mkb(bterm(c))) if isinstance(c, Sym) else bool(c)

    def __float__(self):
        try:
            c = self._as_scalar()
        except ValueError:
            raise TypeError("only size-1 arrays can be converted to Python scalars")
        return float(c)

    def __int__(self):
        try:
            c = self._as_scalar()
        except ValueError:
            raise TypeError("only size-1 arrays can be converted to Python scalars")
        return int(c)

    def __index__(self):
        if self.ndim:
            raise TypeError("only integer scalar arrays can be converted to a scalar index")
        return self.get(()).__index__()

    def __len__(self):
        if not self._shape:
            raise TypeError("len() of unsized object")
        n = self._shape[0]
        return n if isinstance(n, int) else core.CTX.concretize(n.t)

    def sym_len(self):
        if not self._shape:
            raise TypeError("len() of unsized object")
        return self._shape[0]

    def __iter__(self):
        if not self._shape:
            raise TypeError("iteration over a 0-d array")
        n = len(self)
        for k in range(n):
            yield self[k]

    def __contains__(self, v):
        r = asarr(self == v).any()
        return bool(r)

    def __hash__(self):
        raise TypeError("unhashable type: 'numpy.ndarray'")

    def __repr__(self):
        c = self.conc() if core.CTX is not None else self.real_
        return repr(c) if c is not None else "SymArray(shape=%s, dtype=%s)" % (self._shape, self.dt)

    def __str__(self):
        return repr(self)

    def __format__(self, s):
        if self.ndim == 0 and s:
            return format(self.get(()), s)
        return str(self)

    def item(self, *a):
        if a:
            c = self[a if len(a) > 1 else a[0]]
        else:
            c = self._as_scalar()
        if isinstance(c, SymNum):
            return SymNum(c.t, c.nan, None)
        return c.item() if isinstance(c, _np.generic) else c

    def tolist(self):
        if self.ndim == 0:
            return self.item()
        return [x.tolist() if isinstance(x, SymArray) else (x.item() if hasattr(x, "item") else x) for x in self]

    def __array__(self, *a, **k):
        c = self.conc()
        if c is None:
            raise Unsupported("symbolic array handed to the real numpy")
        return _np.asarray(c)

    def __copy__(self):
        return self.copy()

    def __deepcopy__(self, memo_):
        return self.copy()

    # ------------------------------------------------------------ creation helpers
    def copy(self, order=None):
        r = self.real_
        if getattr(self, "_plain", False):
            mg, isma = None, False
        else:
            mg, isma = self.mgetter(), self.isma
        out = SymArray(self._shape, f=None if r is not None else self.getter(), dt=self.dt,
                       real=None if r is None else r.copy(), m=mg, isma=isma)
        out._nomask = getattr(self.root(), "_nomask", True)
        out.fill_value = self.fill_value
        return out

    def astype(self, dt, copy=True, **k):
        dt = norm_dtype(dt)
        r = self.real_
        if r is not None and dt is not None and r.dtype != object and self.mgetter() is None:
            with _np.errstate(all="ignore"):
                out = SymArray(self._shape, dt=dt, real=r.astype(dt))
        else:
            if dt == self.dt and not copy:
                return self
            g = self.getter()
            out = SymArray(self._shape, f=memo(lambda i: cell_astype(g(i), dt)), dt=dt)
        if self.isma and not getattr(self, "_plain", False):
            out._isma = True
            out._m = self.mgetter()
            out._nomask = getattr(self.root(), "_nomask", True)
        return out

    def view(self, t=None, *a, **k):
        return self

    def byteswap(self, *a, **k):
        return self

    def squeeze(self, axis=None):
        if axis is None:
            ax = [k for k, n in enumerate(self._shape) if (isinstance(n, int) and n == 1)]
        else:
            ax = [axis % self.ndim] if not isinstance(axis, tuple) else [x % self.ndim for x in axis]
        key = tuple(0 if k in ax else slice(None) for k in range(self.ndim))
        return self._basic(key, scalar_ok=False)

    def reshape(self, *shape, **k):
        if len(shape) == 1 and not isinstance(shape[0], (int, SymNum, _np.integer)):
            shape = tuple(shape[0])
        src = getattr(self, "_flat_src", None)
        if src is not None and len(shape) > 1:
            return src.reshape(shape)
        shape = [s if isinstance(s, int) and s == -1 else dim(s) for s in shape]
        if -1 in shape:
            p = prod([s for s in shape if not (isinstance(s, int) and s == -1)])
            tot = self.size
            if isinstance(p, int) and p == 1:
                q = tot
            elif isinstance(tot, int) and isinstance(p, int):
                q = tot // p
            else:
                # cancel equal factors
                rest = [n for n in self._shape]
                for s in shape:
                    if isinstance(s, int) and s in (-1, 1):
                        continue
                    for n in rest:
                        if (isinstance(n, int) and isinstance(s, int) and n == s) or (
                                not isinstance(n, int) and not isinstance(s, int) and n.t.eq(s.t)):
                            rest.remove(n)
                            break
                    else:
                        raise Unsupported("reshape with a symbolic -1")
                q = prod(rest)
            shape[shape.index(-1)] = dim(q)
        shape = tuple(shape)
        old = self._shape
        if all(isinstance(n, int) for n in shape + old):
            if prod(shape) != prod(old):
                raise ValueError("cannot reshape array of size %d into shape %s" % (prod(old), shape))
            r = self.real_

            def imap(idx):
                flat = FlatIdx(idx, shape)
                v = it(flat)
                if len(old) == 1:
                    return (flat,)
                return _unflat(v, old)
            fast = _reshape_fast(old, shape)
            out = SymArray(shape, dt=self.dt, base=self, imap=fast or imap,
                           rmap=lambda rr: rr.reshape(shape))
            if not fast:
                out._inv = lambda b: (True, _unflat(it(FlatIdx(tuple(b), old)), shape))
            return out
        # symbolic: only insertion/removal of ones, or (un)flattening
        a = [k for k, n in enumerate(old) if not (isinstance(n, int) and n == 1)]
        b = [k for k, n in enumerate(shape) if not (isinstance(n, int) and n == 1)]
        if len(a) == len(b) and all(surely_same(old[x], shape[y]) for x, y in zip(a, b)):
            def imap(idx):
                out = [0] * len(old)
                for x, y in zip(a, b):
                    out[x] = idx[y]
                return tuple(out)
            return SymArray(shape, dt=self.dt, base=self, imap=imap)
        # merge/split of a run of dims
        i = 0
        while i < min(len(a), len(b)) and surely_same(old[a[i]], shape[b[i]]):
            i += 1
        j = 0
        while j < min(len(a), len(b)) - i and surely_same(old[a[-1 - j]], shape[b[-1 - j]]):
            j += 1
        ma, mb = a[i:len(a) - j], b[i:len(b) - j]
        if not core.CTX.branch(iterm(prod([old[x] for x in ma])) == iterm(prod([shape[y] for y in mb]))):
            raise ValueError("cannot reshape array")
        osub, nsub = tuple(old[x] for x in ma), tuple(shape[y] for y in mb)

        def imap(idx):
            out = [0] * len(old)
            for k in range(i):
                out[a[k]] = idx[b[k]]
            for k in range(j):
                out[a[-1 - k]] = idx[b[-1 - k]]
            sub = tuple(idx[y] for y in mb)
            if len(sub) == 1:
                s = sub[0]
                if isinstance(s, FlatIdx) and len(s.tup) == len(osub):
                    res = s.tup
                elif len(osub) == 1:
                    res = (s,)
                else:
                    res = _unflat(it(s), osub)
            elif len(osub) == 1:
                res = (FlatIdx(sub, nsub),)
            else:
                res = _unflat(it(FlatIdx(sub, nsub)), osub)
            for x, v in zip(ma, res):
                out[x] = v
            return tuple(out)
        return SymArray(shape, dt=self.dt, base=self, imap=imap)

    def flatten(self, order=None):
        if self.ndim > 1 and not all(isinstance(n, int) for n in self._shape) and not self.isma:
            src = self.copy()
            out = src.reshape((prod(self._shape),))
            out._flat_src = src
            return out
        return self.reshape((prod(self._shape),) if self.ndim != 1 else self._shape).copy()

    def ravel(self, order=None):
        return self.reshape((prod(self._shape),) if self.ndim != 1 else self._shape)

    compressed_ok = False

    def compressed(self):
        m = self.mgetter()
        if m is None:
            return self.data.flatten()
        return self.data[~asarr(self.mask)]

    def transpose(self, *axes):
        if len(axes) == 1 and (axes[0] is None or not isinstance(axes[0], (int, _np.integer))):
            axes = axes[0]
        if not axes and not isinstance(axes, (list, tuple)) or axes == ():
            axes = tuple(range(self.ndim))[::-1]
        axes = tuple(int(a) % self.ndim for a in axes)
        shape = tuple(self._shape[a] for a in axes)

        def imap(idx):
            out = [None] * len(axes)
            for k, a in enumerate(axes):
                out[a] = idx[k]
            return tuple(out)
        return SymArray(shape, dt=self.dt, base=self, imap=imap, rmap=lambda r: r.transpose(axes))

    def swapaxes(self, a, b):
        ax = list(range(self.ndim))
        ax[a], ax[b] = ax[b], ax[a]
        return self.transpose(ax)

    def fill(self, v):
        self[...] = v

    def filled(self, v=None):
        mg = self.mgetter()
        if v is None:
            v = self.fill_value if self.fill_value is not None else (1e20 if self.dt.kind == "f" else 999999)
        if mg is None:
            return self.data.copy()
        g = self.getter()
        v = asarr(v)
        sh = self._shape
        vg = v.getter()
        dt = self.dt
        return SymArray(sh, f=memo(lambda i: cell_ite(mg(i), cell_astype(vg(bget(v, i, sh)), dt), g(i))), dt=dt)

    # ------------------------------------------------------------ indexing
    def _expand_key(self, key):
        if isinstance(key, list) and any(x is Ellipsis or x is None or isinstance(x, slice) for x in key):
            key = tuple(key)  # numpy 1.20 takes a list holding slices for a tuple
        if not isinstance(key, tuple):
            key = (key,)
        key = list(key)
        # a position in every axis, each given by a selection: kept lazily
        if len(key) == self.ndim and all(isinstance(x, SymSel) and x.off == 0 and x.inner.ndim == x.m.ndim for x in key) \
                and not all(x.is_index for x in key):
            return key
        # lists / real arrays to SymArray
        for k, x in enumerate(key):
            if isinstance(x, list) or isinstance(x, _np.ndarray) and x.ndim > 0:
                key[k] = asarr(x) if len(x) else asarr(_np.asarray(x, dtype=int))
            elif isinstance(x, _np.ndarray):
                key[k] = x.item()
            elif isinstance(x, SymArray) and x.ndim == 0:
                c = x.get(())
                key[k] = asarr(c) if isinstance(c, (SymBool, bool, _np.bool_)) else c
            elif isinstance(x, SymSel):
                y = x.materialise() if not x.is_index else x
                key[k] = y
            elif type(x).__name__ == "_Argwhere" and x.m.ndim == 1:
                key[k] = x.idx[0]
            elif isinstance(x, range):
                key[k] = asarr(list(x))
        nd = 0
        for x in key:
            if x is None or x is Ellipsis:
                continue
            if isinstance(x, SymArray) and x.dt.kind == "b":
                nd += x.ndim
            else:
                nd += 1
        if not any(x is Ellipsis for x in key):
            if nd > self.ndim:
                raise IndexError("too many indices for array: array is %d-dimensional, but %d were indexed"
                                 % (self.ndim, nd))
            key = key + [slice(None)] * (self.ndim - nd)
        else:
            p = [i for i, x in enumerate(key) if x is Ellipsis][0]
            if nd > self.ndim:
                raise IndexError("too many indices for array")
            key = key[:p] + [slice(None)] * (self.ndim - nd) + key[p + 1:]
        return key

    def __getitem__(self, key):
        if isinstance(key, SymSel) and not key.is_index:
            pass
        key = self._expand_key(key)
        if any(isinstance(x, SymSel) for x in key):
            return index_get(self, key)
        if any(isinstance(x, (SymArray, bool, _np.bool_, SymBool)) for x in key):
            return self._advanced(key)
        return self._basic(tuple(key))

    def _basic(self, key, scalar_ok=True):
        maps = []           # per output
        shape = []
        base_sel = []       # per base axis: ('i', const) or ('s', outaxis, start, step)
        rkey = []
        ax = 0
        rok = self.real_ is not None
        for x in key:
            if x is None:
                shape.append(1)
                rkey.append(None)
                continue
            n = self._shape[ax]
            if isinstance(x, slice):
                start, length, step = slice_norm(x, n)
                base_sel.append((len(shape), start, step))
                shape.append(length)
                rkey.append(x)
            else:
                base_sel.append((None, index_norm(x, n), None))
                rkey.append(base_sel[-1][1])
            ax += 1
        shape = tuple(shape)

        def imap(idx):
            out = []
            for o, s, st in base_sel:
                if o is None:
                    out.append(s)
                else:
                    if isinstance(s, int) and s == 0 and st == 1:
                        out.append(idx[o])
                    else:
                        i = it(idx[o])
                        out.append(i * st + s)
            return tuple(out)
        rmap = None
        if rok:
            rk = []
            for x in rkey:
                if isinstance(x, slice):
                    try:
                        rk.append(slice(*[None if v is None else int(v) if not isinstance(v, Sym) else _cint(v)
                                          for v in (x.start, x.stop, x.step)]))
                    except _NotConst:
                        rk = None
                        break
                elif x is None or isinstance(x, int):
                    rk.append(x)
                else:
                    rk = None
                    break
            if rk is not None:
                rk = tuple(rk)
                rmap = lambda r: r[rk] if not (len(rk) and all(isinstance(v, int) for v in rk)) else _np.array(r[rk])
        out = SymArray(shape, dt=self.dt, base=self, imap=imap, rmap=rmap)
        if getattr(self, "_plain", False):
            out._plain = True
        if not shape and scalar_ok:
            if self.isma and not getattr(self, "_plain", False):
                mc = out.mget(())
                if isinstance(mc, (bool, _np.bool_)):
                    if mc:
                        return masked
                elif bool(mc):
                    return masked
            c = out.get(())
            if isinstance(c, SymNum) and c.dt is None:
                c = SymNum(c.t, c.nan, self.dt)
            elif not isinstance(c, Sym) and not isinstance(c, _np.generic) and self.dt.kind in "iufb":
                c = self.dt.type(c)
            return c
        return out

    def _advanced(self, key):
        # boolean masks first
        bools = [(k, x) for k, x in enumerate(key)
                 if isinstance(x, (bool, _np.bool_, SymBool)) or (isinstance(x, SymArray) and x.dt.kind == "b")]
        if bools:
            if len(bools) > 1:
                raise Unsupported("several boolean masks in one index")
            k, m = bools[0]
            if not isinstance(m, SymArray):
                m = asarr(m)
            cm = m.conc()
            if cm is not None and isinstance(cm, _np.ndarray) and m.ndim >= 1:
                idx = _np.nonzero(_np.ma.getdata(cm))
                self._check_mask(m, k, key)
                newkey = key[:k] + [asarr(i) for i in idx] + key[k + 1:]
                return self._fancy(newkey)
            pre, post = key[:k], key[k + 1:]
            if any(not isinstance(x, slice) and not isinstance(x, (int, SymNum)) and x is not None for x in pre + post):
                raise Unsupported("mask mixed with advanced indices")
            sub = self._basic(tuple(pre) + (slice(None),) * m.ndim + tuple(post), scalar_ok=False)
            off = len([x for x in pre if x is None or isinstance(x, slice)])
            return SymSel(sub, m, off)
        return self._fancy(key)

    def _check_mask(self, m, k, key):
        ax = sum(1 for x in key[:k] if x is not None)
        for j in range(m.ndim):
            if not same_dim(m._shape[j], self._shape[ax + j]):
                raise IndexError("boolean index did not match indexed array")

    def _fancy(self, key):
        adv = [k for k, x in enumerate(key) if isinstance(x, SymArray)]
        ints = [k for k, x in enumerate(key) if not isinstance(x, (SymArray, slice)) and x is not None]
        if adv and ints:
            adv = sorted(adv + ints)
        contiguous = adv == list(range(adv[0], adv[-1] + 1))
        arrs = {k: (key[k] if isinstance(key[k], SymArray) else None) for k in adv}
        ash = bshape(*[a._shape for a in arrs.values() if a is not None])
        # axis of each key element in self
        ax = 0
        plan = []
        shape_sl = []
        for k, x in enumerate(key):
            if x is None:
                plan.append(("new",))
                shape_sl.append((k, 1))
                continue
            n = self._shape[ax]
            if k in arrs:
                a = arrs[k]
                if a is None:
                    plan.append(("int", index_norm(x, n)))
                else:
                    plan.append(("adv", a, a.getter(), n))
                    cidx_check(a, n)
            else:
                s, ln, st = slice_norm(x, n)
                plan.append(("sl", s, st))
                shape_sl.append((k, ln))
            ax += 1
        if contiguous:
            pre = [(k, n) for k, n in shape_sl if k < adv[0]]
            post = [(k, n) for k, n in shape_sl if k > adv[0]]
        else:
            pre, post = [], shape_sl
        shape = tuple(n for _, n in pre) + ash + tuple(n for _, n in post)
        pos = {}
        for q, (k, _) in enumerate(pre):
            pos[k] = q
        for q, (k, _) in enumerate(post):
            pos[k] = len(pre) + len(ash) + q
        na, npre = len(ash), len(pre)

        def imap(idx):
            aidx = idx[npre:npre + na]
            out = []
            for k, p in enumerate(plan):
                if p[0] == "new":
                    continue
                if p[0] == "int":
                    out.append(p[1])
                elif p[0] == "adv":
                    _, a, g, n = p
                    c = g(bget(a, aidx, ash))
                    out.append(neg_index(c, n))
                else:
                    i = idx[pos[k]]
                    out.append(i if (isinstance(p[1], int) and p[1] == 0 and p[2] == 1) else it(i) * p[2] + p[1])
            return tuple(out)
        g = self.getter()
        out = SymArray(shape, f=memo(lambda i: g(imap(i))), dt=self.dt)
        mg = self.mgetter()
        if self.isma and not getattr(self, "_plain", False):
            out._isma = True
            if mg is not None:
                out._m = memo(lambda i: mg(imap(i)))
        r = self.real_
        if r is not None and mg is None:
            c = out._conc_try()
            if c is not None:
                out = SymArray(shape, dt=self.dt, real=c, isma=out._isma)
        if not shape:
            return out.get(())
        return out

    def __setitem__(self, key, val):
        if isinstance(val, (list, tuple)):
            val = asarr(val)
        if isinstance(val, _np.ndarray):
            val = asarr(val)
        key = self._expand_key(key)
        if any(isinstance(x, SymSel) for x in key):
            return index_set(self, key, val)
        bools = [(k, x) for k, x in enumerate(key)
                 if isinstance(x, (bool, _np.bool_, SymBool)) or (isinstance(x, SymArray) and x.dt.kind == "b")]
        if bools:
            k, m = bools[0]
            if len(bools) > 1:
                raise Unsupported("several masks")
            if not isinstance(m, SymArray):
                m = asarr(m)
            pre, post = key[:k], key[k + 1:]
            if any(isinstance(x, SymArray) for x in pre + post):
                raise Unsupported("mask mixed with arrays in assignment")
            sub = self._basic(tuple(pre) + (slice(None),) * m.ndim + tuple(post), scalar_ok=False)
            off = len([x for x in pre if x is None or isinstance(x, slice)])
            for j in range(m.ndim):
                if not same_dim(m._shape[j], sub._shape[off + j]):
                    raise IndexError("boolean index did not match indexed array along dimension %d" % j)
            mg = _bool_getter(m)
            if isinstance(val, SymSel):
                val.check_mask(m)
                vin = val.inner
                vg, vmg = vin.getter(), vin.mgetter()
                vma = vin.isma
                sub._write(lambda i: mg(i[off:off + m.ndim]), lambda i: vg(i), vma, vmg)
                return
            if val is masked:
                sub._write(lambda i: mg(i[off:off + m.ndim]), None, True, lambda i: True)
                return
            v = asarr(val)
            if v.ndim > sub.ndim - m.ndim and v.size is not None:
                if not (all(isinstance(n, int) for n in v._shape) and prod(v._shape) == 1):
                    # a vector with one value per selected element
                    cm = m.conc()
                    if cm is not None:
                        idx = [asarr(i) for i in _np.nonzero(cm)]
                        return self.__setitem__(tuple(key[:k] + idx + key[k + 1:]), val)
                    if all(isinstance(n, int) for n in v._shape) and prod(v._shape) == 0:
                        from .npshim import any_
                        if bool(any_(m)):
                            raise ValueError("cannot assign no values to the selected elements")
                        return
                    raise Unsupported("assignment of a vector through a symbolic mask")
                v = v.reshape(())
            tail = sub._shape[off + m.ndim:]
            vg, vmg = v.getter(), v.mgetter()
            if any(not (isinstance(n, int) and n == 1) for n in v._shape):
                bshape(v._shape, tail)
            sub._write(lambda i: mg(i[off:off + m.ndim]), lambda i: vg(bget(v, i[off + m.ndim:], tail)), v.isma,
                       (lambda i: vmg(bget(v, i[off + m.ndim:], tail))) if vmg else None)
            return
        if any(isinstance(x, SymArray) for x in key):
            return self._setfancy(key, val)
        sub = self._basic(tuple(key), scalar_ok=False)
        if isinstance(val, SymSel):
            val = val.materialise()
        if val is masked:
            sub._write(None, None, True, lambda i: True)
            return
        v = asarr(val)
        # strip leading ones of v
        vs = list(v._shape)
        while len(vs) > sub.ndim and isinstance(vs[0], int) and vs[0] == 1:
            v = v[0]
            v = asarr(v)
            vs = list(v._shape)
        sh = bshape(v._shape, sub._shape)
        if len(sh) != len(sub._shape) or not all(same_dim(a, b) for a, b in zip(sh, sub._shape)):
            raise ValueError("could not broadcast input array from shape %s into shape %s" % (v._shape, sub._shape))
        # concrete fast path
        rr = sub.real_
        if rr is not None and sub.root()._m is None:
            cv = v.conc()
            if cv is not None and not isinstance(cv, _np.ma.MaskedArray) and sub.rmap_writes():
                with _np.errstate(all="ignore"):
                    sub._real_write(cv)
                return
        vg, vmg = v.getter(), v.mgetter()
        ss = sub._shape
        sub._write(None, lambda i: vg(bget(v, i, ss)), v.isma, (lambda i: vmg(bget(v, i, ss))) if vmg else None)

    def rmap_writes(self):
        a = self
        while a.base is not None:
            if a.rmap is None:
                return False
            a = a.base
        return True

    def _real_write(self, cv):
        r = self.root()
        core_note_write(r)
        target = self.real_
        if target.ndim == 0 and self.base is not None:
            # scalar position: write through explicit index
            idx = ()
            a = self
            while a.base is not None:
                idx = a.imap(idx)
                a = a.base
            r._real[tuple(int(it(i)) for i in idx)] = cv
        else:
            if not _np.shares_memory(target, r._real) and target.size:
                raise Unsupported("write through a copied concrete view")
            target[...] = cv

    def _write(self, cond, vf, vma, vmg):
        """self[i] = vf(i) where cond(i)   (write-through)"""
        # chain of views up to the root: need inverse of imap -> do it by index matching
        chain = []
        a = self
        while a.base is not None:
            chain.append(a)
            a = a.base
        root = a
        core_note_write(root)
        dt = root.dt
        if root._f is None:
            root._f = memo(_table(root._real.copy()))
            root._real = None
        old = root._f
        oldm = root._m
        hard = getattr(root, "_hard", False)

        def locate(ridx):
            """(bool cell, idx in self) for a root index"""
            c, idx = True, ridx
            for v in reversed(chain):
                cc, idx = v.invert(idx)
                c = cell_and(c, cc)
                if isinstance(c, bool) and not c:
                    return False, None
            return c, idx

        def newf(ridx):
            c, idx = locate(ridx)
            if isinstance(c, bool) and not c:
                return old(ridx)
            if cond is not None:
                c = cell_and(c, cond(idx))
                if isinstance(c, bool) and not c:
                    return old(ridx)
            if vf is None:
                return old(ridx)
            if not isinstance(c, bool) and core.CTX is not None and core.CTX.may_split(c):
                if not core.CTX.branch(core.bterm(c)):
                    return old(ridx)
                return cell_astype(vf(idx), dt) if dt.kind in "iufbc" else vf(idx)
            v = cell_astype(vf(idx), dt) if dt.kind in "iufbc" else vf(idx)
            return cell_ite(c, v, old(ridx))

        def newm(ridx):
            c, idx = locate(ridx)
            o = oldm(ridx) if oldm is not None else False
            if isinstance(c, bool) and not c:
                return o
            if cond is not None:
                c = cell_and(c, cond(idx))
            v = vmg(idx) if vmg is not None else False
            return cell_ite(c, v, o)
        if vf is not None:
            root._f = memo(newf)
        if root._isma:
            plainview = any(getattr(v, "_plain", False) for v in chain)
            if not plainview and (oldm is not None or vmg is not None):
                root._m = memo(newm)
                root._nomask = False

    def invert(self, bidx):
        """for a view: (cell: base index is in the view, index in the view)"""
        if getattr(self, "_inv", None) is not None:
            return self._inv(bidx)
        # generic: probe imap with marker variables (affine maps only)
        marks = [z3.Int("view!%d" % k) for k in range(self.ndim)]
        tgt = self.imap(tuple(marks))
        sol = [None] * self.ndim
        cond = True
        for b, t in zip(bidx, tgt):
            b = it(b)
            if isinstance(t, FlatIdx):
                raise Unsupported("write through a reshaped view")
            if isinstance(t, int):
                cond = cell_and(cond, ieq(b, t))
                continue
            hit = [k for k in range(self.ndim) if t.eq(marks[k])]
            if hit:
                k = hit[0]
                if sol[k] is None:
                    sol[k] = b
                else:
                    cond = cell_and(cond, ieq(sol[k], b))
                continue
            vars_ = [k for k in range(self.ndim) if _occurs(marks[k], t)]
            if not vars_:
                cond = cell_and(cond, ieq(b, mki(t) if zval(t) is None else int(zval(t))))
                continue
            if len(vars_) > 1:
                raise Unsupported("write through a complicated view")
            k = vars_[0]
            s0 = z3.simplify(z3.substitute(t, (marks[k], z3.IntVal(0))))
            s1 = z3.simplify(z3.substitute(t, (marks[k], z3.IntVal(1))) - s0)
            st = zval(s1)
            if st is None:
                raise Unsupported("write through a view with symbolic stride")
            st = int(st)
            d = iterm(b) - s0
            v = z3.simplify(d if st == 1 else -d if st == -1 else d / st)
            if abs(st) != 1:
                cond = cell_and(cond, mkb(z3.simplify(d % st == 0)))
            v = int(zval(v)) if zval(v) is not None else v
            if sol[k] is None:
                sol[k] = v
            else:
                cond = cell_and(cond, ieq(sol[k], v))
        for k in range(self.ndim):
            if sol[k] is None:
                n = self._shape[k]
                if isinstance(n, int) and n == 1:
                    sol[k] = 0
                    continue
                raise Unsupported("write through a broadcast view")
            # in range of the view
            n = self._shape[k]
            if isinstance(sol[k], int) and isinstance(n, int):
                cond = cell_and(cond, 0 <= sol[k] < n)
            else:
                # skip the range test when the view spans the whole axis
                if not self._full_axis(k, tgt, marks):
                    cond = cell_and(cond, mkb(z3.And(iterm(sol[k]) >= 0, iterm(sol[k]) < dterm(n))))
        return cond, tuple(sol)

    def _full_axis(self, k, tgt, marks):
        for t, n in zip(tgt, self.base._shape):
            if not isinstance(t, int) and t.eq(marks[k]):
                m = self._shape[k]
                if isinstance(n, int) and isinstance(m, int):
                    return n == m
                return dterm(n).eq(dterm(m))
        return False

    def _setfancy(self, key, val):
        adv = [k for k, x in enumerate(key) if isinstance(x, SymArray)]
        arrs = [key[k] for k in adv]
        ash = bshape(*[a._shape for a in arrs])
        if not all(isinstance(n, int) for n in ash) or prod(ash) > 256:
            raise Unsupported("assignment through a symbolic-length index array")
        v = asarr(val)
        rest = [k for k in range(len(key)) if k not in adv and not isinstance(key[k], (int, SymNum))]
        for n_, idx in enumerate(itertools.product(*[range(n) for n in ash])):
            k2 = list(key)
            for k, a in zip(adv, arrs):
                c = a.get(bget(a, idx, ash))
                k2[k] = int(c) if not isinstance(c, Sym) else c
            if v.ndim == 0:
                vv = v.get(())
            else:
                # value broadcast to result shape: advanced dims first when contiguous at front
                if adv[0] == 0 or not rest or adv[0] < min(rest):
                    nd_rest = len(rest)
                    if v.ndim <= nd_rest:
                        vv = v
                    else:
                        vidx = tuple(0 if (isinstance(m, int) and m == 1) else i
                                     for m, i in zip(v._shape[:v.ndim - nd_rest][-len(idx):],
                                                     idx[-(v.ndim - nd_rest):]))
                        vv = v[vidx]
                else:
                    pre = len([k for k in rest if k < adv[0]])
                    if v.ndim <= len(rest) - pre:
                        vv = v
                    else:
                        post = len(rest) - pre
                        need = pre + len(ash) + post
                        if v.ndim == need:
                            vv = v[(slice(None),) * pre + tuple(
                                0 if (isinstance(m, int) and m == 1) else i
                                for m, i in zip(v._shape[pre:pre + len(ash)], idx))]
                        else:
                            raise Unsupported("fancy assignment shape")
            self[tuple(k2)] = vv

    # ------------------------------------------------------------ arithmetic
    def _bin(self, op, o, r=False):
        from . import npshim
        if not npshim.is_operand(o):
            return NotImplemented
        return npshim.elementwise2(op, o, self) if r else npshim.elementwise2(op, self, o)

    def __add__(self, o): return self._bin("add", o)
    def __radd__(self, o): return self._bin("add", o, True)
    def __sub__(self, o): return self._bin("sub", o)
    def __rsub__(self, o): return self._bin("sub", o, True)
    def __mul__(self, o): return self._bin("mul", o)
    def __rmul__(self, o): return self._bin("mul", o, True)
    def __truediv__(self, o): return self._bin("div", o)
    def __rtruediv__(self, o): return self._bin("div", o, True)
    def __floordiv__(self, o): return self._bin("fdiv", o)
    def __rfloordiv__(self, o): return self._bin("fdiv", o, True)
    def __mod__(self, o): return self._bin("mod", o)
    def __rmod__(self, o): return self._bin("mod", o, True)
    def __pow__(self, o): return self._bin("pow", o)
    def __rpow__(self, o): return self._bin("pow", o, True)
    def __and__(self, o): return self._bin("and", o)
    def __rand__(self, o): return self._bin("and", o, True)
    def __or__(self, o): return self._bin("or", o)
    def __ror__(self, o): return self._bin("or", o, True)
    def __xor__(self, o): return self._bin("xor", o)
    def __rxor__(self, o): return self._bin("xor", o, True)
    def __lt__(self, o): return self._bin("lt", o)
    def __le__(self, o): return self._bin("le", o)
    def __gt__(self, o): return self._bin("gt", o)
    def __ge__(self, o): return self._bin("ge", o)

    def __eq__(self, o):
        if isinstance(o, (_dt.timedelta, _dt.date)):
            from . import npshim
            c = npshim.allconc(self)
            if c is not None:
                return asarr(_np.asarray(c[0] == o))
        if o is None or isinstance(o, str):
            r = self.real_
            if r is not None:
                return asarr(_np.asarray(r == o))
            return False
        r = self._bin("eq", o)
        return False if r is NotImplemented else _ma_equality(r, self, o, False)

    def __ne__(self, o):
        if isinstance(o, (_dt.timedelta, _dt.date)):
            from . import npshim
            c = npshim.allconc(self)
            if c is not None:
                return asarr(_np.asarray(c[0] != o))
        if o is None or isinstance(o, str):
            r = self.real_
            if r is not None:
                return asarr(_np.asarray(r != o))
            return True
        r = self._bin("ne", o)
        return True if r is NotImplemented else _ma_equality(r, self, o, True)

    def __matmul__(self, o):
        from . import npshim
        return npshim.dot(self, o)

    def __rmatmul__(self, o):
        from . import npshim
        return npshim.dot(o, self)

    def __neg__(self):
        from . import npshim
        return npshim.elementwise1(cell_neg, self, "neg")

    def __pos__(self):
        return self.copy()

    def __abs__(self):
        from . import npshim
        return npshim.absolute(self)

    def __invert__(self):
        from . import npshim
        if self.dt.kind == "b":
            return npshim.elementwise1(cell_not, self, "not", _np.dtype(bool))
        raise Unsupported("bitwise invert")

    def _inplace(self, op, o):
        from . import npshim
        r = npshim.elementwise2(op, self, o)
        if self.ndim == 0 and not isinstance(r, SymArray):
            self[()] = r
            return self
        r = asarr(r)
        if self.dt.kind in "iu" and r.dt.kind == "f" or self.dt.kind == "f" and r.dt.kind == "c":
            raise TypeError("Cannot cast ufunc '%s' output from dtype('%s') to dtype('%s') with casting rule "
                            "'same_kind'" % (op, r.dt, self.dt))
        if self.dt.kind == "b" and op in ("add", "or"):
            r = r.astype(bool)
        if self.isma and not getattr(self, "_plain", False):
            # in-place on a masked array: data and mask are those of the result
            if self.base is None:
                g, mg = r.getter(), r.mgetter()
                dt = self.dt
                if r._shape != self._shape and not all(same_dim(x, y) for x, y in zip(r._shape, self._shape)):
                    raise ValueError("non-broadcastable output operand")
                core_note_write(self)
                self._real, self._f, self._m = None, memo(lambda i: cell_astype(g(i), dt)), mg
                return self
        self[...] = r
        return self

    def __iadd__(self, o): return self._inplace("add", o)
    def __isub__(self, o): return self._inplace("sub", o)
    def __imul__(self, o): return self._inplace("mul", o)
    def __itruediv__(self, o): return self._inplace("div", o)
    def __ifloordiv__(self, o): return self._inplace("fdiv", o)
    def __imod__(self, o): return self._inplace("mod", o)
    def __ipow__(self, o): return self._inplace("pow", o)
    def __iand__(self, o): return self._inplace("and", o)
    def __ior__(self, o): return self._inplace("or", o)

    # ------------------------------------------------------------ methods forwarded to the shim
    def _np(self, name, *a, **k):
        from . import npshim
        return getattr(npshim, name)(self, *a, **k)

    def sum(self, *a, **k): return self._np("sum_", *a, **k)
    def prod(self, *a, **k): return self._np("prod_", *a, **k)
    def mean(self, *a, **k): return self._np("mean", *a, **k)
    def min(self, *a, **k): return self._np("amin", *a, **k)
    def max(self, *a, **k): return self._np("amax", *a, **k)
    def any(self, *a, **k): return self._np("any_", *a, **k)
    def all(self, *a, **k): return self._np("all_", *a, **k)
    def clip(self, *a, **k): return self._np("clip", *a, **k)
    def cumsum(self, *a, **k): return self._np("cumsum", *a, **k)
    def argmax(self, *a, **k): return self._np("argmax", *a, **k)
    def argmin(self, *a, **k): return self._np("argmin", *a, **k)
    def argsort(self, *a, **k): return self._np("argsort", *a, **k)
    def nonzero(self): return self._np("nonzero")
    def round(self, *a, **k): return self._np("around", *a, **k)
    def std(self, *a, **k): return self._np("std", *a, **k)
    def var(self, *a, **k): return self._np("var", *a, **k)
    def repeat(self, *a, **k): return self._np("repeat", *a, **k)
    def take(self, *a, **k): return self._np("take", *a, **k)
    def dot(self, o): return self._np("dot", o)
    def ptp(self, *a, **k): return self.max() - self.min()

    def sort(self, axis=-1, **k):
        from . import npshim
        self[...] = npshim.sort(self, axis)

    def count(self, axis=None):
        from . import npshim
        return npshim.sum_(asarr(cell_fix(self)).astype(int), axis=axis)

    @property
    def real(self):
        if self.dt.kind == "c":
            from . import npshim
            return npshim.elementwise1(lambda c: c.re if isinstance(c, CplxCell) else c.real, self, "re",
                                       _np.dtype("float32" if self.dt.itemsize == 8 else "float64"))
        return self

    @property
    def imag(self):
        from . import npshim
        return npshim.elementwise1(lambda c: c.im if isinstance(c, CplxCell) else c.imag, self, "im",
                                   _np.dtype("float32" if self.dt.itemsize == 8 else "float64"))

    @property
    def flat(self):
        return self.ravel()

    @property
    def strides(self):
        return _Strides(self)


class _Strides:
    """strides of an array, only good for as_strided window construction: a.strides + a.strides[-k:]"""

    def __init__(self, a, axes=None):
        self.a = a
        self.axes = tuple(range(a.ndim)) if axes is None else axes

    def __getitem__(self, k):
        if isinstance(k, slice):
            return _Strides(self.a, self.axes[k])
        return _Strides(self.a, (self.axes[k],))

    def __add__(self, o):
        if isinstance(o, _Strides):
            return _Strides(self.a, self.axes + o.axes)
        if isinstance(o, tuple):
            r = self
            for x in o:
                r = r + x
            return r
        raise Unsupported("strides arithmetic")

    def __radd__(self, o):
        if isinstance(o, tuple):
            r = _Strides(self.a, ())
            for x in o:
                r = r + x
            return r + self
        raise Unsupported("strides arithmetic")

    def __iter__(self):
        return iter([_Strides(self.a, (x,)) for x in self.axes])

    def __len__(self):
        return len(self.axes)


class _NotConst(Exception):
    pass


def _cint(v):
    c = zval(v.t) if isinstance(v, SymNum) else None
    if c is None:
        raise _NotConst()
    return int(c)


def _occurs(v, t):
    stack = [t]
    while stack:
        x = stack.pop()
        if x.eq(v):
            return True
        stack.extend(x.children())
    return False


def _unflat(v, shape):
    out = []
    rest = v
    for n in reversed(shape[1:]):
        if isinstance(n, int):
            if isinstance(rest, int):
                out.append(rest % n)
                rest = rest // n
            else:
                out.append(z3.simplify(rest % n))
                rest = z3.simplify(rest / n)
        else:
            rest = iterm(rest)
            out.append(rest % n.t)
            rest = rest / n.t
    out.append(rest)
    return tuple(reversed(out))


def _reshape_fast(old, new):
    """index map for a reshape that only adds/removes ones"""
    a = [k for k, n in enumerate(old) if n != 1]
    b = [k for k, n in enumerate(new) if n != 1]
    if [old[x] for x in a] != [new[y] for y in b]:
        return None

    def imap(idx):
        out = [0] * len(old)
        for x, y in zip(a, b):
            out[x] = idx[y]
        return tuple(out)
    return imap


def slice_norm(s, n):
    """(start, length, step) of a slice over an axis of size n"""
    step = s.step
    if isinstance(step, Sym):
        step = int(step)
    step = 1 if step is None else int(step)

    def conv(v):
        if isinstance(v, SymArray):
            v = v._as_scalar()
        if isinstance(v, SymNum):
            if not v.t.is_int():
                raise TypeError("slice indices must be integers or None or have an __index__ method")
            return mki(v.t)
        if isinstance(v, (float, _np.floating)):
            raise TypeError("slice indices must be integers or None or have an __index__ method")
        return v.__index__()
    start = None if s.start is None else conv(s.start)
    stop = None if s.stop is None else conv(s.stop)
    if all(isinstance(v, int) or v is None for v in (start, stop)) and isinstance(n, int):
        a, b, c = slice(start, stop, step).indices(n)
        return a, len(range(a, b, c)), c
    if step == 1:
        if start is None:
            start = 0
        if stop is None:
            stop = n
        if not (isinstance(start, int) and start == 0):
            if start < 0:
                start = dim(start + n)
                if start < 0:
                    start = 0
            if start > n:
                start = n
        if stop is not n:
            if stop < 0:
                stop = dim(stop + n)
                if stop < 0:
                    stop = 0
            elif stop > n:
                stop = n
        ln = dim(stop - start) if not (isinstance(start, int) and start == 0) else stop
        if not (isinstance(start, int) and start == 0):
            if ln < 0:
                ln = 0
        return it(start), ln, 1
    if step == -1 and start is None and stop is None:
        return it(dim(n - 1)), n, -1
    if step > 1 and start is None and stop is None:
        return 0, dim((n + (step - 1)) // step), step
    if step == -1:
        # general reversed slice
        if start is None:
            start = dim(n - 1)
        else:
            if start < 0:
                start = dim(start + n)
                if start < 0:
                    start = -1
            elif start >= n:
                start = dim(n - 1)
        if stop is None:
            stop = -1
        else:
            if stop < 0:
                stop = dim(stop + n)
                if stop < 0:
                    stop = -1
            elif stop >= n:
                stop = dim(n - 1)
        ln = dim(start - stop)
        if ln < 0:
            ln = 0
        return it(start), ln, -1
    raise Unsupported("slice with step %r on a symbolic axis" % step)


def neg_index(c, n):
    """index cell -> base index, wrapping negatives"""
    if isinstance(c, (bool, _np.bool_)):
        c = int(c)
    if isinstance(c, (int, _np.integer)):
        c = int(c)
        if c >= 0:
            return c
        return it(dim(n + c)) if not isinstance(n, int) else c + n
    if isinstance(c, (float, _np.floating)):
        raise IndexError("arrays used as indices must be of integer (or boolean) type")
    t = iterm(c)
    if zval(t) is not None:
        return neg_index(int(zval(t)), n)
    return z3.If(t < 0, t + dterm(n), t)


def index_norm(x, n):
    if isinstance(x, (float, _np.floating)) or (isinstance(x, SymNum) and not x.t.is_int()):
        raise IndexError("only integers, slices (`:`), ellipsis (`...`), numpy.newaxis (`None`) and integer or "
                         "boolean arrays are valid indices")
    if isinstance(x, SymNum):
        x = mki(x.t)
    if isinstance(x, z3.ArithRef):
        x = mki(x)
    if not isinstance(x, SymNum):
        x = x.__index__()
        if isinstance(n, int):
            if not -n <= x < n:
                raise IndexError("index %d is out of bounds for axis with size %d" % (x, n))
            return x + n if x < 0 else x
        if x >= 0:
            if not (n > x):
                raise IndexError("index out of bounds")
            return x
        if not (n >= -x):
            raise IndexError("index out of bounds")
        return it(dim(n + x))
    # symbolic
    if x < 0:
        y = dim(x + n)
        if y < 0:
            raise IndexError("index out of bounds")
        return it(y)
    if not (x < n):
        raise IndexError("index out of bounds")
    return it(x)


def cidx_check(a, n):
    """obligation-free bounds check of a fancy index (raises on definite violation)"""
    r = a.real_
    if r is not None and isinstance(n, int) and r.size and r.dtype.kind in "iu":
        if r.min() < -n or r.max() >= n:
            raise IndexError("index %d is out of bounds for axis with size %d" % (r.max(), n))
        return
    if a.dt.kind not in "iu":
        raise IndexError("arrays used as indices must be of integer (or boolean) type")
    g = a.getter()
    from . import npshim
    ok = npshim.all_(SymArray(a._shape, f=memo(lambda i: cell_and(cell_cmp("ge", g(i), -n if isinstance(n, int) else -n),
                                                                   cell_cmp("lt", g(i), n))), dt=bool))
    if not bool(ok):
        raise IndexError("index out of bounds")


def _table(r):
    """cell function of a concrete numpy array"""
    if isinstance(r, _np.ma.MaskedArray):
        r = r.data
    obj = r.dtype == object

    def f(idx):
        idx = tuple(it(i) for i in idx)
        if all(isinstance(i, int) for i in idx):
            v = r[idx]
            if isinstance(v, (complex, _np.complexfloating)):
                return core.cplx(v)
            return v
        if r.size > TABLE:
            raise Unsupported("symbolic index into a large concrete array")
        flat = r.reshape(-1)
        if r.size and not obj and (flat == flat[0]).all():
            return flat[0]
        # nested ite over the symbolic axes
        def go(pre, rest):
            if not rest:
                v = r[tuple(pre)]
                return core.cplx(v) if isinstance(v, (complex, _np.complexfloating)) else v
            i = rest[0]
            if isinstance(i, int):
                return go(pre + [i], rest[1:])
            n = r.shape[len(pre)]
            out = go(pre + [n - 1], rest[1:])
            for k in range(n - 2, -1, -1):
                out = cell_ite(mkb(i == k), go(pre + [k], rest[1:]), out)
            return out
        return go([], list(idx))
    return f


def _bool_getter(m):
    g = m.getter()
    if m.dt.kind == "b":
        return g
    return lambda i: mkb(bterm(g(i))) if isinstance(g(i), Sym) else bool(g(i))


def core_note_write(root):
    c = core.CTX
    root._stamp += 1
    if c is not None:
        c.writes.append(root)


# ---------------------------------------------------------------- constructors
def norm_dtype(dt):
    if dt is None:
        return None
    if isinstance(dt, _np.dtype):
        return dt
    r = getattr(dt, "_real_dtype", None)
    if r is not None:
        return _np.dtype(r)
    if isinstance(dt, str) and dt.startswith("timedelta64") or isinstance(dt, str) and dt.startswith("datetime64"):
        return _np.dtype(dt)
    return _np.dtype(dt)


def full(shape, v, dt):
    if isinstance(shape, (int, SymNum, _np.integer)) or not isinstance(shape, (tuple, list, SymArray)):
        shape = (shape,)
    shape = tuple(dim(n) for n in shape)
    dt = norm_dtype(dt)
    if all(isinstance(n, int) for n in shape) and not isinstance(v, (Sym, SymArray)):
        return SymArray(shape, real=_np.full(shape, v, dtype=dt), dt=dt)
    if isinstance(v, SymArray) and v.ndim:
        g = v.getter()
        return SymArray(shape, f=memo(lambda i: cell_astype(g(bget(v, i, shape)), dt)), dt=dt)
    v = v._as_scalar() if isinstance(v, SymArray) else v
    c = cell_astype(v, dt) if dt.kind in "iufbc" else v
    return SymArray(shape, f=lambda i: c, dt=dt)


def cell_dtype(cells):
    """dtype of a list of scalar cells"""
    kinds = []
    for c in cells:
        if isinstance(c, SymBool) or isinstance(c, (bool, _np.bool_)):
            kinds.append(_np.dtype(bool))
        elif isinstance(c, CplxCell):
            kinds.append(_np.dtype(complex))
        elif isinstance(c, SymNum):
            kinds.append(c.dtype)
        else:
            kinds.append(_np.asarray(c).dtype)
    if not kinds:
        return _np.dtype(float)
    return _np.result_type(*kinds)


def has_sym(x, depth=0):
    if isinstance(x, (Sym, SymArray, SymSel)):
        return True
    if depth < 8 and isinstance(x, (list, tuple)):
        return any(has_sym(y, depth + 1) for y in x)
    if depth < 4 and isinstance(x, dict):
        return any(has_sym(y, depth + 1) for y in x.values())
    return False


def asarr(x, dt=None):
    """SymArray from anything array-like (no copy for SymArray)"""
    dt = norm_dtype(dt)
    if isinstance(x, SymArray):
        return x if dt is None or dt == x.dt else x.astype(dt)
    if isinstance(x, SymSel):
        return asarr(x.materialise(), dt)
    if isinstance(x, _MaskView):
        return x.as_array()
    if isinstance(x, SymNum):
        d = dt or x.dtype
        c = cell_astype(x, d) if dt is not None else x
        return SymArray((), f=lambda i: c, dt=d)
    if isinstance(x, SymBool):
        c = cell_astype(x, dt) if dt is not None else x
        return SymArray((), f=lambda i: c, dt=dt or bool)
    if isinstance(x, CplxCell):
        return SymArray((), f=lambda i: x, dt=dt or complex)
    if isinstance(x, _np.ma.MaskedArray):
        a = SymArray(x.shape, real=_np.array(x.data, dtype=dt), dt=dt or x.dtype, isma=True)
        if x.mask is not _np.ma.nomask:
            a._m = _table(_np.array(x.mask))
            a._nomask = False
        return a
    if isinstance(x, _np.ndarray):
        if x.dtype == object and any(has_sym(v) for v in x.reshape(-1)):
            return asarr(x.tolist(), dt)
        r = _np.array(x, dtype=dt)
        return SymArray(r.shape, real=r, dt=r.dtype)
    if isinstance(x, (list, tuple)) and has_sym(x):
        return stack_cells(x, dt)
    if hasattr(x, "__iter__") and not isinstance(x, (str, bytes, list, tuple, dict)) and not hasattr(x, "__array__") \
            and not isinstance(x, (set, frozenset)):
        try:
            x = list(x)
        except TypeError:
            pass
        if has_sym(x):
            return stack_cells(x, dt)
    if isinstance(x, list) and any(v is masked for v in x):
        x = [_np.float64("nan") if v is masked else v for v in x]
    try:
        r = _np.array(x, dtype=dt)
    except ValueError:
        r = _np.array(x, dtype=object)
    return SymArray(r.shape, real=r, dt=r.dtype)


def stack_cells(xs, dt):
    parts = []
    for v in xs:
        if isinstance(v, (list, tuple)):
            parts.append(asarr(v))
        elif isinstance(v, SymSel):
            parts.append(v.materialise())
        else:
            parts.append(v)
    if all(not isinstance(v, (SymArray, _np.ndarray)) or (v.ndim == 0) for v in parts):
        cells = [v.get(()) if isinstance(v, SymArray) else v for v in parts]
        if any(c is masked for c in cells):     # numpy makes a (float64) not-a-number of it
            if dt is None and any(not isinstance(c, _Masked) and core.dt_of(c) is not None and core.dt_of(c).kind not in "fiub"
                                  for c in cells):
                raise Unsupported("masked constant in a list")
            cells = [_np.float64("nan") if c is masked else c for c in cells]
        d = dt or cell_dtype(cells)
        cells = [cell_astype(c, d) if d.kind in "iufbc" else c for c in cells]
        return from_cells(cells, d)
    parts = [asarr(p) for p in parts]
    d = dt or _np.result_type(*[p.dt for p in parts])
    sh = parts[0]._shape
    for p in parts[1:]:
        if len(p._shape) != len(sh) or not all(same_dim(a, b) for a, b in zip(p._shape, sh)):
            raise ValueError("setting an array element with a sequence. The requested array has an inhomogeneous "
                             "shape")
    gs = [p.getter() for p in parts]
    return SymArray((len(parts),) + sh, f=memo(lambda i: pick([(lambda g=g: cell_astype(g(i[1:]), d)) for g in gs],
                                                              i[0])), dt=d)


def pick(thunks, i):
    i = it(i)
    if isinstance(i, int):
        return thunks[i]()
    out = thunks[-1]()
    for k in range(len(thunks) - 2, -1, -1):
        out = cell_ite(mkb(i == k), thunks[k](), out)
    return out


def from_cells(cells, dt):
    cells = list(cells)
    dt = norm_dtype(dt)
    if not any(isinstance(c, Sym) for c in cells):
        r = _np.array(cells, dtype=dt)
        return SymArray(r.shape, real=r, dt=dt)
    return SymArray((len(cells),), f=lambda i: pick([(lambda c=c: c) for c in cells], i[0]), dt=dt)


def broadcast_to(a, shape):
    a = asarr(a)
    shape = tuple(dim(n) for n in (shape if isinstance(shape, (tuple, list)) else (shape,)))
    sh = bshape(a._shape, shape)
    if len(sh) != len(shape) or not all(surely_same(x, y) for x, y in zip(sh, shape)):
        raise ValueError("operands could not be broadcast together with remapped shapes")
    src = a
    ok = all(isinstance(n, int) for n in shape)
    return SymArray(shape, dt=a.dt, base=a, imap=lambda i: bget(src, i, shape),
                    rmap=(lambda r: _np.broadcast_to(r, shape)) if ok else None)


class _Masked:
    """numpy.ma.masked"""
    mask = True
    shape = ()
    ndim = 0

    def __repr__(self):
        return "masked"

    def __bool__(self):
        return False

    def _m(self, *a):
        return self
    __add__ = __radd__ = __sub__ = __rsub__ = __mul__ = __rmul__ = __truediv__ = __rtruediv__ = __neg__ = _m
    __lt__ = __le__ = __gt__ = __ge__ = _m

    def astype(self, *a, **k):
        return self


masked = _Masked()


class _MaskView(SymArray):
    """the mask of a masked array, writable"""

    def __init__(self, owner):
        g = owner.mgetter()
        SymArray.__init__(self, owner._shape, f=lambda i: g(i), dt=bool)
        self.owner = owner

    def as_array(self):
        return SymArray(self._shape, f=self._f, dt=bool)

    def __setitem__(self, key, val):
        o = self.owner
        tmp = SymArray(self._shape, f=self._f, dt=bool)
        tmp[key] = val
        if o.base is None:
            o._m = tmp.getter()
        else:
            raise Unsupported("write to the mask of a view")
        self._f = o._m


class SymSel:
    """a[mask]: the (1-d in the masked axes) selection of inner where mask, kept lazily over the full index space"""
    __array_priority__ = 1e6
    __array_ufunc__ = None
    is_index = False

    def __init__(self, inner, mask, off=0):
        g, mg = inner.getter(), inner.mgetter()
        self.inner = SymArray(inner._shape, f=g, dt=inner.dt, m=mg if not getattr(inner, "_plain", False) else None,
                              isma=inner.isma and not getattr(inner, "_plain", False))
        for j in range(mask.ndim):
            if not same_dim(mask._shape[j], inner._shape[off + j]):
                raise IndexError("boolean index did not match indexed array along dimension %d" % j)
        self.m = SymArray(mask._shape, f=_bool_getter(mask), dt=bool)
        self.off = off
        self._n = None

    def full_mask(self):
        """mask broadcast over the whole inner shape"""
        g, off, nd = self.m.getter(), self.off, self.m.ndim
        return SymArray(self.inner._shape, f=lambda i: g(i[off:off + nd]), dt=bool)

    def like(self, inner):
        s = SymSel.__new__(SymSel)
        s.inner, s.m, s.off, s._n = inner, self.m, self.off, self._n
        return s

    def count(self):
        if self._n is None:
            from . import npshim
            c = core.CTX
            n = c.fresh_int("nsel")
            c.assume(n >= 0)
            tot = prod(self.m._shape)
            c.assume(n <= iterm(tot))
            some = npshim.any_(self.m)
            c.assume((n > 0) == bterm(some))
            every = npshim.all_(self.m)
            c.assume((n == iterm(tot)) == bterm(every))
            self._n = SymNum(n)
        return self._n

    @property
    def shape(self):
        s = self.inner._shape
        return s[:self.off] + (self.count(),) + s[self.off + self.m.ndim:]

    @property
    def ndim(self):
        return self.inner.ndim - self.m.ndim + 1

    @property
    def size(self):
        return prod(self.shape)

    @property
    def dtype(self):
        return self.inner.dt

    dt = dtype

    def astype(self, dt, **k):
        return self.like(self.inner.astype(dt))

    def copy(self):
        return self.like(self.inner)

    def _within(self, k):
        """the selection's mask narrowed by a boolean selection of it"""
        k.check_mask(self.m)
        if k.off or self.off:
            raise Unsupported("selection of a selection with leading axes")
        g, h = self.m.getter(), _bool_getter(k.inner)
        return SymArray(self.m._shape, f=memo(lambda i: mkb(z3.And(bterm(g(i)), bterm(h(i))))), dt=bool)

    def squeeze(self, axis=None):
        if axis is None or not 0 <= axis < self.off:
            raise Unsupported("squeezing a selection")
        r = self.like(self.inner.squeeze(axis=axis))
        r.off -= 1
        return r

    def _lead(self, name, axis, keepdims):
        """reduction over an axis before the selected ones"""
        r = self.like(asarr(getattr(self.inner, name)(axis=axis, keepdims=keepdims)))
        if not keepdims:
            r.off -= 1
        return r

    def check_mask(self, m):
        if m.ndim != self.m.ndim:
            raise Unsupported("selection written through a different mask")
        ks = tuple(core.CTX.fresh_int("sel") for _ in range(m.ndim))
        a, b = bterm(_bool_getter(m)(ks)), bterm(self.m.get(ks))
        if z3.simplify(a).eq(z3.simplify(b)):
            return
        rng = z3.And(*[z3.And(k >= 0, k < dterm(n)) for k, n in zip(ks, m._shape)])
        core.CTX.add_index(ks)
        if not core.CTX.entails(z3.Implies(rng, a == b), 4000):
            raise Unsupported("selection written through a different mask")

    def materialise(self):
        """concrete-length array, by forking on every mask cell (small concrete shapes only)"""
        if self.m.ndim != 1 and self.inner.ndim != self.m.ndim:
            raise Unsupported("materialising a selection")
        sh = self.m._shape
        if not all(isinstance(n, int) for n in sh) or prod(sh) > 16:
            raise Unsupported("selection of symbolic length used as an array")
        keep = []
        for idx in itertools.product(*[range(n) for n in sh]):
            if bool(self.m.get(idx)):
                keep.append(idx)
        if self.off:
            raise Unsupported("materialising a selection with leading axes")
        cols = [asarr(_np.array([k[a] for k in keep], dtype=int)) for a in range(len(sh))]
        return self.inner[tuple(cols)]

    def __len__(self):
        return self.materialise().__len__()

    def sym_len(self):
        return self.shape[0]

    def __iter__(self):
        return iter(self.materialise())

    def __getitem__(self, k):
        if k is Ellipsis:
            return self
        if self.off == 0 and isinstance(k, tuple) and len(k) == 2 and k[1] is None and \
                isinstance(k[0], slice) and k[0] == slice(None):
            pass
        if isinstance(k, SymSel) and not k.is_index and k.dt.kind == "b" and not self.off:
            r = self.like(self.inner)
            r.m, r._n = self._within(k), None
            return r
        return self.materialise()[k]

    def __setitem__(self, k, v):
        from . import npshim
        if not (isinstance(k, SymSel) and not k.is_index and k.dt.kind == "b") or self.inner.isma:
            raise Unsupported("assignment into a boolean selection")
        w = self._within(k)
        if isinstance(v, SymSel):
            v.check_mask(w)
            v = v.inner
        elif isinstance(v, SymArray) and v.ndim:
            raise Unsupported("assignment of an array into a boolean selection")
        self.inner = asarr(npshim.where(k.inner, v, self.inner)).astype(self.inner.dt)

    @property
    def mask(self):
        return self.like(asarr(self.inner.mask))

    @property
    def data(self):
        return self.like(self.inner.data)

    def _bin(self, op, o, r=False):
        from . import npshim
        if not npshim.is_operand(o):
            return NotImplemented
        return npshim.elementwise2(op, o, self) if r else npshim.elementwise2(op, self, o)

    for _n in ("add", "radd", "sub", "rsub", "mul", "rmul", "truediv", "rtruediv", "pow", "and", "or", "lt", "le", "gt",
               "ge", "eq", "ne", "neg", "abs", "invert", "mod", "floordiv"):
        pass

    def __add__(self, o): return self._bin("add", o)
    def __radd__(self, o): return self._bin("add", o, True)
    def __sub__(self, o): return self._bin("sub", o)
    def __rsub__(self, o): return self._bin("sub", o, True)
    def __mul__(self, o): return self._bin("mul", o)
    def __rmul__(self, o): return self._bin("mul", o, True)
    def __truediv__(self, o): return self._bin("div", o)
    def __rtruediv__(self, o): return self._bin("div", o, True)
    def __mod__(self, o): return self._bin("mod", o)
    def __floordiv__(self, o): return self._bin("fdiv", o)
    def __pow__(self, o): return self._bin("pow", o)
    def __rpow__(self, o): return self._bin("pow", o, True)
    def __and__(self, o): return self._bin("and", o)
    def __or__(self, o): return self._bin("or", o)
    def __lt__(self, o): return self._bin("lt", o)
    def __le__(self, o): return self._bin("le", o)
    def __gt__(self, o): return self._bin("gt", o)
    def __ge__(self, o): return self._bin("ge", o)
    def __eq__(self, o): return self._bin("eq", o)
    def __ne__(self, o): return self._bin("ne", o)
    def __neg__(self): return self.like(-self.inner)
    def __abs__(self): return self.like(abs(self.inner))
    def __invert__(self): return self.like(~self.inner)
    __hash__ = None

    def any(self, axis=None, **k):
        from . import npshim
        return npshim.any_(self.inner & self.full_mask())

    def all(self, axis=None, **k):
        from . import npshim
        return npshim.all_(self.inner | ~self.full_mask())

    def sum(self, axis=None, **k):
        from . import npshim
        if axis is not None and 0 <= axis < self.off:
            return self._lead("sum", axis, k.get("keepdims", False))
        if axis is not None and not (self.ndim == 1):
            raise Unsupported("axis sum of a selection")
        return npshim.sum_(npshim.where(self.full_mask(), self.inner, 0))

    def mean(self, axis=None, **k):
        if axis is not None and 0 <= axis < self.off:
            return self._lead("mean", axis, k.get("keepdims", False))
        if axis is not None and not (self.ndim == 1):
            raise Unsupported("axis mean of a selection")
        return self.sum() / self.count()

    def _ext(self, kind, axis=None, **k):
        from . import npshim
        if axis is not None and not (self.ndim == 1):
            raise Unsupported("axis reduction of a selection")
        return npshim.extreme(self.inner, kind, None, where=self.full_mask())

    def max(self, axis=None, **k):
        return self._ext("max", axis)

    def min(self, axis=None, **k):
        return self._ext("min", axis)

    def clip(self, *a, **k):
        return self.like(self.inner.clip(*a, **k))

    def flatten(self, *a):
        return self if self.ndim == 1 else self.materialise().flatten()

    def filled(self, v=None):
        return self.like(self.inner.filled(v))

    def compressed(self):
        raise Unsupported("compressed selection")

    def reshape(self, *a):
        return self.materialise().reshape(*a)

    def tolist(self):
        return self.materialise().tolist()


class SymIdx(SymSel):
    """np.nonzero(mask): one axis of the positions where a mask holds, usable as an index together with its siblings"""
    is_index = True

    def __init__(self, mask, axis):
        ax = axis
        inner = SymArray(mask._shape, f=lambda i: mki(iterm(it(i[ax]))), dt=_np.dtype(int))
        SymSel.__init__(self, inner, mask, 0)
        self.axis = axis
        self.src = mask


def _ma_equality(r, a, o, ne):
    """== and != of masked arrays compare the masks where a point is masked"""
    if not isinstance(r, SymArray) or not r.isma or r.real_ is not None:
        return r
    from . import npshim
    rm = npshim._masked_of(r)
    if rm is None:
        return r
    sh, g = r._shape, _bool_getter(r)
    ms = [(x, npshim._masked_of(x)) for x in (a, o) if isinstance(x, SymArray)]

    def f(i):
        both = len(ms) == 2 and all(m is not None for x, m in ms)
        if both:
            both = core.cell_and(*[m(npshim.bget(x, i, sh)) for x, m in ms])
        return core.cell_ite(rm(i), core.cell_not(both) if ne else both, g(i))
    return npshim.masked_array(SymArray(sh, f=memo(f), dt=_np.dtype(bool)), SymArray(sh, f=rm, dt=_np.dtype(bool)))


def _idx_mask(a, key):
    sels = [x for x in key if isinstance(x, SymSel)]
    if all(isinstance(x, SymIdx) for x in sels):
        m = sels[0].m
        k0 = key.index(sels[0]) if False else [k for k, x in enumerate(key) if isinstance(x, SymSel)][0]
        if [x.axis for x in sels] == list(range(m.ndim)) and all(
                isinstance(key[k0 + j], SymIdx) for j in range(len(sels))) and all(x.src is sels[0].src for x in sels):
            return key[:k0] + [m] + key[k0 + len(sels):]
    return None


def _trim(a, key):
    """positions found in a smaller array index the leading part of a"""
    if any(x is None or x is Ellipsis for x in key):
        return a
    ix = [slice(None)] * a.ndim
    ch = False
    d = 0
    for x in key:
        if isinstance(x, SymArray) and x.dt.kind == "b":
            for n in x._shape:
                if d < a.ndim and not same_dim(n, a._shape[d]):
                    if not core.CTX.entails(dterm(n) <= dterm(a._shape[d])):
                        raise Unsupported("positions of a differently shaped array")
                    ix[d], ch = slice(0, n), True
                d += 1
        else:
            d += 1
    return a[tuple(ix)] if ch else a


def index_get(a, key):
    k = _idx_mask(a, key)
    if k is not None:
        a = _trim(a, k)
        return a[tuple(k)]
    # a[idx1[m], idx2[m]]: pointwise gather over the selection
    sels = [x for x in key if isinstance(x, SymSel)]
    s0 = sels[0]
    if len(sels) == len(key) and all(s.inner.ndim == s0.inner.ndim for s in sels):
        for s in sels[1:]:
            s.check_mask(s0.m)
        from . import npshim
        fm = s0.full_mask()         # positions that are not selected are never looked up
        return s0.like(a[tuple(npshim.where(fm, s.inner, 0) for s in sels)])
    raise Unsupported("index by a selection")


def _own_positions(a, sels):
    """is every selected position k written to at k itself?"""
    m = sels[0].m
    if m.ndim != a.ndim or len(sels) != a.ndim or not all(same_dim(x, y) for x, y in zip(m._shape, a._shape)):
        return False
    c = core.CTX
    ks = tuple(c.fresh_int("own") for _ in range(m.ndim))
    c.add_index(ks)
    rng = z3.And(*[z3.And(k >= 0, k < dterm(n)) for k, n in zip(ks, m._shape)], bterm(_bool_getter(m)(ks)))
    at = [s.inner.get(ks) for s in sels]
    if not all(isinstance(x, (int, _np.integer, SymNum)) for x in at):
        return False
    return c.entails(z3.Implies(rng, z3.And(*[iterm(x) == k for x, k in zip(at, ks)])), 4000)


def index_set(a, key, val):
    k = _idx_mask(a, key)
    if k is not None:
        a = _trim(a, k)
        a[tuple(k)] = val
        return
    sels = [x for x in key if isinstance(x, SymSel)]
    if len(sels) == len(key) and sels[0].off == 0 and all(s.inner.ndim == s.m.ndim == sels[0].m.ndim for s in sels):
        for s in sels[1:]:
            s.check_mask(sels[0].m)
        if _own_positions(a, sels):
            a[sels[0].m] = val
            return
        a[tuple(s.materialise() for s in sels)] = val.materialise() if isinstance(val, SymSel) else val
        return
    raise Unsupported("assignment indexed by a selection")


def cell_fix(a):
    mg = a.mgetter()
    if mg is None:
        return full(a._shape, True, bool)
    return SymArray(a._shape, f=lambda i: cell_not(mg(i)), dt=bool)
