"""numpy arrays whose elements may be symbolic, for host code.

`SymArr` is an object ndarray that remembers the dtype the code believes it has
and wraps every arithmetic result into it, so uint64 overflow is modelled.  The
modules under contract run with their global `np` (and `jnp`) replaced by a
proxy whose constructors build SymArr; everything else is numpy's own.
"""

import numpy as np

from . import pysym
from .poly import Unsupported, V
from .pysym import B, S, mk

OBJ = np.dtype(object)


def ldt(x):
  """Logical dtype; None for a weakly typed Python scalar."""
  if isinstance(x, SymArr):
    return x.dt
  if isinstance(x, (bool, np.bool_, B)):
    return np.dtype(bool)
  if isinstance(x, (np.ndarray, np.generic)):
    return x.dtype
  if isinstance(x, (int, S)):
    return None
  if hasattr(x, "dtype"):
    return np.dtype(x.dtype)
  return OBJ


def fit(x, dt):
  """The value x has after conversion to dt."""
  if dt == OBJ:
    return x
  if dt.kind == "b":
    return x if isinstance(x, (B, bool, np.bool_)) else x != 0
  if dt.kind not in "iu":
    raise Unsupported(f"symbolic value as {dt}")
  bits, signed = dt.itemsize * 8, dt.kind == "i"
  if isinstance(x, S):
    return mk(x.e, x.e.c.wrap(x.v, bits, signed))
  x = int(x) & ((1 << bits) - 1)
  return x - (1 << bits) if signed and x >> (bits - 1) else x


def has_sym(a):
  return any(isinstance(x, S) for x in np.asarray(a, object).ravel()) if not (
      isinstance(a, np.ndarray) and a.dtype != object) else False


def settle(a, dt):
  """A plain ndarray when nothing symbolic is left."""
  if dt != OBJ and not has_sym(a):
    return np.array(np.asarray(a, object).tolist(), dtype=dt).reshape(a.shape)
  r = np.asarray(a, object).view(SymArr)
  r.dt = dt
  return r


def wrap_arr(a, dt):
  dt = np.dtype(dt)
  o = np.empty(np.shape(a), object)
  src = np.asarray(a, object)
  for ix in np.ndindex(*o.shape):
    x = src[ix]
    o[ix] = fit(int(x) if isinstance(x, np.integer) else x, dt)
  r = o.view(SymArr)
  r.dt = dt
  return r


UF = {
    "add": lambda a, b: a + b, "subtract": lambda a, b: a - b,
    "multiply": lambda a, b: a * b, "remainder": lambda a, b: a % b,
    "floor_divide": lambda a, b: a // b, "left_shift": lambda a, b: a << b,
    "right_shift": lambda a, b: a >> b, "bitwise_and": lambda a, b: a & b,
    "bitwise_or": lambda a, b: a | b, "bitwise_xor": lambda a, b: a ^ b,
    "negative": lambda a: -a, "positive": lambda a: a,
    "power": lambda a, b: a ** b,
}
CMP = {
    "less": lambda a, b: a < b, "less_equal": lambda a, b: a <= b,
    "greater": lambda a, b: a > b, "greater_equal": lambda a, b: a >= b,
    "equal": lambda a, b: a == b, "not_equal": lambda a, b: a != b,
}


def matmul(a, b):
  dt = np.result_type(ldt(a), ldt(b))
  if dt.kind not in "iu" or np.ndim(a) != 2 or np.ndim(b) not in (1, 2):
    raise Unsupported("numpy matmul")
  x, y = np.asarray(a, object), np.asarray(b, object)
  flat = y.ndim == 1
  y = y[:, None] if flat else y
  if x.shape[1] != y.shape[0]:
    raise ValueError("matmul: shapes")
  o = np.empty((x.shape[0], y.shape[1]), object)
  for i, j in np.ndindex(*o.shape):
    t = 0
    for p, q in zip(x[i], y[:, j]):
      p = int(p) if isinstance(p, np.integer) else p
      q = int(q) if isinstance(q, np.integer) else q
      t = fit(p, dt) * fit(q, dt) + t
    o[i, j] = fit(t, dt)
  return settle(o[:, 0] if flat else o, dt)


class SymArr(np.ndarray):
  dt = OBJ

  def __array_finalize__(self, obj):
    if obj is not None:
      self.dt = getattr(obj, "dt", OBJ)

  def __array_ufunc__(self, uf, method, *ins, out=None, **kw):
    if method not in ("__call__", "reduce"):
      raise Unsupported(f"numpy {uf.__name__}.{method}")
    name = uf.__name__
    if method == "reduce":
      if name != "add":
        raise Unsupported(f"numpy {name}.reduce")
      a = np.asarray(ins[0], object)
      r = np.add.reduce(a, axis=kw.get("axis", 0),
                        keepdims=kw.get("keepdims", False))
      dt = self.dt
      return settle(wrap_arr(np.asarray(r, object), dt), dt)
    if name == "matmul" and out is None:
      return matmul(*ins)
    f = UF.get(name) or CMP.get(name)
    if f is None:
      raise Unsupported(f"numpy {name}")
    dts = [ldt(x) for x in ins]
    real = [d for d in dts if d is not None]
    dt = OBJ if any(d == OBJ for d in real) else np.result_type(*real)
    if dt.kind == "f":
      raise Unsupported("symbolic integers mixed to float by numpy")
    arrs = np.broadcast_arrays(*[np.asarray(x, object) for x in ins])
    o = np.empty(arrs[0].shape, object)
    pre = (lambda x: int(x) if isinstance(x, (np.integer,)) else x)
    for ix in np.ndindex(*o.shape):
      v = f(*[fit(pre(a[ix]), dt) if dt != OBJ else pre(a[ix]) for a in arrs])
      o[ix] = v if name in CMP else fit(v, dt)
    if name in CMP:
      dt = np.dtype(bool)
    r = settle(o, dt)
    if out is not None:
      t = out[0]
      if isinstance(t, SymArr):
        np.asarray(t.view(np.ndarray))[...] = np.asarray(r, object)
        return t
      if has_sym(r):
        raise Unsupported("in-place update of a concrete array")
      t[...] = r
      return t
    return r

  def __array_function__(self, func, types, args, kw):
    def strip(x):
      if isinstance(x, SymArr):
        return x.view(np.ndarray)
      if isinstance(x, (list, tuple)):
        return type(x)(strip(t) for t in x)
      if isinstance(x, np.ndarray) and x.dtype != object:
        return x
      return x
    ok = {"stack", "concatenate", "tile", "flip", "column_stack", "transpose",
          "reshape", "take", "moveaxis", "expand_dims", "squeeze", "vstack",
          "hstack", "empty_like", "zeros_like", "ravel", "roll", "shape",
          "ndim", "broadcast_to", "repeat", "swapaxes", "copy", "fliplr",
          "flipud", "split", "atleast_2d", "ones_like", "full_like",
          "column_stack"}
    if func.__name__ not in ok:
      raise Unsupported(f"numpy {func.__name__} on symbolic values")
    dts = []

    def walk(x):
      if isinstance(x, (list, tuple)):
        for t in x:
          walk(t)
      elif isinstance(x, (SymArr, np.ndarray)):
        dts.append(ldt(x))
    walk(list(args[:1]) if func.__name__ in ("take", "tile", "repeat") else
         args)
    dt = OBJ if any(d == OBJ for d in dts) else np.result_type(*dts)
    r = func(*strip(args), **{k: strip(v) for k, v in kw.items()})
    if isinstance(r, np.ndarray) and r.dtype == object:
      r = r.view(SymArr)
      r.dt = dt
    return r

  def __getitem__(self, ix):
    def n(x):
      if isinstance(x, SymArr):
        return np.array(np.asarray(x, object).tolist(), dtype=np.intp)
      if type(x).__module__.startswith("jax"):
        return np.asarray(x)
      return x
    ix = tuple(n(x) for x in ix) if isinstance(ix, tuple) else n(ix)
    r = np.ndarray.__getitem__(self, ix)
    if isinstance(r, SymArr):
      r.dt = self.dt
    return r

  def __setitem__(self, ix, v):
    dt = self.dt
    if isinstance(v, np.ndarray) or isinstance(v, (list, tuple)):
      v = np.asarray(wrap_arr(np.asarray(v, object), dt), object)
    else:
      v = fit(v, dt)
    np.ndarray.__setitem__(self, ix, v)

  def astype(self, dt, *a, **k):
    dt = np.dtype(dt)
    return settle(wrap_arr(self, dt), dt)

  def copy(self, order="C"):
    r = np.ndarray.copy(self, order)
    r.dt = self.dt
    return r

  def sum(self, axis=None, **kw):
    return np.add.reduce(self, axis=axis if axis is not None else tuple(
        range(self.ndim)))

  @property
  def at(self):
    return _At(self)

  def __bool__(self):
    if self.size == 1:
      return bool(self.ravel().view(np.ndarray)[0])
    return np.ndarray.__bool__(self)


class _At:
  """jax-style functional update."""

  def __init__(self, a, ix=None):
    self.a, self.ix = a, ix

  def __getitem__(self, ix):
    return _At(self.a, ix)

  def set(self, v):
    r = self.a.copy()
    r[self.ix] = v
    return r


class NP:
  """Stands for numpy (or jax.numpy) in a module under contract."""

  def __init__(self, real, jax_like=False):
    self._real = real
    self._jax = jax_like

  def array(self, x, dtype=None, copy=True, **kw):
    if isinstance(x, SymArr):
      dt = np.dtype(dtype) if dtype is not None else x.dt
      return settle(wrap_arr(x, dt), dt)
    if has_sym(x):
      o = np.array(np.asarray(x, object).tolist(), object)
      dt = np.dtype(dtype) if dtype is not None else None
      if dt is None:
        ds = {ldt(t) for t in x} if isinstance(x, (list, tuple)) else set()
        ds.discard(None)
        dt = ds.pop() if len(ds) == 1 else np.dtype(np.int64)
      if dt != OBJ and not self._jax and not all(
          isinstance(t, SymArr) for t in x):
        # numpy refuses Python ints outside the dtype
        info = np.iinfo(dt)
        for t in o.ravel():
          if isinstance(t, S):
            lo, hi = t.e.c.rng(t.v)
            if lo is None or hi is None or lo < info.min or hi > info.max:
              if not (t >= info.min) or not (t <= info.max):
                raise OverflowError("Python integer out of bounds")
      return wrap_arr(o, dt)
    if dtype is object:
      o = np.array(x, object).view(SymArr)
      o.dt = OBJ
      return o
    return self._real.array(x, dtype=dtype, **kw)

  def asarray(self, x, dtype=None, **kw):
    if isinstance(x, SymArr) and (dtype is None or np.dtype(dtype) == x.dt):
      return x
    return self.array(x, dtype=dtype, **kw)

  def _mk(self, shape, dtype, v):
    o = np.empty(shape, object)
    o[...] = v
    r = o.view(SymArr)
    r.dt = np.dtype(dtype if dtype is not None else float)
    return r

  def zeros(self, shape, dtype=None, **kw):
    if dtype is None or np.dtype(dtype).kind not in "iuO":
      return self._real.zeros(shape, dtype=dtype, **kw)
    return self._mk(shape, dtype, 0)

  def ones(self, shape, dtype=None, **kw):
    if dtype is None or np.dtype(dtype).kind not in "iuO":
      return self._real.ones(shape, dtype=dtype, **kw)
    return self._mk(shape, dtype, 1)

  def empty(self, shape, dtype=None, **kw):
    if dtype is None or np.dtype(dtype).kind not in "iuO":
      return self._real.empty(shape, dtype=dtype, **kw)
    return self._mk(shape, dtype, 0)

  def where(self, c, a, b):
    if not any(isinstance(x, (SymArr, S)) for x in (c, a, b)):
      return self._real.where(c, a, b)
    ds = [d for d in (ldt(a), ldt(b)) if d is not None]
    dt = OBJ if OBJ in ds else np.result_type(*ds) if ds else np.dtype(
        np.int64)
    cs, xs, ys = np.broadcast_arrays(*[np.asarray(
        x.view(np.ndarray) if isinstance(x, SymArr) else x, object)
                                      for x in (c, a, b)])
    o = np.empty(cs.shape, object)
    for ix in np.ndindex(*o.shape):
      t = cs[ix]
      if isinstance(t, B):
        e = t.e
        v = mk(e, e.c.ite(t.v, pysym.val(xs[ix]), pysym.val(ys[ix])))
      else:
        v = xs[ix] if t else ys[ix]
      o[ix] = fit(int(v) if isinstance(v, np.integer) else v, dt)
    return settle(o, dt)

  def __getattr__(self, n):
    f = getattr(self._real, n)
    if not callable(f) or isinstance(f, type) or n == "newaxis":
      return f

    def call(*a, **k):
      def sym(x):
        return isinstance(x, SymArr) or (isinstance(x, (list, tuple)) and
                                         any(sym(t) for t in x))
      if any(sym(x) for x in list(a) + list(k.values())):
        def norm(x):
          if type(x).__module__.startswith("jax"):
            return np.asarray(x)
          if isinstance(x, (list, tuple)):
            return type(x)(norm(t) for t in x)
          return x
        g = getattr(np, n, None)
        if g is None:
          raise Unsupported(f"jnp.{n} on symbolic values")
        return g(*norm(a), **{i: norm(t) for i, t in k.items()})
      return f(*a, **k)
    return call


def arr(e, name, shape, bound, dtype=np.uint64):
  """Symbolic array; bound(ix) -> (lo, hi)."""
  o = np.empty(shape, object)
  for ix in np.ndindex(*shape):
    lo, hi = bound(ix)
    o[ix] = e.var(name + "".join(f"_{i}" for i in ix), lo, hi)
  r = o.view(SymArr)
  r.dt = np.dtype(dtype)
  return r


def proxies(jnp=None):
  d = dict(np=NP(np))
  if jnp is not None:
    d["jnp"] = NP(jnp, True)
  return d
