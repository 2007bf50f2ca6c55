"""Exact interpretation of host numpy code over a cyclotomic field.

Floating-point numbers are read as the real numbers they stand for: a complex
constant within 1e-9 of a rational multiple of a root of unity of the given
order is that number.  Values are linear forms over Q(zeta)[s, 1/s] in real
atoms, s the symbolic scale; rounding introduces a new (integer) atom.
"""

import cmath
import math
from fractions import Fraction

import numpy as np

from .poly import Unsupported


class Field:
  """Q(zeta_M), M a power of two; numbers are tuples of M/2 fractions."""

  def __init__(self, m):
    self.m, self.n = m, m // 2
    self.atoms = {}     # name -> (lo, hi) interval of this path
    self.rounds = {}    # canonical form -> atom name
    self.defs = {}      # atom name -> Lin
    self.prefix, self.taken = [], []
    self.zero = (Fraction(0),) * self.n

  def root(self, k, r=Fraction(1)):
    k %= self.m
    v = [Fraction(0)] * self.n
    v[k % self.n] = r if k < self.n else -r
    return tuple(v)

  def const(self, z):
    if isinstance(z, (int, np.integer, Fraction)) and not isinstance(z, bool):
      return self.root(0, Fraction(int(z)) if not isinstance(z, Fraction)
                       else z)
    z = complex(z)
    if not (math.isfinite(z.real) and math.isfinite(z.imag)):
      raise Unsupported("not a finite number")
    rho = abs(z)
    if rho == 0:
      return self.zero
    k = round(cmath.phase(z) * self.m / (2 * math.pi))
    r = Fraction(rho).limit_denominator(1 << 24)
    w = cmath.rect(float(r), 2 * math.pi * k / self.m)
    if abs(w - z) > 1e-12 * max(1.0, rho):
      raise Unsupported(f"{z} is no rational multiple of a root of unity")
    return self.root(k, r)

  def mulc(self, a, b):
    v = [Fraction(0)] * self.n
    for i, x in enumerate(a):
      if x:
        for j, y in enumerate(b):
          if y:
            k = i + j
            if k < self.n:
              v[k] += x * y
            else:
              v[k - self.n] -= x * y
    return tuple(v)

  def conj(self, a):
    v = [Fraction(0)] * self.n
    v[0] = a[0]
    for i in range(1, self.n):
      v[self.n - i] -= a[i]
    return tuple(v)

  def atom(self, name, lo=None, hi=None, sexp=0):
    self.atoms.setdefault(name, (lo, hi))
    return Lin(self, {(name, sexp): self.root(0)})

  def lift(self, x):
    if isinstance(x, Lin):
      return x
    if isinstance(x, Scale):
      raise Unsupported("the scale by itself")
    c = self.const(x)
    return Lin(self, {("1", 0): c} if any(c) else {})

  def ask(self, name, t):
    """Is atom > t (t a fraction)?"""
    lo, hi = self.atoms[name]
    f = math.floor(t)
    if lo is not None and lo > f:
      return True
    if hi is not None and hi <= f:
      return False
    i = len(self.taken)
    d = self.prefix[i] if i < len(self.prefix) else True
    self.taken.append(d)
    self.atoms[name] = (f + 1, hi) if d else (lo, f)
    return d


class ModField(Field):
  """Image of Q(zeta_M) in a prime field with p = 1 mod M.

  Numbers are pairs (image, image of the complex conjugate); real atoms are
  sent to field elements drawn at random.  The code under contract only ever
  combines values linearly (ModLin refuses anything else), so two linear forms
  that differ agree at the drawn point with probability 1/p.
  """

  def __init__(self, m, p, rng):
    Field.__init__(self, 4)
    self.m, self.n, self.p, self.rng = m, m // 2, p, rng
    while True:
      w = pow(rng.randrange(2, p), (p - 1) // m, p)
      if pow(w, m // 2, p) == p - 1:
        break
    self.pw = [1] * m
    for i in range(1, m):
      self.pw[i] = self.pw[i - 1] * w % p

  def root(self, k, r=Fraction(1)):
    v = r.numerator * pow(r.denominator, -1, self.p) % self.p
    return (self.pw[k % self.m] * v % self.p, self.pw[-k % self.m] * v % self.p)

  def const(self, z):
    if isinstance(z, complex) and z == 0:
      return (0, 0)
    c = Field.const(self, z)
    return (0, 0) if not any(c) else c

  def atom(self, name, lo=None, hi=None, sexp=0):
    v = self.rng.randrange(self.p)
    return ModLin(self, (v, v), False)

  def lift(self, x):
    if isinstance(x, ModLin):
      return x
    if isinstance(x, (Lin, Scale)):
      raise Unsupported("a value of another field")
    return ModLin(self, self.const(x), True)


class Scale:
  """The encoding scale, any positive real."""
  __array_ufunc__ = None  # arrays defer to the reflected operators

  def __init__(self, f, e=1):
    self.f, self.e = f, e

  def _arr(self, x):
    return isinstance(x, np.ndarray)

  def __mul__(self, o):
    if self._arr(o):
      return carr(self.f, [self * t for t in o.ravel()]).reshape(o.shape)
    if isinstance(o, Scale):
      return Scale(self.f, self.e + o.e)
    return self.f.lift(o).shift(self.e)
  __rmul__ = __mul__

  def __rtruediv__(self, o):
    return Scale(self.f, -self.e) * o

  def __truediv__(self, o):
    return self * (1 / o)

  def __eq__(self, o):
    raise Unsupported("comparison of the scale")
  __lt__ = __gt__ = __le__ = __ge__ = __eq__

  def __bool__(self):
    return True

  def __float__(self):
    raise Unsupported("float of the scale")
  __int__ = __index__ = __float__


class Lin:
  """sum of (field number) * (real atom) * s^e."""
  __slots__ = ("f", "t")

  def __init__(self, f, t):
    self.f, self.t = f, {k: v for k, v in t.items() if any(v)}

  def _lin(self, o, sg):
    if isinstance(o, np.ndarray):
      return NotImplemented
    o = self.f.lift(o)
    t = dict(self.t)
    for k, v in o.t.items():
      w = t.get(k, self.f.zero)
      t[k] = tuple(x + sg * y for x, y in zip(w, v))
    return Lin(self.f, t)

  def __add__(self, o): return self._lin(o, 1)
  __radd__ = __add__
  def __sub__(self, o): return self._lin(o, -1)

  def __rsub__(self, o): return (-self) + o
  def __pos__(self): return self

  def __neg__(self):
    return Lin(self.f, {k: tuple(-x for x in v) for k, v in self.t.items()})

  def shift(self, e):
    return Lin(self.f, {(k[0], k[1] + e): v for k, v in self.t.items()})

  def __mul__(self, o):
    if isinstance(o, np.ndarray):
      return NotImplemented
    if isinstance(o, Scale):
      return self.shift(o.e)
    if isinstance(o, Lin):
      if all(k[0] == "1" for k in self.t):
        self, o = o, self
      if any(k != ("1", 0) for k in o.t):
        raise Unsupported("product of unknowns")
      c = o.t.get(("1", 0), self.f.zero)
    else:
      c = self.f.const(o)
    return Lin(self.f, {k: self.f.mulc(v, c) for k, v in self.t.items()})
  __rmul__ = __mul__

  def __truediv__(self, o):
    if isinstance(o, Scale):
      return self.shift(-o.e)
    if isinstance(o, (int, np.integer, Fraction)):
      return self * Fraction(1, int(o))
    if isinstance(o, (float, complex, np.floating, np.complexfloating)):
      return self * (1 / o)
    raise Unsupported("division by an unknown")

  def conjugate(self):
    return Lin(self.f, {k: self.f.conj(v) for k, v in self.t.items()})
  conj = conjugate

  @property
  def real(self):
    return (self + self.conjugate()) * Fraction(1, 2)

  @property
  def imag(self):
    d = (self - self.conjugate()) * Fraction(1, 2)
    return d * Lin(self.f, {("1", 0): self.f.root(-(self.f.m // 4))})

  def rint(self):
    if any(v != self.f.conj(v) for v in self.t.values()):
      raise Unsupported("rounding of a complex number")
    k = tuple(sorted(self.t.items()))
    if k not in self.f.rounds:
      n = f"round{len(self.f.rounds)}"
      self.f.rounds[k] = n
      self.f.defs[n] = self
    return self.f.atom(self.f.rounds[k])

  def __round__(self, n=None):
    return self.rint()

  def single(self):
    """(atom, offset) when this is atom + integer."""
    t = dict(self.t)
    off = t.pop(("1", 0), self.f.zero)
    if len(t) != 1 or any(off[1:]) or off[0].denominator != 1:
      raise Unsupported("not an integer atom")
    (k, v), = t.items()
    if k[1] != 0 or v != self.f.root(0):
      raise Unsupported("not an integer atom")
    return k[0], int(off[0])

  def __mod__(self, q):
    a, off = self.single()
    if a in self.f.defs or a in self.f.atoms:
      return Res(a, off, int(q))
    raise Unsupported("remainder of a real number")

  def _gt(self, o, strict):
    if isinstance(o, (Lin, Scale)):
      raise Unsupported("comparison of unknowns")
    a, off = self.single()
    t = Fraction(o) - off
    if not strict and t.denominator == 1:
      t -= 1
    return self.f.ask(a, t)

  def __gt__(self, o): return self._gt(o, True)
  def __ge__(self, o): return self._gt(o, False)
  def __lt__(self, o): return not self._gt(o, False)
  def __le__(self, o): return not self._gt(o, True)

  def __eq__(self, o):
    if isinstance(o, Lin):
      return self.t == o.t
    raise Unsupported("equality of an unknown")

  def __hash__(self):
    return hash(tuple(sorted(self.t.items())))

  def __bool__(self):
    raise Unsupported("truth of an unknown")

  def __float__(self):
    raise Unsupported("float of an unknown")
  __int__ = __index__ = __complex__ = __float__


class ModLin(Lin):
  """A linear form of a ModField, at its point."""
  __slots__ = ("v", "known")

  def __init__(self, f, v, known):
    self.f, self.v, self.known = f, v, known
    self.t = {}

  def _lin(self, o, sg):
    if isinstance(o, np.ndarray):
      return NotImplemented
    o = self.f.lift(o)
    p = self.f.p
    return ModLin(self.f, tuple((x + sg * y) % p for x, y in
                                zip(self.v, o.v)), self.known and o.known)

  def __neg__(self):
    return ModLin(self.f, tuple(-x % self.f.p for x in self.v), self.known)

  def shift(self, e):
    raise Unsupported("scale")

  def __mul__(self, o):
    if isinstance(o, np.ndarray):
      return NotImplemented
    o = self.f.lift(o)
    if not (self.known or o.known):
      raise Unsupported("product of unknowns")
    p = self.f.p
    return ModLin(self.f, tuple(x * y % p for x, y in zip(self.v, o.v)),
                  self.known and o.known)
  __rmul__ = __mul__

  def conjugate(self):
    return ModLin(self.f, self.v[::-1], self.known)
  conj = conjugate

  @property
  def imag(self):
    d = (self - self.conjugate()) * Fraction(1, 2)
    return d * ModLin(self.f, self.f.root(-(self.f.m // 4)), True)

  def rint(self):
    raise Unsupported("rounding")

  def single(self):
    raise Unsupported("not an integer atom")

  def __eq__(self, o):
    if isinstance(o, ModLin):
      return self.v == o.v
    raise Unsupported("equality of an unknown")
  __hash__ = None


class Res:
  """(atom + off) mod q, the canonical residue."""

  def __init__(self, atom, off, q):
    self.atom, self.off, self.q = atom, off % q, q

  def __eq__(self, o):
    return isinstance(o, Res) and (self.atom, self.off, self.q) == (
        o.atom, o.off, o.q)

  def __hash__(self):
    return hash((self.atom, self.off, self.q))

  def __mod__(self, q):
    if int(q) == self.q:
      return self
    raise Unsupported("residue of a residue")

  def __add__(self, o):
    if isinstance(o, (int, np.integer)) and int(o) % self.q == 0:
      return _Shifted(self)
    raise Unsupported("arithmetic on a residue")
  __radd__ = __add__

  def __repr__(self):
    return f"({self.atom}+{self.off})%{self.q}"


class _Shifted:
  """A residue plus a multiple of its modulus, before reduction."""

  def __init__(self, r):
    self.r = r

  def __mod__(self, q):
    return self.r % q


def carr(f, xs):
  o = np.empty(np.shape(np.asarray(xs, object)), object)
  o[...] = np.asarray(xs, object)
  r = o.view(getattr(f, "array_type", CArr))
  r.f = f
  return r


def dim(x):
  return x if isinstance(x, np.ndarray) else np.asarray(x)


BIN = {"add": lambda a, b: a + b, "subtract": lambda a, b: a - b,
       "multiply": lambda a, b: a * b, "remainder": lambda a, b: a % b,
       "divide": lambda a, b: a / b, "true_divide": lambda a, b: a / b,
       "greater": lambda a, b: a > b, "less": lambda a, b: a < b,
       "greater_equal": lambda a, b: a >= b, "less_equal": lambda a, b: a <= b}
UN = {"negative": lambda a: -a, "positive": lambda a: a,
      "conjugate": lambda a: a.conjugate(), "rint": lambda a: a.rint()}


class CArr(np.ndarray):
  f = None

  def __array_finalize__(self, o):
    if o is not None:
      self.f = getattr(o, "f", None)

  def __array_ufunc__(self, uf, method, *ins, out=None, **kw):
    fn = BIN.get(uf.__name__) or UN.get(uf.__name__)
    if method != "__call__" or fn is None:
      raise Unsupported(f"numpy {uf.__name__}.{method}")
    f = next(x.f for x in ins if isinstance(x, CArr))
    arrs = np.broadcast_arrays(*[
        x.view(np.ndarray) if isinstance(x, CArr) else np.asarray(x)
        for x in ins])
    o = np.empty(arrs[0].shape, object)
    for ix in np.ndindex(*o.shape):
      a = [x[ix] for x in arrs]
      if not isinstance(a[0], (Lin, Res, _Shifted)) and len(a) == 2 and (
          uf.__name__ in ("subtract", "add", "multiply")):
        a[0] = f.lift(a[0])
      o[ix] = fn(*a)
    if uf.__name__ in ("greater", "less", "greater_equal", "less_equal"):
      return o.astype(bool)
    if out is not None:
      if not isinstance(out[0], CArr):
        raise Unsupported("in-place update of a concrete array")
      np.asarray(out[0].view(np.ndarray))[...] = o
      return out[0]
    return carr(f, o)

  def __array_function__(self, func, types, args, kw):
    ok = {"concatenate", "stack", "pad", "reshape", "ravel", "transpose",
          "hstack", "vstack", "take", "copy", "shape", "ndim", "squeeze",
          "real", "imag", "round", "around", "swapaxes", "column_stack",
          "roll", "flip", "where", "split", "expand_dims", "size"}
    n = func.__name__
    if n not in ok:
      raise Unsupported(f"numpy {n} on symbolic values")
    if n in ("real", "imag"):
      return getattr(args[0], n)
    if n in ("round", "around"):
      return args[0].round(*args[1:], **kw)

    def strip(x):
      if isinstance(x, CArr):
        return x.view(np.ndarray)
      if isinstance(x, (list, tuple)):
        return type(x)(strip(t) for t in x)
      return x
    r = func(*strip(args), **{k: strip(v) for k, v in kw.items()})
    if isinstance(r, np.ndarray) and r.dtype == object:
      f = self.f
      o = np.empty(r.shape, object)
      for ix in np.ndindex(*o.shape):
        o[ix] = r[ix] if isinstance(r[ix], (Lin, Res)) else f.lift(r[ix])
      return carr(f, o)
    return r

  @property
  def real(self):
    return carr(self.f, [x.real for x in self.view(np.ndarray).ravel()]
                ).reshape(self.shape)

  @property
  def imag(self):
    return carr(self.f, [x.imag for x in self.view(np.ndarray).ravel()]
                ).reshape(self.shape)

  def round(self, decimals=0, out=None):
    if decimals or out is not None:
      raise Unsupported("rounding to decimals")
    return carr(self.f, [x.rint() for x in self.view(np.ndarray).ravel()]
                ).reshape(self.shape)

  def conj(self):
    return np.conjugate(self)
  conjugate = conj

  def astype(self, dt, *a, **k):
    dt = np.dtype(dt)
    for x in self.view(np.ndarray).ravel():
      if isinstance(x, Res):
        if dt.kind not in "iu" or np.iinfo(dt).max < x.q - 1:
          raise Unsupported("residue converted to a narrower type")
      elif dt.kind not in "cO" and not (
          dt == np.float64 and all(v == x.f.conj(v) for v in x.t.values())):
        raise Unsupported(f"unknown number as {dt}")
    return self.copy()

  def __setitem__(self, ix, v):
    if isinstance(v, CArr):
      v = v.view(np.ndarray)
    elif isinstance(v, np.ndarray):
      v = carr(self.f, [self.f.lift(t) for t in v.ravel()]).reshape(
          v.shape).view(np.ndarray)
    elif not isinstance(v, (Lin, Res)):
      v = self.f.lift(v)
    np.ndarray.__setitem__(self, ix, v)


class NP:
  """numpy (or jax.numpy) for a module under contract."""

  def __init__(self, f, real):
    self._f, self._real = f, real

  def _sym(self, x):
    return isinstance(x, (CArr, Lin, Res)) or (
        isinstance(x, (list, tuple)) and any(self._sym(t) for t in x))

  def array(self, x, dtype=None, **kw):
    if not self._sym(x):
      return self._real.array(x, dtype=dtype, **kw)
    if isinstance(x, CArr):
      r = x.copy()
    else:
      o = np.array([[t for t in r] if isinstance(r, (list, tuple, np.ndarray))
                    else r for r in x], object)
      for ix in np.ndindex(*o.shape):
        if not isinstance(o[ix], (Lin, Res)):
          o[ix] = self._f.lift(o[ix])
      r = carr(self._f, o)
    return r if dtype is None else r.astype(dtype)

  def asarray(self, x, dtype=None, **kw):
    if isinstance(x, CArr) and dtype is None:
      return x
    return self.array(x, dtype=dtype, **kw)

  def _mk(self, kind, shape, dtype, kw):
    if dtype is not None and np.dtype(dtype).kind in "iub":
      return getattr(self._real, kind)(shape, dtype=dtype, **kw)
    o = np.empty(shape, object)
    v = self._f.lift(1 if kind == "ones" else 0)
    for ix in np.ndindex(*o.shape):
      o[ix] = v
    return carr(self._f, o)

  def zeros(self, shape, dtype=None, **kw):
    return self._mk("zeros", shape, dtype, kw)

  def empty(self, shape, dtype=None, **kw):
    return self._mk("zeros", shape, dtype, kw)

  def __getattr__(self, n):
    g = getattr(self._real, n)
    if not callable(g) or isinstance(g, type):
      return g

    def call(*a, **k):
      if any(self._sym(x) for x in list(a) + list(k.values())):
        h = getattr(np, n, None)
        if h is None:
          raise Unsupported(f"jnp.{n} on symbolic values")
        return h(*a, **k)
      return g(*a, **k)
    return call


def explore(f, fn, limit=600):
  """Runs fn on every outcome of its comparisons; yields (result, atoms)."""
  start = dict(f.atoms)
  out, work = [], [[]]
  while work:
    f.prefix, f.taken = work.pop(), []
    f.atoms = dict(start)
    r = fn()
    out.append((r, dict(f.atoms)))
    if len(out) > limit:
      raise Unsupported("too many paths")
    for i in range(len(f.prefix), len(f.taken)):
      work.append(f.taken[:i] + [not f.taken[i]])
  return out
