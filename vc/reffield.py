"""Symbolic runs of the reference field and curve code (jaxite_ec/algorithm).

The code's arbitrary-precision integers come from gmpy2.  While the code runs,
the name gmpy2 (and int) in its modules stands for a version whose integers
may be symbolic:

 * F: the image of an integer in the field of rational functions over Z/q.
   Reduction modulo q is the identity there, powmod(x, q - 2, q) is 1/x (x not
   zero modulo q is an obligation), and range checks take the canonical side
   (that reduced values are canonical is C21).  Equality tests fork.
 * pysym.S: an exact integer (C21).
"""

import contextlib

import gmpy2 as real_gmpy2

from . import paths, pysym
from .field import Ring, power_product
from .limbs import Q
from .poly import P, Unsupported, pconst

ALG = "jaxite.jaxite_ec.algorithm."


class Fork:
  """Decisions of one path over field equalities."""

  def __init__(self, R, prefix=(), nonzero=()):
    self.R, self.prefix = R, list(prefix)
    self.taken, self.pending = [], []
    self.eqs, self.neqs = [], list(nonzero)
    self.divs = []

  def vanishes(self, p):
    R = self.R
    if not p.t:
      return True
    if set(p.t) == {()}:
      return False
    for t, polys in ((True, self.eqs), (False, self.neqs)):
      for o in polys:
        m = next(iter(o.t))
        if m in p.t and R.eq(p, R.scale(
            o, p.t[m] * pow(o.t[m], -1, R.q) % R.q)):
          return t
    i = len(self.taken)
    if i < len(self.prefix):
      r = self.prefix[i]
    else:
      r = False
      self.pending.append(self.taken + [True])
    self.taken.append(r)
    (self.eqs if r else self.neqs).append(p)
    return r


class F:
  """num/den over Z/q[variables]."""
  __slots__ = ("k", "n", "d")

  def __init__(self, k, n, d=None):
    self.k, self.n, self.d = k, n, d if d is not None else pconst(1)

  def _o(self, o):
    if isinstance(o, F):
      return o
    if isinstance(o, (int, type(real_gmpy2.mpz(0)))):
      return F(self.k, self.k.R.const(int(o)))
    return None

  def _lin(self, o, s):
    o = self._o(o)
    if o is None:
      return NotImplemented
    R = self.k.R
    if R.eq(self.d, o.d):
      return F(self.k, R.add(self.n, R.scale(o.n, s)), self.d)
    return F(self.k, R.add(R.mul(self.n, o.d), R.scale(R.mul(o.n, self.d), s)),
             R.mul(self.d, o.d))

  def __add__(self, o): return self._lin(o, 1)
  __radd__ = __add__
  def __sub__(self, o): return self._lin(o, -1)

  def __rsub__(self, o):
    o = self._o(o)
    return NotImplemented if o is None else o - self

  def __mul__(self, o):
    o = self._o(o)
    if o is None:
      return NotImplemented
    R = self.k.R
    return F(self.k, R.mul(self.n, o.n), R.mul(self.d, o.d))
  __rmul__ = __mul__

  def __neg__(self): return F(self.k, self.k.R.scale(self.n, -1), self.d)

  def __mod__(self, o):
    if int(o) != self.k.R.q:
      raise Unsupported("reduction modulo another number than the prime")
    return self

  def __pow__(self, n, m=None):
    if m is not None:
      self % m
    return power(self, int(n))

  def inverse(self):
    self.k.divs.append(self.n)
    return F(self.k, self.d, self.n)

  def __eq__(self, o):
    o = self._o(o)
    if o is None:
      return NotImplemented
    R = self.k.R
    return self.k.vanishes(R.sub(R.mul(self.n, o.d), R.mul(o.n, self.d)))

  def __ne__(self, o):
    r = self.__eq__(o)
    return r if r is NotImplemented else not r

  __hash__ = None

  def __bool__(self):
    return self != 0

  # canonical representatives: 0 <= x < q
  def __lt__(self, o):
    o = int(o)
    if o <= 0:
      return False
    if o >= self.k.R.q:
      return True
    raise Unsupported("comparison of field values")

  def __ge__(self, o): return not self < o

  def __le__(self, o):
    o = int(o)
    if o < 0:
      return False
    if o >= self.k.R.q - 1:
      return True
    raise Unsupported("comparison of field values")

  def __gt__(self, o): return not self <= o

  def __int__(self):
    raise Unsupported("int() of a symbolic field value")
  __index__ = __int__

  def __copy__(self): return self

  def __deepcopy__(self, memo): return self

  def __repr__(self): return "F(..)"


def power(x, n):
  q = x.k.R.q
  if n > q // 2 or n < 0:  # x^(q-1) = 1 for x not zero
    return power(x.inverse(), (q - 1 - n) if n > 0 else -n)
  if n > 64:
    raise Unsupported("large power of a symbolic field value")
  r = F(x.k, pconst(1))
  for _ in range(n):
    r = r * x
  return r


SYM = (F, pysym.S)
MPZ = type(real_gmpy2.mpz(0))


def conv_mpz(x=0, *a):
  if isinstance(x, SYM):
    return x
  return real_gmpy2.mpz(x, *a)


def conv_int(x=0, *a):
  if isinstance(x, F):
    return x
  if isinstance(x, pysym.S):
    return pysym.shim_int(x)
  v = getattr(x, "value", None)
  for _ in range(3):
    if isinstance(v, SYM):
      return v
    v = getattr(v, "value", None)
  return int(x, *a)


class Gmpy2:
  """Stands for the module gmpy2."""

  def __init__(self, powmod=None):
    self.mpz = pysym._shadow("mpz", MPZ, conv_mpz, *SYM)
    self._powmod = powmod

  def powmod(self, x, n, m):
    if isinstance(x, F):
      return x.__pow__(n, m)
    if isinstance(x, pysym.S) or isinstance(m, pysym.S):
      return self._powmod(x, n, m)
    return real_gmpy2.powmod(x, n, m)

  def __getattr__(self, n):
    return getattr(real_gmpy2, n)


def mods(repo):
  return [repo(ALG + m) for m in ("big_integer", "finite_field",
                                  "elliptic_curve")]


@contextlib.contextmanager
def shims(modules, powmod=None):
  g = Gmpy2(powmod)
  sint = pysym._shadow("int", int, conv_int, *SYM)
  with contextlib.ExitStack() as st:
    for m in modules:
      st.enter_context(paths.patched(m, "int", sint))
      if hasattr(m, "gmpy2"):
        st.enter_context(paths.patched(m, "gmpy2", g))
    yield


def run_field(fn, R, modules, nonzero=(), limit=64, catch=(Exception,)):
  """All paths of fn(fork). -> [(fork, result, raised)]"""
  todo, out = [[]], []
  while todo:
    k = Fork(R, todo.pop(), nonzero)
    raised = result = None
    try:
      with shims(modules):
        result = fn(k)
    except Unsupported:
      raise
    except catch as ex:
      raised = ex
    todo += k.pending
    out.append((k, result, raised))
    if len(out) + len(todo) > limit:
      raise Unsupported("too many host paths")
  return out
