"""Path-complete symbolic execution of pure-Python integer code.

The real functions are called with `S` objects in place of ints.  Arithmetic
builds exact integer polynomials (poly.py); asking a comparison for its truth
forks: the function is run again once per outcome, each run with its own
context whose facts are the path condition.  Nothing of the function's text is
rewritten; `int`, `bool`, `bytes` and friends are shadowed in the globals of the
named modules only so that conversions of an `S` keep its value.
"""

import contextlib

import numpy as np

from . import paths
from .poly import Ctx, P, V, Unsupported, prove, pscale


class S:
  """A Python int."""
  __slots__ = ("e", "v")
  __array_priority__ = 1000

  def __init__(self, e, v):
    self.e = e
    self.v = v

  def _o(self, o):
    if isinstance(o, S):
      return o.v
    if isinstance(o, B):
      return o.v
    if isinstance(o, (bool, np.bool_)):
      return int(o)
    if isinstance(o, (int, np.integer)) or type(o).__name__ == "mpz":
      return int(o)
    return None

  def _bin(self, o, f, swap=False):
    b = self._o(o)
    if b is None:
      return NotImplemented
    return mk(self.e, f(b, self.v) if swap else f(self.v, b))

  def __add__(self, o): return self._bin(o, self.e.c.add)
  def __radd__(self, o): return self._bin(o, self.e.c.add, True)
  def __sub__(self, o): return self._bin(o, self.e.c.sub)
  def __rsub__(self, o): return self._bin(o, self.e.c.sub, True)
  def __mul__(self, o): return self._bin(o, self.e.c.mul)
  def __rmul__(self, o): return self._bin(o, self.e.c.mul, True)
  def __neg__(self): return mk(self.e, self.e.c.neg(self.v))
  def __pos__(self): return self
  def __invert__(self): return mk(self.e, self.e.c.sub(-1, self.v))

  def __abs__(self):
    return self if self >= 0 else -self

  def __floordiv__(self, o): return self._bin(o, self.e.fdiv)
  def __rfloordiv__(self, o): return self._bin(o, self.e.fdiv, True)
  def __mod__(self, o): return self._bin(o, self.e.mod)
  def __rmod__(self, o): return self._bin(o, self.e.mod, True)
  def __divmod__(self, o): return self // o, self % o

  def __pow__(self, n, m=None):
    if n == -1 and m is not None:
      return self.e.inverse(self, m)
    if not isinstance(n, int) or n < 0 or n > 64:
      raise Unsupported("symbolic power")
    r = 1
    for _ in range(n):
      r = self * r
      if m is not None:
        r = r % m
    return r

  def __rpow__(self, o):
    raise Unsupported("symbolic exponent")

  def __lshift__(self, o):
    k = self._o(o)
    if not isinstance(k, int):
      raise Unsupported("symbolic shift amount")
    return self * (1 << k)

  def __rlshift__(self, o):
    raise Unsupported("symbolic shift amount")

  def __rshift__(self, o):
    k = self._o(o)
    if not isinstance(k, int):
      raise Unsupported("symbolic shift amount")
    return self // (1 << k)

  def __rrshift__(self, o):
    raise Unsupported("symbolic shift amount")

  def __and__(self, o): return self._bit(o, "and")
  __rand__ = __and__
  def __or__(self, o): return self._bit(o, "or")
  __ror__ = __or__
  def __xor__(self, o): return self._bit(o, "xor")
  __rxor__ = __xor__

  def _bit(self, o, op):
    c = self.e.c
    a, b = self.v, self._o(o)
    if b is None:
      return NotImplemented
    if isinstance(b, V):
      r = self.e.disjoint(a, b)
      if r is None:
        raise Unsupported(f"bitwise {op} of two symbolic ints")
      return mk(self.e, 0 if op == "and" else r)
    lo, hi = c.rng(a)
    if b < 0:
      raise Unsupported("bitwise operation with a negative mask")
    if op == "and":
      n = max(b.bit_length(), 1)
      r = c.and_const(c.mod(a, 1 << n), b, n)
      return mk(self.e, r)
    if lo is None or lo < 0 or hi is None:
      raise Unsupported("bitwise operation on a possibly negative int")
    if b == 0:
      return self
    n = max(b.bit_length(), hi.bit_length(), 1)
    r = c.and_const(c.mod(a, 1 << n), b, n)
    s = c.add(a, b)
    return mk(self.e, c.sub(s, r) if op == "or" else c.sub(s, c.mul(2, r)))

  def _cmp(self, o, f):
    b = self._o(o)
    if b is None:
      return NotImplemented
    return mkb(self.e, f(self.v, b))

  def __lt__(self, o): return self._cmp(o, lambda a, b: self.e.c.lt(a, b))
  def __le__(self, o): return self._cmp(o, lambda a, b: self.e.c.le(a, b))
  def __gt__(self, o): return self._cmp(o, lambda a, b: self.e.c.lt(b, a))
  def __ge__(self, o): return self._cmp(o, lambda a, b: self.e.c.le(b, a))

  def __eq__(self, o):
    if o is None:
      return False
    lo, hi = self.e.c.rng(self.v)
    if lo == 0 and hi == 1 and isinstance(o, int) and o in (0, 1):
      # a bit compared with a constant is that bit or its complement
      return mkb(self.e, self.v if o else self.e.c.bnot(self.v))
    r = self._cmp(o, lambda a, b: self.e.c.eq(a, b))
    return False if r is NotImplemented else r

  def __ne__(self, o):
    r = self.__eq__(o)
    return (not r) if isinstance(r, bool) else r.inv()

  def __hash__(self):
    raise Unsupported("hash of a symbolic int")

  def __bool__(self):
    return bool(self != 0)

  def __index__(self):
    raise Unsupported("symbolic int used as an index")

  def __int__(self):
    raise Unsupported("int() of a symbolic int outside the shimmed modules")

  def __float__(self):
    raise Unsupported("float of a symbolic int")

  def __truediv__(self, o):
    raise Unsupported("float division of a symbolic int")
  __rtruediv__ = __truediv__

  def bit_length(self):
    lo, hi = self.e.c.rng(self.v)
    if lo is None or lo < 0 or hi is None or hi.bit_length() > 256:
      raise Unsupported("bit_length of an unbounded symbolic int")
    for k in range(lo.bit_length(), hi.bit_length()):
      if self < (1 << k):
        return k
    return hi.bit_length()

  def __round__(self, n=None):
    return self

  def __deepcopy__(self, memo):
    return self

  def __copy__(self):
    return self

  def __repr__(self):
    return f"S({self.v!r})"

  # numpy ufuncs on object arrays
  def astype(self, *_):
    return self

  def conjugate(self):
    return self


class B(S):
  """A Python bool: an int in {0, 1} whose truth forks the run."""
  __slots__ = ()

  def __bool__(self):
    return self.e.decide(self.v)

  def inv(self):
    return mkb(self.e, self.e.c.bnot(self.v))

  def __and__(self, o):
    if isinstance(o, (B, bool)):
      return mkb(self.e, self.e.c.mul(self.v, self._o(o)))
    return S._bit(self, o, "and")
  __rand__ = __and__

  def __or__(self, o):
    if isinstance(o, (B, bool)):
      return mkb(self.e, self.e.c.bor(self.v, self._o(o)))
    return S._bit(self, o, "or")
  __ror__ = __or__

  def __xor__(self, o):
    if isinstance(o, (B, bool)):
      c = self.e.c
      a, b = self.v, self._o(o)
      r = c.sub(c.add(a, b), c.mul(2, c.mul(a, b)))
      return mkb(self.e, V(r.p, 0, 1) if isinstance(r, V) else r)
    return S._bit(self, o, "xor")
  __rxor__ = __xor__


def mk(e, v):
  return S(e, v) if isinstance(v, V) else v


def mkb(e, v):
  return B(e, v) if isinstance(v, V) else bool(v)


class Infeasible(Exception):
  pass


class Engine:
  """One run along one path."""

  def __init__(self, prefix=(), timeout_ms=2000):
    self.c = Ctx()
    self.prefix = list(prefix)
    self.taken = []
    self.pending = []
    self.timeout_ms = timeout_ms
    self.shared = {}
    self.inverses = []
    self.residues = False  # x % q becomes one atom, expanded modulo q

  def var(self, name, lo, hi):
    return mk(self, self.c.var(name, lo, hi) if lo != hi else lo)

  def exact(self, a, b):
    """a / b when b is one positive input dividing every monomial of a."""
    c = self.c
    if not isinstance(a, V) or c.rng(b)[0] is None or c.rng(b)[0] <= 0:
      return None
    ((m, k),) = b.p.t.items() if len(b.p.t) == 1 else (((), 0),)
    if k != 1 or len(m) != 1:
      return None
    t = {}
    for mm, kk in a.p.t.items():
      if m[0] not in mm:
        return None
      rest = list(mm)
      rest.remove(m[0])
      t[tuple(rest)] = kk
    p = P(t)
    lo, hi = c.pbounds(p)
    return c.mk(p, lo, hi)

  def symdiv(self, a, b):
    """a // b for a positive symbolic divisor: q with b q <= a < b q + b."""
    c = self.c
    lo, hi = c.rng(b)
    alo, ahi = c.rng(a)
    if lo is None or lo <= 0 or hi is None or alo is None or alo < 0 or (
        ahi is None):
      raise Unsupported("division by a symbolic int")
    k = ("symdiv", c.poly(a).key(), c.poly(b).key())
    q = c.memo.get(k)
    if q is None:
      q = c.var(f"div{len(c.atoms)}", alo // hi, ahi // lo, "fn",
                (lambda x, y: x // y if y else 0, [c.poly(a), c.poly(b)]))
      r = c.sub(a, c.mul(q, b))
      c.facts.append(("ge0", r))
      c.facts.append(("ge0", c.sub(c.sub(b, 1), r)))
      c.memo[k] = q
    return q

  def inverse(self, x, m):
    """pow(x, -1, m): r in [0, m) with r x congruent to 1; defined by contract
    (Python raises when there is none)."""
    c = self.c
    mlo, mhi = c.rng(val(m))
    r = c.var(f"inv{len(c.atoms)}", 0, None if mhi is None else mhi - 1,
              "fresh")
    c.facts.append(("ge0", c.sub(c.sub(val(m), 1), r)))
    self.inverses.append((c.poly(r).key(), c.poly(val(x)), c.poly(val(m))))
    return mk(self, r)

  def fdiv(self, a, b):
    if isinstance(b, V):
      e = self.exact(a, b)
      return e if e is not None else self.symdiv(a, b)
    if b == 0:
      raise ZeroDivisionError("integer division or modulo by zero")
    if b < 0:
      return self.c.fdiv(self.c.neg(a), -b)
    return self.c.fdiv(a, b)

  def mod(self, a, b):
    return self.c.sub(a, self.c.mul(b, self.fdiv(a, b))) if (
        isinstance(b, int) and b < 0) else self._mod(a, b)

  def _mod(self, a, b):
    if isinstance(b, V):
      if self.exact(a, b) is not None:
        return 0
      return self.c.sub(a, self.c.mul(b, self.symdiv(a, b)))
    if b == 0:
      raise ZeroDivisionError("integer division or modulo by zero")
    if self.residues and b & (b - 1):
      return self.c.residue(a, b)
    return self.c.mod(a, b)

  def disjoint(self, a, b):
    """a | b as a + b when one is a multiple of 2^k above the other's range."""
    c = self.c
    for x, y in ((a, b), (b, a)):
      lo, hi = c.rng(x)
      ylo, _ = c.rng(y)
      if lo is None or lo < 0 or hi is None or ylo is None or ylo < 0:
        continue
      k = hi.bit_length()
      if all(q % (1 << k) == 0 for q in c.poly(y).t.values()):
        return c.add(x, y)
    return None

  def assume(self, v, truth):
    """Adds the path condition v == truth (v a 0/1 value)."""
    c = self.c
    c.facts.append(("eq0", c.sub(v, 1 if truth else 0)))
    p = c.poly(v)
    if len(p.t) == 1 or (len(p.t) == 2 and p.t.get(()) == 1):
      (m, k), = [(m, k) for m, k in p.t.items() if m]
      if len(m) == 1 and abs(k) == 1:
        t = truth if k == 1 else not truth
        a = c.atoms[m[0]]
        if a.kind == "bool" and a.defn:
          q = a.defn[1]
          v2 = V(q, None, None)
          if a.defn[0] == "ge0":
            c.facts.append(("ge0", v2 if t else V(
                padd1(pscale(q, -1), -1), None, None)))
            self.bound(q, 0 if t else None, None if t else -1)
          elif t:
            c.facts.append(("eq0", v2))
            self.bound(q, 0, 0)

  def bound(self, q, lo, hi):
    c = self.c
    c.note_bounds(V(q, lo, hi))
    c.note_bounds(V(pscale(q, -1), None if hi is None else -hi,
                    None if lo is None else -lo))
    # single atom plus constant: tighten the atom itself
    t = {m: k for m, k in q.t.items() if m}
    if len(t) == 1:
      (m, k), = t.items()
      if len(m) == 1 and abs(k) == 1:
        a = c.atoms[m[0]]
        k0 = q.t.get((), 0)
        l, h = (None if lo is None else lo - k0), (None if hi is None
                                                   else hi - k0)
        if k == -1:
          l, h = (None if h is None else -h), (None if l is None else -l)
        if l is not None and (a.lo is None or l > a.lo):
          a.lo = l
        if h is not None and (a.hi is None or h < a.hi):
          a.hi = h

  def require(self, cond):
    """Precondition."""
    if isinstance(cond, B):
      self.assume(cond.v, True)
    elif not cond:
      raise Infeasible()

  def feasible(self, v, truth):
    r = prove(self.c, goal_eq0=self.c.sub(v, 0 if truth else 1),
              timeout_ms=self.timeout_ms)
    return r.status != "proved"

  def decide(self, v):
    lo, hi = self.c.pbounds(self.c.poly(v))
    if lo is not None and lo >= 1:
      return True
    if hi is not None and hi <= 0:
      return False
    i = len(self.taken)
    key = self.c.poly(v).key()
    if key in self.shared:
      return self.shared[key]
    nk = self.c.poly(self.c.bnot(v)).key()
    if nk in self.shared:
      return not self.shared[nk]
    if i < len(self.prefix):
      d = self.prefix[i]
    else:
      t, f = self.feasible(v, True), self.feasible(v, False)
      if not t and not f:
        raise Infeasible()
      d = t
      if t and f:
        self.pending.append(self.taken + [False])
    self.taken.append(d)
    self.shared[key] = d
    self.assume(v, d)
    return d


def padd1(p, k):
  t = dict(p.t)
  n = t.get((), 0) + k
  if n:
    t[()] = n
  else:
    t.pop((), None)
  return P(t)


def shim_int(x=0, *a):
  if isinstance(x, S):
    return mk(x.e, x.v) if not isinstance(x, B) else S(x.e, x.v)
  return int(x, *a)


def shim_bool(x=False):
  if isinstance(x, B):
    return x
  if isinstance(x, S):
    return x != 0
  return bool(x)


class SymBytes:
  """bytes whose elements may be symbolic."""

  def __init__(self, items):
    self.items = list(items)

  def __iter__(self):
    return iter(self.items)

  def __len__(self):
    return len(self.items)

  def __getitem__(self, i):
    return self.items[i]

  def decode(self, enc="utf-8", *_):
    if enc not in ("ascii", "us-ascii"):
      raise Unsupported("decode")
    for x in self.items:
      if x >= 128:
        raise UnicodeDecodeError("ascii", b"", 0, 1, "ordinal not in range")
    return SymStr(self.items)


class SymStr:
  def __init__(self, items):
    self.items = list(items)

  def __len__(self):
    return len(self.items)

  def encode(self, enc="utf-8", *_):
    return shim_bytes(self, enc)


def shim_bytes(x=b"", *a):
  if isinstance(x, SymStr):
    for t in x.items:
      if t >= 128:
        raise UnicodeEncodeError("ascii", "", 0, 1, "ordinal not in range")
    return SymBytes(x.items)
  if isinstance(x, SymBytes):
    return x
  if isinstance(x, (list, tuple)) and any(isinstance(t, S) for t in x):
    for t in x:
      if isinstance(t, S) and not (0 <= t < 256):
        raise ValueError("bytes must be in range(0, 256)")
    return SymBytes(x)
  return bytes(x, *a)


def _shadow(name, real, conv, *also):
  """A stand-in for a builtin type: conversions keep symbolic values and
  isinstance() accepts them."""
  class Meta(type):
    def __call__(cls, *a, **k):
      return conv(*a, **k)

    def __instancecheck__(cls, x):
      return isinstance(x, (real,) + also)

    def __getattr__(cls, n):
      return getattr(real, n)
  return Meta(name, (), {})


def shim_pow(x, n, m=None):
  if isinstance(m, S) and not isinstance(x, S):
    if n == -1:
      return 1 if x == 1 else m.e.inverse(x, m)
    return m.__rmod__(pow(x, n))
  return pow(x, n) if m is None else pow(x, n, m)


SHIMS = dict(pow=shim_pow, int=_shadow("int", int, shim_int, S),
             bool=_shadow("bool", bool, shim_bool, B),
             bytes=_shadow("bytes", bytes, shim_bytes, SymBytes))


@contextlib.contextmanager
def shims(modules=(), extra=None):
  with contextlib.ExitStack() as st:
    for m in modules:
      for k, v in dict(SHIMS, **(extra or {})).items():
        st.enter_context(paths.patched(m, k, v))
    yield


class Path:
  def __init__(self, e, result, raised, inputs):
    self.e = e
    self.c = e.c
    self.result = result
    self.raised = raised
    self.inputs = inputs


def explore(fn, modules=(), limit=256, extra=None,
            catch=(ValueError, AssertionError, ZeroDivisionError, IndexError,
                   OverflowError, UnicodeError)):
  """All paths of fn(engine); fn builds its inputs from the engine."""
  todo = [[]]
  out = []
  while todo:
    e = Engine(todo.pop())
    raised = result = None
    try:
      with shims(modules, extra):
        result = fn(e)
    except Infeasible:
      todo += e.pending
      continue
    except catch as ex:
      raised = ex
    todo += e.pending
    out.append(Path(e, result, raised, None))
    if len(out) + len(todo) > limit:
      raise Unsupported("too many host paths")
  return out


def val(x):
  """S | int -> poly value."""
  return x.v if isinstance(x, S) else int(x)
