"""Integer-polynomial symbolic domain.

A machine word is represented by its exact mathematical value: a polynomial with
integer coefficients over *atoms*, together with an interval.  Machine
operations become polynomial operations; whatever is not polynomial (floor
division, wrap-around, comparison) introduces an atom with a definition:

  quotient atom  q = floor(P / d)           (d a positive constant)
  boolean atom   b = [P >= 0]  or  [P == 0]

Wrap-around at width w is therefore P - 2^w * floor(P / 2^w): an identity modulo
2^w is decided by dropping coefficients divisible by 2^w, with no case split, and
range facts are decided by z3 from the definitions (see `prove`).
"""

import math
import time

NONE = object()


class Unsupported(Exception):
  """The code left the fragment the engine can translate."""


class P:
  """Immutable polynomial: dict monomial(tuple of atom ids, sorted) -> int."""

  __slots__ = ("t", "_k")

  def __init__(self, t):
    self.t = t
    self._k = None

  def key(self):
    if self._k is None:
      self._k = frozenset(self.t.items())
    return self._k

  def __repr__(self):
    return "P(%s)" % " + ".join(
        f"{c}*{'*'.join('a%d' % i for i in m) or '1'}"
        for m, c in sorted(self.t.items(), key=lambda z: (len(z[0]), z[0]))[:12]
    )


def padd(a, b, sb=1):
  if len(a.t) < len(b.t) and sb == 1:
    a, b = b, a
  t = dict(a.t)
  for m, c in b.t.items():
    n = t.get(m, 0) + sb * c
    if n:
      t[m] = n
    else:
      t.pop(m, None)
  return P(t)


def pscale(a, k):
  if k == 0:
    return P({})
  if k == 1:
    return a
  return P({m: c * k for m, c in a.t.items()})


def pconst(c):
  return P({(): c}) if c else P({})


class V:
  """Symbolic integer: polynomial plus interval (either end may be None)."""

  __slots__ = ("p", "lo", "hi")

  def __init__(self, p, lo, hi):
    self.p = p
    self.lo = lo
    self.hi = hi

  def __repr__(self):
    return f"V({self.p} in [{self.lo},{self.hi}])"

  # Structural use inside numpy object arrays must never trigger comparison.
  def __bool__(self):
    raise Unsupported("truth value of a symbolic word")


class Atom:
  __slots__ = ("name", "lo", "hi", "kind", "defn", "z3v")

  def __init__(self, name, lo, hi, kind, defn):
    self.name = name
    self.lo = lo
    self.hi = hi
    self.kind = kind  # input | quot | bool | fresh
    self.defn = defn
    self.z3v = None


def _min(a, b):
  return None if a is None or b is None else min(a, b)


def _max(a, b):
  return None if a is None or b is None else max(a, b)


class Ctx:
  boolwrap = False
  prover = None  # prover(v): v >= 0 follows from facts and definitions

  """Atoms, definitions and facts of one proof."""

  def __init__(self):
    self.atoms = []
    self.memo = {}
    self.isbool = set()
    self.facts = []  # list of (kind, P): 'ge0' or 'eq0' assumed facts
    self.bounds = {}  # poly key -> (lo, hi) known from semantics
    self.rewrites = {}  # atom id -> P, used by callee contracts
    self.modrep = {}  # (atom id) -> (modulus, P)
    self.queries = 0
    self.solver_s = 0.0
    self.time_budget = None

  # -- atoms -------------------------------------------------------------
  def atom(self, name, lo, hi, kind="input", defn=None):
    i = len(self.atoms)
    self.atoms.append(Atom(name, lo, hi, kind, defn))
    if lo == 0 and hi == 1:
      self.isbool.add(i)
    return i

  def var(self, name, lo, hi, kind="input", defn=None):
    i = self.atom(name, lo, hi, kind, defn)
    return V(P({(i,): 1}), lo, hi)

  # -- helpers -----------------------------------------------------------
  def poly(self, x):
    if isinstance(x, V):
      return x.p
    return pconst(int(x))

  def rng(self, x):
    if isinstance(x, V):
      return x.lo, x.hi
    return int(x), int(x)

  def mk(self, p, lo, hi):
    """Builds a value, tightening with what the polynomial itself says."""
    if not p.t:
      return 0
    if len(p.t) == 1 and () in p.t:
      return p.t[()]
    if len(p.t) <= 48:
      plo, phi = self.pbounds(p)
      if plo is not None and (lo is None or plo > lo):
        lo = plo
      if phi is not None and (hi is None or phi < hi):
        hi = phi
    if lo is not None and lo == hi:
      return lo
    return V(p, lo, hi)

  def known(self, p):
    return self.bounds.get(p.key())

  def pbounds(self, p):
    lo = hi = 0
    b = self.bounds.get(p.key()) if len(p.t) <= 8 else None
    atoms = self.atoms
    for m, c in p.t.items():
      if not m:
        mlo = mhi = 1
      else:
        mlo = mhi = 1
        for i in m:
          a = atoms[i]
          if a.lo is None or a.hi is None:
            if a.lo is not None and a.lo >= 0 and mlo is not None and mlo >= 0:
              mlo, mhi = mlo * a.lo, None
              continue
            mlo = mhi = None
            break
          if mlo is None:
            break
          if mhi is None:
            if a.lo >= 0:
              mlo = mlo * a.lo
              continue
            mlo = None
            break
          q = (mlo * a.lo, mlo * a.hi, mhi * a.lo, mhi * a.hi)
          mlo, mhi = min(q), max(q)
      if c < 0:
        mlo, mhi = mhi, mlo
      lo = None if lo is None or mlo is None else lo + c * mlo
      hi = None if hi is None or mhi is None else hi + c * mhi
      if lo is None and hi is None:
        break
    if b is not None:
      if b[0] is not None and (lo is None or b[0] > lo):
        lo = b[0]
      if b[1] is not None and (hi is None or b[1] < hi):
        hi = b[1]
    return lo, hi

  def note_bounds(self, v):
    if isinstance(v, V) and len(v.p.t) <= 8:
      k = v.p.key()
      o = self.bounds.get(k)
      if o is None:
        self.bounds[k] = (v.lo, v.hi)
      else:
        lo = o[0] if v.lo is None else v.lo if o[0] is None else max(o[0], v.lo)
        hi = o[1] if v.hi is None else v.hi if o[1] is None else min(o[1], v.hi)
        self.bounds[k] = (lo, hi)
    return v

  # -- arithmetic --------------------------------------------------------
  def add(self, a, b):
    if not isinstance(a, V) and not isinstance(b, V):
      return a + b
    if not isinstance(a, V):
      a, b = b, a
    if not isinstance(b, V):
      if b == 0:
        return a
      t = dict(a.p.t)
      n = t.get((), 0) + b
      if n:
        t[()] = n
      else:
        t.pop((), None)
      return self.mk(
          P(t),
          None if a.lo is None else a.lo + b,
          None if a.hi is None else a.hi + b,
      )
    lo = None if a.lo is None or b.lo is None else a.lo + b.lo
    hi = None if a.hi is None or b.hi is None else a.hi + b.hi
    return self.mk(padd(a.p, b.p), lo, hi)

  def neg(self, a):
    if not isinstance(a, V):
      return -a
    return self.mk(
        pscale(a.p, -1),
        None if a.hi is None else -a.hi,
        None if a.lo is None else -a.lo,
    )

  def sub(self, a, b):
    if not isinstance(a, V) and not isinstance(b, V):
      return a - b
    if not isinstance(b, V):
      return self.add(a, -b)
    if not isinstance(a, V):
      return self.add(self.neg(b), a)
    lo = None if a.lo is None or b.hi is None else a.lo - b.hi
    hi = None if a.hi is None or b.lo is None else a.hi - b.lo
    return self.mk(padd(a.p, b.p, -1), lo, hi)

  def monomul(self, m, n):
    if not m:
      return n
    if not n:
      return m
    r = tuple(sorted(m + n))
    if self.isbool:
      out = []
      prev = -1
      for i in r:
        if i == prev and i in self.isbool:
          continue
        out.append(i)
        prev = i
      r = tuple(out)
    return r

  def pmul(self, a, b):
    if len(a.t) > len(b.t):
      a, b = b, a
    t = {}
    for m, c in a.t.items():
      for n, d in b.t.items():
        k = self.monomul(m, n)
        t[k] = t.get(k, 0) + c * d
    return P({k: c for k, c in t.items() if c})

  def mul(self, a, b):
    if not isinstance(a, V):
      if not isinstance(b, V):
        return a * b
      a, b = b, a
    if not isinstance(b, V):
      if b == 0:
        return 0
      if b == 1:
        return a
      lo = None if a.lo is None else a.lo * b
      hi = None if a.hi is None else a.hi * b
      if b < 0:
        lo, hi = (
            None if a.hi is None else a.hi * b,
            None if a.lo is None else a.lo * b,
        )
      return self.mk(pscale(a.p, b), lo, hi)
    p = self.pmul(a.p, b.p)
    if None in (a.lo, a.hi, b.lo, b.hi):
      lo = hi = None
      if a.lo is not None and b.lo is not None and a.lo >= 0 and b.lo >= 0:
        lo = a.lo * b.lo
    else:
      q = (a.lo * b.lo, a.lo * b.hi, a.hi * b.lo, a.hi * b.hi)
      lo, hi = min(q), max(q)
    return self.mk(p, lo, hi)

  def total(self, xs):
    """Sum of many values, accumulating in one dictionary."""
    t = {}
    lo = hi = 0
    for x in xs:
      if not isinstance(x, V):
        if x:
          t[()] = t.get((), 0) + x
          lo = None if lo is None else lo + x
          hi = None if hi is None else hi + x
        continue
      for m, c in x.p.t.items():
        t[m] = t.get(m, 0) + c
      lo = None if lo is None or x.lo is None else lo + x.lo
      hi = None if hi is None or x.hi is None else hi + x.hi
    return self.mk(P({m: c for m, c in t.items() if c}), lo, hi)

  def dot(self, xs, ys):
    """Sum of products, accumulating in one dictionary."""
    t = {}
    lo = hi = 0
    monomul = self.monomul
    for x, y in zip(xs, ys):
      xv = isinstance(x, V)
      yv = isinstance(y, V)
      if not xv and not yv:
        s = x * y
        if s:
          t[()] = t.get((), 0) + s
          lo = None if lo is None else lo + s
          hi = None if hi is None else hi + s
        continue
      if xv and yv:
        for m, c in x.p.t.items():
          for n, d in y.p.t.items():
            k = monomul(m, n)
            t[k] = t.get(k, 0) + c * d
        if None in (x.lo, x.hi, y.lo, y.hi):
          if not (lo is not None and x.lo is not None and y.lo is not None
                  and x.lo >= 0 and y.lo >= 0):
            lo = None
          else:
            lo += x.lo * y.lo
          hi = None
        else:
          q = (x.lo * y.lo, x.lo * y.hi, x.hi * y.lo, x.hi * y.hi)
          lo = None if lo is None else lo + min(q)
          hi = None if hi is None else hi + max(q)
        continue
      if yv:
        x, y = y, x
      if y == 0:
        continue
      for m, c in x.p.t.items():
        t[m] = t.get(m, 0) + c * y
      a, b = x.lo, x.hi
      if y < 0:
        a, b = b, a
      lo = None if lo is None or a is None else lo + a * y
      hi = None if hi is None or b is None else hi + b * y
    return self.mk(P({m: c for m, c in t.items() if c}), lo, hi)

  # -- non-polynomial operations ------------------------------------------
  def fdiv(self, a, d):
    """floor(a / d), d a positive Python int."""
    if d <= 0:
      raise Unsupported("floor division by a non-positive constant")
    if not isinstance(a, V):
      return a // d
    if d == 1:
      return a
    if a.lo is not None and a.hi is not None and a.lo // d == a.hi // d:
      return a.lo // d
    lo = None if a.lo is None else a.lo // d
    hi = None if a.hi is None else a.hi // d
    ta, tb = {}, {}
    for m, c in a.p.t.items():
      if c % d == 0:
        ta[m] = c // d
      elif not m:
        if c // d:
          ta[m] = c // d
        tb[m] = c % d
      elif abs(c) >= d:  # canonical: same residue, same quotient atom
        r = c % d
        if 2 * r > d:
          r -= d
        ta[m] = (c - r) // d
        tb[m] = r
      else:
        tb[m] = c
    if not tb:
      return self.note_bounds(self.mk(P(ta), lo, hi))
    pa, pb = P(ta), P(tb)
    if ta:
      blo, bhi = self.pbounds(pb)
      if blo is not None and bhi is not None and blo // d == bhi // d:
        return self.note_bounds(self.mk(padd(pa, pconst(blo // d)), lo, hi))
      qb = self._quot(pb, d, blo, bhi)
      return self.note_bounds(self.mk(padd(pa, self.poly(qb)), lo, hi))
    return self._quot(pb, d, a.lo, a.hi)

  def _quot(self, p, d, plo, phi):
    blo, bhi = self.pbounds(p)
    if plo is None or (blo is not None and blo > plo):
      plo = blo
    if phi is None or (bhi is not None and bhi < phi):
      phi = bhi
    if len(p.t) == 1:
      ((m, c),) = p.t.items()
      if c == 1 and len(m) == 1:
        a = self.atoms[m[0]]
        if a.kind == "quot":
          p, d = a.defn[0], a.defn[1] * d
          plo, phi = a.lo and None, None
          plo, phi = self.pbounds(p)
          plo = a.defn[2] if plo is None or (
              a.defn[2] is not None and a.defn[2] > plo) else plo
          phi = a.defn[3] if phi is None or (
              a.defn[3] is not None and a.defn[3] < phi) else phi
    if len(p.t) > 1:
      g = 0
      for c in p.t.values():
        g = math.gcd(g, c)
      g = math.gcd(g, d)
      if g > 1:
        p = P({m: c // g for m, c in p.t.items()})
        d //= g
        plo = None if plo is None else -((-plo) // g)
        phi = None if phi is None else phi // g
    if plo is not None and phi is not None and plo // d == phi // d:
      return plo // d
    k = ("quot", p.key(), d)
    r = self.memo.get(k)
    lo = None if plo is None else plo // d
    hi = None if phi is None else phi // d
    if r is None:
      r = self.var(f"q{len(self.atoms)}", lo, hi, "quot", (p, d, plo, phi))
      self.memo[k] = r
    else:
      (m,) = r.p.t
      a = self.atoms[m[0]]
      if a.lo is None or (lo is not None and lo > a.lo):
        a.lo = lo
      if a.hi is None or (hi is not None and hi < a.hi):
        a.hi = hi
      if a.lo is not None and a.lo == a.hi:
        return a.lo
      r = V(r.p, a.lo, a.hi)
    return r

  def mod(self, a, d):
    if not isinstance(a, V):
      return a % d
    if a.lo is not None and a.hi is not None and a.lo // d == a.hi // d:
      return self.sub(a, d * (a.lo // d))
    q = self.fdiv(a, d)
    r = self.sub(a, self.mul(q, d))
    if isinstance(r, V):
      lo = 0 if r.lo is None else max(0, r.lo)
      hi = d - 1 if r.hi is None else min(d - 1, r.hi)
      if lo == hi:
        return lo
      r = self.note_bounds(V(r.p, lo, hi))
    return r

  def wrap(self, a, bits, signed):
    if not isinstance(a, V):
      a &= (1 << bits) - 1
      if signed and a >> (bits - 1):
        a -= 1 << bits
      return a
    lo, hi = (-(1 << (bits - 1)), (1 << (bits - 1)) - 1) if signed else (
        0, (1 << bits) - 1)
    if a.lo is not None and a.hi is not None and a.lo >= lo and a.hi <= hi:
      return a
    if a.lo is None or a.hi is None or len(a.p.t) > 48:
      plo, phi = self.pbounds(a.p)
      if plo is not None and phi is not None and plo >= lo and phi <= hi:
        return V(a.p, plo, phi)
    d = 1 << bits
    if self.prover is not None:
      ok = [True, True]
      if a.lo is None or a.lo < lo:
        ok[0] = self.prover(self.sub(a, lo))
      if ok[0] and (a.hi is None or a.hi > hi):
        ok[1] = self.prover(self.sub(hi, a))
      if all(ok):
        return self.note_bounds(V(a.p, lo if a.lo is None else max(lo, a.lo),
                                  hi if a.hi is None else min(hi, a.hi)))
    if self.boolwrap and a.lo is not None and a.hi is not None:
      k = (a.lo - lo) // d
      if k + 1 == (a.hi - lo) // d:  # one comparison tells which of the two
        q = self.add(k, self.ge0(self.sub(a, lo + (k + 1) * d)))
        r = self.sub(a, self.mul(q, d))
        return self.note_bounds(V(r.p, lo, hi)) if isinstance(r, V) else r
    if not signed:
      return self.mod(a, 1 << bits)
    h = 1 << (bits - 1)
    return self.note_bounds(self.sub(self.mod(self.add(a, h), 1 << bits), h))

  def ge0(self, a):
    """Boolean (0/1) value of a >= 0."""
    if not isinstance(a, V):
      return int(a >= 0)
    if a.lo is not None and a.lo >= 0:
      return 1
    if a.hi is not None and a.hi < 0:
      return 0
    plo, phi = self.pbounds(a.p)
    if plo is not None and plo >= 0:
      return 1
    if phi is not None and phi < 0:
      return 0
    k = ("ge0", a.p.key())
    r = self.memo.get(k)
    if r is None and self.prover is not None:
      if self.prover(a):
        return 1
      if self.prover(self.sub(-1, a)):
        return 0
    if r is None:
      nk = ("ge0", padd(pscale(a.p, -1), pconst(-1)).key())
      nr = self.memo.get(nk)
      if nr is not None:  # a >= 0  <=>  not (-a - 1 >= 0)
        return self.sub(1, nr)
      r = self.var(f"b{len(self.atoms)}", 0, 1, "bool",
                   ("ge0", a.p, a.lo, a.hi))
      self.memo[k] = r
    return r

  def eq0(self, a):
    if not isinstance(a, V):
      return int(a == 0)
    if (a.lo is not None and a.lo > 0) or (a.hi is not None and a.hi < 0):
      return 0
    # A product / sum test on a boolean is itself boolean.
    if len(a.p.t) == 1:
      ((m, c),) = a.p.t.items()
      if m and all(i in self.isbool for i in m):
        return self.sub(1, V(P({m: 1}), 0, 1))
    k0 = a.p.key()
    k1 = pscale(a.p, -1).key()
    for k in (k0, k1):
      r = self.memo.get(("eq0", k))
      if r is not None:
        return r
    r = self.var(f"b{len(self.atoms)}", 0, 1, "bool", ("eq0", a.p, a.lo, a.hi))
    self.memo[("eq0", k0)] = r
    return r

  def lt(self, a, b):
    return self.ge0(self.sub(self.sub(b, a), 1))

  def le(self, a, b):
    return self.ge0(self.sub(b, a))

  def eq(self, a, b):
    return self.eq0(self.sub(a, b))

  def bnot(self, c):
    return 1 - c if not isinstance(c, V) else self.sub(1, c)

  def band(self, a, b):
    return self.mul(a, b)

  def bor(self, a, b):
    r = self.sub(self.add(a, b), self.mul(a, b))
    return V(r.p, max(0, r.lo), min(1, r.hi)) if isinstance(r, V) else r

  def ite(self, c, a, b):
    """c ? a : b with c a 0/1 value."""
    if not isinstance(c, V):
      return a if c else b
    if not isinstance(a, V) and not isinstance(b, V):
      if a == b:
        return a
    elif isinstance(a, V) and isinstance(b, V) and a.p.t == b.p.t:
      return V(a.p, _max(a.lo, b.lo), _min(a.hi, b.hi))
    alo, ahi = self.rng(a)
    blo, bhi = self.rng(b)
    d = self.poly(self.sub(a, b))
    p = padd(self.pmul(c.p, d), self.poly(b))
    lo, hi = _min(alo, blo), _max(ahi, bhi)
    r = self.mk(p, lo, hi)
    return self.note_bounds(r) if isinstance(r, V) else r

  def residue(self, a, q):
    """a mod q as one atom that modnorm(., q) expands (see modrep)."""
    if not isinstance(a, V):
      return a % q
    if a.lo is not None and a.hi is not None and a.lo >= 0 and a.hi < q:
      return a
    p = self.modnorm(a.p, q)
    if not p.t:
      return 0
    if len(p.t) == 1 and () in p.t:
      return p.t[()]
    if len(p.t) == 1:
      ((m, k),) = p.t.items()
      if k == 1 and len(m) == 1:
        at = self.atoms[m[0]]
        if at.lo is not None and at.lo >= 0 and at.hi is not None and at.hi < q:
          return V(p, at.lo, at.hi)
    k = ("res", q, p.key())
    r = self.memo.get(k)
    if r is None:
      r = self.var(f"r{len(self.atoms)}", 0, q - 1, "fn",
                   (lambda x, q=q: x % q, [p]))
      self.modrep[(len(self.atoms) - 1, q)] = p
      self.memo[k] = r
    return r

  def floormod_bits(self, a, nbits):
    return self.mod(a, 1 << nbits)

  def and_const(self, a, mask, bits):
    """a & mask for a nonnegative a and a constant nonnegative mask."""
    if not isinstance(a, V):
      return a & mask
    if mask == 0:
      return 0
    if a.lo is not None and a.lo < 0:
      a = self.wrap(a, bits, False)
    if a.hi is not None and (mask + 1) & mask == 0 and a.hi <= mask:
      return a
    out = 0
    i = 0
    while mask >> i:
      if not (mask >> i) & 1:
        i += 1
        continue
      j = i
      while (mask >> j) & 1:
        j += 1
      part = self.mod(self.fdiv(a, 1 << i), 1 << (j - i))
      out = self.add(out, self.mul(part, 1 << i))
      i = j
    if isinstance(out, V):
      hi = mask if a.hi is None else min(mask, a.hi)
      lo = 0
      return self.note_bounds(V(out.p, max(lo, out.lo or 0),
                                hi if out.hi is None else min(hi, out.hi)))
    return out

  # -- evaluation ----------------------------------------------------------
  def evaluate(self, env):
    """Values of all atoms given the input atoms' values (dict id -> int)."""
    vals = {}
    for i, a in enumerate(self.atoms):
      if i in env:
        vals[i] = env[i]
      elif a.kind == "quot":
        v = self.peval(a.defn[0], vals)
        vals[i] = None if v is None else v // a.defn[1]
      elif a.kind == "bool" and a.defn:
        v = self.peval(a.defn[1], vals)
        if v is None:
          vals[i] = None
        else:
          vals[i] = int(v >= 0) if a.defn[0] == "ge0" else int(v == 0)
      elif a.kind == "fn":
        args = [self.peval(p, vals) for p in a.defn[1]]
        vals[i] = None if None in args else a.defn[0](*args)
      else:
        vals[i] = None
    return vals

  def peval(self, p, vals):
    s = 0
    for m, c in p.t.items():
      x = c
      for i in m:
        v = vals.get(i)
        if v is None:
          return None
        x *= v
      s += x
    return s

  def veval(self, v, vals):
    return self.peval(v.p, vals) if isinstance(v, V) else int(v)

  # -- congruences ---------------------------------------------------------
  def modnorm(self, p, m):
    """Coefficients reduced mod m; atoms with a congruence to m expanded."""
    t = {}
    work = [(mm, c) for mm, c in p.t.items()]
    while work:
      mm, c = work.pop()
      c %= m
      if not c:
        continue
      hit = None
      for i in mm:
        r = self.modrep.get((i, m))
        if r is not None:
          hit = (i, r)
          break
      if hit is None:
        t[mm] = (t.get(mm, 0) + c) % m
      else:
        i, r = hit
        rest = list(mm)
        rest.remove(i)
        q = self.pmul(P({tuple(rest): c}), r)
        work.extend(q.t.items())
    return P({k: c for k, c in t.items() if c})

  def zero_mod(self, v, m):
    p = self.poly(v)
    p = P({k: c % m for k, c in p.t.items() if c % m})
    if not p.t:
      return True
    p = self.modnorm(p, m)
    return not p.t

  # -- z3 -------------------------------------------------------------------
  def z3_terms(self, z3):
    return Z3Tr(self, z3)


class Z3Tr:
  """Translates polynomials and their cone of definitions to z3 integers."""

  def __init__(self, ctx, z3):
    self.c = ctx
    self.z3 = z3
    self.vars = {}
    self.cons = []
    self.nonlin = {}
    self.exact = True

  def av(self, i):
    v = self.vars.get(i)
    if v is not None:
      return v
    z3 = self.z3
    a = self.c.atoms[i]
    v = z3.Int(f"{a.name}!{i}")
    self.vars[i] = v
    if a.lo is not None:
      self.cons.append(v >= a.lo)
    if a.hi is not None:
      self.cons.append(v <= a.hi)
    if a.kind in ("fn", "fresh"):
      self.exact = False
    if a.kind == "quot":
      p = self.tr(a.defn[0])
      d = a.defn[1]
      self.cons.append(d * v <= p)
      self.cons.append(p <= d * v + (d - 1))
      if a.defn[2] is not None:
        self.cons.append(p >= a.defn[2])
      if a.defn[3] is not None:
        self.cons.append(p <= a.defn[3])
    elif a.kind == "bool" and a.defn:
      p = self.tr(a.defn[1])
      if a.defn[0] == "ge0":
        self.cons.append((v == 1) == (p >= 0))
      else:
        self.cons.append((v == 1) == (p == 0))
      if a.defn[2] is not None:
        self.cons.append(p >= a.defn[2])
      if a.defn[3] is not None:
        self.cons.append(p <= a.defn[3])
    return v

  def mono(self, m):
    if len(m) == 1:
      return self.av(m[0])
    z3 = self.z3
    bools = [i for i in m if i in self.c.isbool]
    rest = [i for i in m if i not in self.c.isbool]
    if len(rest) <= 1:
      e = self.av(rest[0]) if rest else z3.IntVal(1)
      cond = z3.And([self.av(i) == 1 for i in bools]) if len(bools) > 1 else (
          self.av(bools[0]) == 1)
      return z3.If(cond, e, z3.IntVal(0))
    k = tuple(rest)
    v = self.nonlin.get(k)
    if v is None:
      v = z3.Int("nl!" + "_".join(map(str, k)))
      self.nonlin[k] = v
      lo, hi = self.c.pbounds(P({k: 1}))
      if lo is not None:
        self.cons.append(v >= lo)
      if hi is not None:
        self.cons.append(v <= hi)
      for i in rest:
        self.av(i)
      self.exact = False
    if bools:
      cond = z3.And([self.av(i) == 1 for i in bools])
      return z3.If(cond, v, z3.IntVal(0))
    return v

  def tr(self, p):
    z3 = self.z3
    e = []
    for m, c in p.t.items():
      if not m:
        e.append(z3.IntVal(c))
      else:
        t = self.mono(m)
        e.append(t if c == 1 else z3.IntVal(c) * t)
    if not e:
      return z3.IntVal(0)
    r = e[0] if len(e) == 1 else z3.Sum(e)
    b = self.c.known(p) if len(p.t) > 1 else None
    if b is not None:
      if b[0] is not None:
        self.cons.append(r >= b[0])
      if b[1] is not None:
        self.cons.append(r <= b[1])
    return r


class Result:
  def __init__(self, status, model=None, detail="", backend="", secs=0.0):
    self.status = status  # proved | refuted | unknown
    self.model = model
    self.detail = detail
    self.backend = backend
    self.secs = secs

  def __repr__(self):
    return f"Result({self.status},{self.backend},{self.detail[:200]})"


def prove(ctx, goal_ge0=None, goal_eq0=None, hyps=(), timeout_ms=20000,
          extra=None):
  """Proves P >= 0 (or P == 0) from the atom definitions, facts and hyps.

  hyps: list of (kind, P) with kind 'ge0' | 'eq0'.
  """
  import z3  # pylint: disable=g-import-not-at-top

  t0 = time.time()
  p = ctx.poly(goal_ge0 if goal_ge0 is not None else goal_eq0)
  lo, hi = ctx.pbounds(p)
  if goal_ge0 is not None:
    v = goal_ge0
    if isinstance(v, V) and v.lo is not None and v.lo >= 0:
      return Result("proved", backend="interval")
    if not isinstance(v, V):
      return Result("proved" if v >= 0 else "refuted", backend="constant",
                    detail=str(v), model={})
    if lo is not None and lo >= 0:
      return Result("proved", backend="interval")
  else:
    if not p.t:
      return Result("proved", backend="normal-form")
    if lo is not None and lo == hi == 0:
      return Result("proved", backend="interval")
  tr = Z3Tr(ctx, z3)
  g = tr.tr(p)
  hs = []
  for k, q in list(ctx.facts) + list(hyps):
    qq = tr.tr(ctx.poly(q))
    hs.append(qq >= 0 if k == "ge0" else qq == 0)
  s = z3.SolverFor("QF_LIA") if extra is None else z3.Solver()
  s.set("timeout", timeout_ms)
  s.add(tr.cons)
  s.add(hs)
  if extra is not None:
    s.add(extra(tr))
    s.add(tr.cons)
  s.add(g < 0 if goal_ge0 is not None else g != 0)
  r = s.check()
  ctx.queries += 1
  dt = time.time() - t0
  ctx.solver_s += dt
  if r == z3.unsat:
    return Result("proved", backend="z3", secs=dt)
  if r == z3.sat:
    m = s.model()
    mod = {}
    for i, v in tr.vars.items():
      if ctx.atoms[i].kind in ("input", "fresh"):
        x = m.eval(v, model_completion=True)
        try:
          mod[i] = x.as_long()
        except Exception:  # pylint: disable=broad-except
          pass
    return Result("refuted" if tr.exact else "unknown", model=mod,
                  detail="z3 model" + ("" if tr.exact else
                                       " (nonlinear terms abstracted)"),
                  backend="z3", secs=dt)
  return Result("unknown", detail="z3 " + s.reason_unknown(), backend="z3",
                secs=dt)
