"""C21: reference field arithmetic is exact and canonical.

jaxite_ec/algorithm: the real classes run on symbolic integers (pysym), one
run per path; gmpy2.mpz is exact integer arithmetic, gmpy2.powmod(x, p-2, p) is
assumed to return the inverse (Fermat), everything else of gmpy2 is called with
concrete numbers only.
"""

import contextlib
import math

import numpy as np

from vc import jx, limbs, nparr, paths, pysym, reffield, rns
from vc.harness import Unit, repo
from vc.limbs import Q, run
from vc.poly import Unsupported, V
from vc.pysym import S, val
from vc.reffield import ALG

X64 = True
FFR = ALG + "finite_field:"
BIG = ALG + "big_integer:GMPBigInteger."
LZ = ALG + "lazy_reduction:"
RM = ALG + "rns_mod_reduce:"
UTR = ALG + "util:"

PRIMES = [2, 3, 5, 7, 13, 251, 257, 65521, (1 << 31) - 1, (1 << 61) - 1,
          (1 << 64) + 13, (1 << 64) - 59, (1 << 127) - 1, (1 << 255) - 19,
          8444461749428370424248824938781546531375899335154063827935233455917409239041,
          Q]
CLASSES = ("FiniteFieldElement", "FiniteFieldElementBarrett",
           "FiniteFieldElementMontgomery")


def field_mods():
  return [repo(ALG + "big_integer"), repo(ALG + "finite_field")]


def explore(f, limit=64, extra_mods=(), catch=(Exception,)):
  """All paths of f(engine) with the reference modules shimmed."""
  def go(e):
    inv = {}

    def powmod(x, n, m):
      xv, n, m = val(x), int(n), int(m)
      if n < 0 or m <= 0:
        raise Unsupported("powmod")
      if n > 2 and n == m - 2:
        k = e.c.poly(xv).key()
        if k not in inv:
          z = mk_eq0(e, x)
          if z:  # 0^(m-2) = 0
            inv[k] = 0
          else:
            inv[k] = e.inverse(x, m)
            e.c.facts.append(("ge0", e.c.sub(val(inv[k]), 1)))
        return inv[k]
      if n > 40:
        raise Unsupported("large power of a symbolic integer")
      r = 1
      for _ in range(n):
        r = r * x % m
      return r % m if not isinstance(r, S) else r
    e.residues = False
    with reffield.shims(field_mods() + list(extra_mods), powmod):
      return f(e)
  return pysym.explore(go, (), limit=limit, catch=catch)


def mk_eq0(e, x):
  return bool(x == 0)


def raw(x):
  """The integer a field element's value holds, without the class's help."""
  v = x.value
  for _ in range(3):
    if hasattr(v, "value"):
      v = v.value
  return val(v) if isinstance(v, S) else int(v)


def make(cls, x, p, extra=None):
  """An element holding x as its internal value."""
  o = one_of(cls, p, extra)
  big = repo(ALG + "big_integer").GMPBigInteger
  o.value = big(x)
  return o


def one_of(cls, p, extra=None):
  """The element 1; extra: explicit width, that many bits above the prime's."""
  C = repo(FFR + cls)
  if extra is None:
    return C(1 % p, p)
  return C(1 % p, p, (p - 1).bit_length() + extra)


def primes(cls):
  return PRIMES[1:] if cls.endswith("Montgomery") else PRIMES


def rinv(cls, p, extra=None):
  """internal value = x * R; the factor R the class uses."""
  if not cls.endswith("Montgomery"):
    return 1
  return int(one_of(cls, p, extra).r) % p


def inverse_poly(p, c, engine, v):
  pass


OPS = {
    "+": (lambda a, b: a + b, lambda x, y, p, R: (x + y) % p),
    "-": (lambda a, b: a - b, lambda x, y, p, R: (x - y) % p),
    "*": (lambda a, b: a * b,
          lambda x, y, p, R: x * y * pow(R, -1, p) % p),
    "/": (lambda a, b: a / b,
          lambda x, y, p, R: x * pow(y, -1, p) * R % p),
}


def op_unit(cls, op, extra=None):
  f, spec = OPS[op]
  fname = {"+": "__add__", "-": "__sub__", "*": "__mul__",
           "/": "__truediv__"}[op]

  def prove(ob):
    for p in primes(cls):
      if p < 14:  # every pair
        R = rinv(cls, p, extra)
        for x in range(p):
          for y in range(p):
            if op == "/" and (y == 0 or p == 2):
              continue
            a, b = make(cls, x, p, extra), make(cls, y, p, extra)
            r = f(a, b)
            ob.true(f"p={p}: {x} {op} {y}", raw(r) == spec(x, y, p, R) and
                    raw(a) == x and raw(b) == y and r.prime == p)
        continue
      if extra is not None and extra >= 7 and p < 1 << 20:
        continue  # R above p^2: concretely below

      def go(e, p=p):
        x = e.var("x", 0, p - 1)
        y = e.var("y", 1 if op == "/" else 0, p - 1)
        a, b = make(cls, x, p, extra), make(cls, y, p, extra)
        r = f(a, b)
        return x, y, a, b, r
      R = rinv(cls, p, extra)
      for i, pa in enumerate(explore(go)):
        t = f"p={p if p < 1 << 20 else f'{p.bit_length()} bits'} path {i}"
        if pa.raised is not None:
          if isinstance(pa.raised, Unsupported):
            raise pa.raised
          ob.true(f"{t}: does not raise", False, repr(pa.raised))
          continue
        x, y, a, b, r = pa.result
        c = pa.c
        v = raw(r)
        ob.ge(f"{t}: below the prime", c, p - 1, v)
        ob.ge(f"{t}: not negative", c, v, 0)
        ob.true(f"{t}: same field", r.prime == p)
        ob.eq(f"{t}: left operand kept", c, raw(a), val(x))
        ob.eq(f"{t}: right operand kept", c, raw(b), val(y))
        if op == "+":
          w = c.sub(v, c.add(val(x), val(y)))
        elif op == "-":
          w = c.sub(v, c.sub(val(x), val(y)))
        elif op == "*":
          w = c.sub(c.mul(v, R), c.mul(val(x), val(y)))
        else:
          # v y = x R modulo p; with a ghost inverse w of y:
          # v y - x R = (v - x w R) y + x R (w y - 1)
          if len(pa.e.inverses) != 1:
            raise Unsupported("no single inverse")
          (key, num, m), = pa.e.inverses
          inv = key_value(c, key)
          iv = V(num, None, None)
          ob.zero_mod(f"{t}: inverse argument", c,
                      c.sub(c.mul(iv, R), val(y))
                      if cls.endswith("Montgomery") else c.sub(iv, val(y)), p)
          # iv * inv = 1, so (x/y) R = x inv when R-scaled operand
          # plain: x inv; Montgomery: y = R iv, x/(iv) * ... = x inv
          w = c.sub(v, c.mul(val(x), inv))
        ob.zero_mod(f"{t}: value", c, w, p)

  def concrete(rng, count, hints):
    for _ in range(max(10, count // 2)):
      p = rng.choice(primes(cls))
      x, y = pick(rng, p), pick(rng, p)
      if rng.random() < .3:
        y = (p - x) % p
      if op == "/" and (y == 0 or p == 2):
        continue
      R = rinv(cls, p, extra)
      u.evals += 1
      try:
        g = raw(f(make(cls, x, p, extra), make(cls, y, p, extra)))
      except Exception as ex:  # pylint: disable=broad-except
        g = repr(ex)[:100]
      w = spec(x, y, p, R)
      if g != w:
        return dict(cls=cls, op=op, width_above=extra, p=hex(p), x=hex(x), y=hex(y),
                    got=hex(g) if isinstance(g, int) else g, want=hex(w))
    return None

  u = Unit(f"{cls} {op}" + ("" if extra is None else
                               f" width {extra} above the prime's"), [FFR + cls + "." + fname] + (
      [FFR + cls + ".barrett_reduction"] if "Barrett" in cls and op in "*/"
      else [FFR + cls + ".montgomery_reduction",
            FFR + cls + ".montgomeryize"] if "Mont" in cls and op in "*/"
      else []), prove, concrete,
           assumes=["the primes listed in the check",
                    "gmpy2.powmod(x, p-2, p) is the inverse of x"]
           if op == "/" else ["the primes listed in the check"])
  return u


def key_value(c, key):
  """The value whose polynomial has this key (a single atom)."""
  for i in range(len(c.atoms)):
    v = c.mk(type(c.poly(1))({(i,): 1}), c.atoms[i].lo, c.atoms[i].hi)
    if c.poly(v).key() == key:
      return v
  raise Unsupported("inverse lost")


def pick(rng, p):
  return rng.choice([0, 1 % p, p - 1, p // 2, rng.randrange(p),
                     rng.randrange(p), rng.randrange(p),
                     (p - 1 - rng.getrandbits(4)) % p,
                     rng.getrandbits(4) % p])


def small(ob, cls, p):
  """Construction and copies at a small prime, for all values."""
  C = repo(FFR + cls)
  R = rinv(cls, p)
  for x in range(p):
    a = C(x, p)
    ob.true(f"p={p}: {x} constructed", raw(a) == x * R % p)
    if not cls.endswith("Montgomery"):
      ob.true(f"p={p}: {x} equals itself in its field only",
              a == C(x, p) and not any(
                  a == C(x, t) for t in PRIMES if t > x and t != p), hard=True)
    a = C(x, repo(ALG + "big_integer").GMPBigInteger(p))
    ob.true(f"p={p}: {x} constructed", raw(a) == x * R % p)
    ob.true(f"p={p}: {x} copied", raw(a.copy()) == raw(a))
    ob.true(f"p={p}: {x} copy with a value", all(
        raw(a.copy(y)) == y for y in range(p)))
    if cls != "FiniteFieldElement":
      i = pow(R, -1, p)
      ob.true(f"p={p}: {x} copy, reduction", all(
          raw(a.copy(z, reduction=True)) == z * i % p for z in range(p * p)))
    if cls.endswith("Montgomery"):
      ob.true(f"p={p}: {x} copy, transform", all(
          raw(a.copy(y, transform=True)) == y * R % p for y in range(p)))
      ob.true(f"p={p}: {x} form", raw(C(x, p).change_montgomery_form()) == x)
  for x in list(range(-2 * p, 0)) + list(range(p, 3 * p)):
    try:
      C(x, p)
      ob.true(f"p={p}: {x} rejected", False)
    except ValueError:
      ob.true(f"p={p}: {x} rejected", True)


def init_unit(cls):
  """The constructor keeps or rejects; get_value/change_montgomery_form give
  the value back; copy variants."""
  mont = cls.endswith("Montgomery")

  def prove(ob):
    for p in primes(cls):
      if p < 14:  # reached by the concrete enumeration below
        small(ob, cls, p)
        continue
      R = rinv(cls, p)
      C = repo(FFR + cls)

      def go(e, p=p):
        x = e.var("x", -p, 2 * p)
        a = C(x, p)
        b = a.copy()
        s = C(0, p)
        return x, a, b, s
      t0 = f"p={p if p < 1 << 20 else f'{p.bit_length()} bits'}"
      for i, pa in enumerate(explore(go)):
        t = f"{t0} path {i}"
        c = pa.c
        if pa.raised is not None:
          if not isinstance(pa.raised, ValueError):
            raise Unsupported(f"raised {pa.raised!r}")
          # rejected only outside [0, p)
          continue
        x, a, b, s = pa.result
        ob.ge(f"{t}: accepted above", c, p - 1, val(x))
        ob.ge(f"{t}: accepted below", c, val(x), 0)
        ob.zero_mod(f"{t}: value", c, c.sub(raw(a), c.mul(val(x), R)), p)
        ob.ge(f"{t}: canonical", c, p - 1, raw(a))
        ob.ge(f"{t}: canonical", c, raw(a), 0)
        ob.eq(f"{t}: copy", c, raw(b), raw(a))

      def inside(e, p=p):
        x = e.var("x", 0, p - 1)
        y = e.var("y", 0, p - 1)
        z = e.var("z", 0, p * p - 1)
        a = C(x, p)
        d = a.copy(y)
        w = a.copy(z, reduction=True)
        g = a.copy(y, transform=True)
        back = None
        if mont:
          back = C(x, p).change_montgomery_form()
          back = (raw(back), raw(back.change_montgomery_form()))
        return x, y, z, a, d, w, g, back
      for i, pa in enumerate(explore(inside)):
        t = f"{t0} inside path {i}"
        c = pa.c
        if pa.raised is not None:
          if isinstance(pa.raised, Unsupported):
            raise pa.raised
          ob.true(f"{t}: does not raise", False, repr(pa.raised))
          continue
        x, y, z, a, d, w, g, back = pa.result
        ob.eq(f"{t}: copy with a value", c, raw(d), val(y))
        if mont:
          ob.eq(f"{t}: leaves Montgomery form", c, back[0], val(x))
          ob.eq(f"{t}: returns to Montgomery form", c, back[1], raw(a))
          ob.zero_mod(f"{t}: copy, transform", c,
                      c.sub(raw(g), c.mul(val(y), R)), p)
          ob.ge(f"{t}: copy, transform canonical", c, p - 1, raw(g))
          ob.zero_mod(f"{t}: copy, reduction", c,
                      c.sub(c.mul(raw(w), R), val(z)), p)
        if cls.endswith("Barrett"):
          ob.zero_mod(f"{t}: copy, reduction", c, c.sub(raw(w), val(z)), p)
        if cls != "FiniteFieldElement":
          ob.ge(f"{t}: copy, reduction canonical", c, p - 1, raw(w))
          ob.ge(f"{t}: copy, reduction canonical", c, raw(w), 0)

  def concrete(rng, count, hints):
    C = repo(FFR + cls)
    big = repo(ALG + "big_integer").GMPBigInteger
    for _ in range(max(10, count // 2)):
      p = rng.choice(primes(cls))
      R = rinv(cls, p)
      x, y = pick(rng, p), pick(rng, p)
      z = rng.choice([rng.randrange(p * p), p * p - 1, (p - 1) ** 2, p - 1, p,
                      x * p % (p * p), x * y])
      u.evals += 1
      bad = None
      try:
        a = C(x, p)
        if raw(a) != x * R % p:
          bad = "constructor"
        elif raw(a.copy()) != raw(a):
          bad = "copy()"
        elif raw(C(x, big(p)) * C(y, big(p))) != raw(a * C(y, p)):
          bad = "prime given as a GMPBigInteger"
        elif raw(a.copy(y)) != y:
          bad = "copy(y)"
        elif mont and raw(a.copy(y, transform=True)) != y * R % p:
          bad = "copy(y, transform)"
        elif mont and raw(a.copy(z, reduction=True)) != z * pow(
            R, -1, p) % p:
          bad = "copy(z, reduction)"
        elif cls.endswith("Barrett") and raw(
            a.copy(z, reduction=True)) != z % p:
          bad = "copy(z, reduction)"
        elif mont and raw(C(x, p).change_montgomery_form()) != x:
          bad = "change_montgomery_form"
        elif not mont and a.get_value() != x:
          bad = "get_value"
        elif (C(x, p) == C(y, p)) != (x == y):
          bad = "=="
        elif any(y < t and C(y, p) == C(y, t) for t in PRIMES if t != p):
          bad = "== across fields"
        for o in (-1, p, p + 1):
          try:
            C(o, p)
            bad = f"accepts {o}"
          except ValueError:
            pass
      except Exception as ex:  # pylint: disable=broad-except
        bad = repr(ex)[:100]
      if bad:
        return dict(cls=cls, p=hex(p), x=hex(x), y=hex(y), z=hex(z), bad=bad)
    return None

  u = Unit(f"{cls} construction and copies", [
      FFR + cls + "." + m for m in (["__init__", "copy"] + (
          ["change_montgomery_form"] if mont else []))], prove, concrete,
           assumes=["the primes listed in the check"])
  return u


def pow_unit():
  """Plain and Barrett powers; exponents listed."""
  exps = [0, 1, 2, 3, 5, 8]

  def prove(ob):
    C = repo(FFR + "FiniteFieldElement")
    for p in PRIMES:
      for n in exps:
        if p < 14:
          for x in range(p):
            ob.true(f"p={p}: {x} ** {n}", raw(C(x, p) ** n) == pow(x, n, p))
            if x and n:
              ob.true(f"p={p}: {x} ** -{n}",
                      raw(C(x, p) ** -n) == pow(x, -n, p))
          continue
        def go(e, p=p, n=n):
          x = e.var("x", 0, p - 1)
          return x, C(x, p) ** n
        for i, pa in enumerate(explore(go)):
          t = f"p of {p.bit_length()} bits ^{n} path {i}"
          if pa.raised is not None:
            if isinstance(pa.raised, Unsupported):
              raise pa.raised
            ob.true(f"{t}: does not raise", False, repr(pa.raised))
            continue
          x, r = pa.result
          c = pa.c
          w = 1
          for _ in range(n):
            w = c.mul(w, val(x))
          ob.zero_mod(f"{t}: value", c, c.sub(raw(r), w), p)
          ob.ge(f"{t}: canonical", c, p - 1, raw(r))
          ob.ge(f"{t}: canonical", c, raw(r), 0)

  def concrete(rng, count, hints):
    C = repo(FFR + "FiniteFieldElement")
    for _ in range(max(10, count // 4)):
      p = rng.choice(PRIMES)
      x, n = pick(rng, p), rng.choice(exps + [rng.randrange(1 << 64), p - 1])
      u.evals += 1
      if x and rng.random() < .3:
        n = -n
      g = raw(C(x, p) ** n)
      if g != pow(x, n, p):
        return dict(op="**", p=hex(p), x=hex(x), n=n, got=hex(g))
    return None

  u = Unit("FiniteFieldElement **", [FFR + "FiniteFieldElement.__pow__"],
           prove, concrete, assumes=["exponents 0, 1, 2, 3, 5, 8 and the "
                                     "primes listed in the check"])
  return u


def mixed_unit():
  """Operands of different fields are rejected."""
  def concrete(rng, count, hints):
    for cls in CLASSES:
      for op, (f, _) in OPS.items():
        a, b = make(cls, 3, 13), make(cls, 3, 251)
        u.evals += 1
        try:
          f(a, b)
        except ValueError:
          continue
        except Exception as ex:  # pylint: disable=broad-except
          return dict(cls=cls, op=op, got=repr(ex)[:100])
        return dict(cls=cls, op=op, got="no error for different primes")
    return None

  def prove(ob):
    for cls in CLASSES:
      for op, (f, _) in OPS.items():
        def go(e, cls=cls, f=f):
          # any other prime, any values
          pv = e.var("p", 2, 1 << 400)
          e.require(pv != Q)
          a = make(cls, e.var("x", 0, Q - 1), Q)
          b = make(cls, e.var("y", 0, None), 13)
          b.prime = repo(ALG + "big_integer").GMPBigInteger(pv)
          return f(a, b)
        for i, pa in enumerate(explore(go)):
          ob.true(f"{cls} {op} path {i}: rejected",
                  isinstance(pa.raised, ValueError), repr(pa.raised))

  u = Unit("operands of different fields are rejected",
           [FFR + c for c in CLASSES], prove, concrete)
  return u


BIGOPS = [("+", "__add__", lambda a, b: a + b),
          ("-", "__sub__", lambda a, b: a - b),
          ("*", "__mul__", lambda a, b: a * b)]


def big_unit():
  """GMPBigInteger is exact integer arithmetic."""
  mods = lambda: [repo(ALG + "big_integer")]

  def prove(ob):
    G = repo(ALG + "big_integer").GMPBigInteger
    for wrap in (True, False):
      w = "big" if wrap else "int"

      def go(e, wrap=wrap):
        x = e.var("x", -(1 << 800), 1 << 800)
        y = e.var("y", -(1 << 800), 1 << 800)
        a, b = G(x), (G(y) if wrap else y)
        res = {n: f(a, b) for _, n, f in BIGOPS}
        return x, y, res
      for i, pa in enumerate(explore(go)):
        if pa.raised is not None:
          raise Unsupported(repr(pa.raised))
        x, y, res = pa.result
        for s, n, f in BIGOPS:
          ob.true(f"{w} {n} type", isinstance(res[n], G))
          ob.eq(f"{w} {n} path {i}", pa.c, raw(res[n]),
                val(f(x, y)))
      for name, f in (("__eq__", lambda a, b: a == b),
                      ("__ne__", lambda a, b: a != b),
                      ("__lt__", lambda a, b: a < b),
                      ("__le__", lambda a, b: a <= b),
                      ("__gt__", lambda a, b: a > b),
                      ("__ge__", lambda a, b: a >= b)):
        def cmp(e, wrap=wrap, f=f):
          x = e.var("x", -(1 << 800), 1 << 800)
          y = e.var("y", -(1 << 800), 1 << 800)
          return bool(f(G(x), G(y) if wrap else y)), bool(f(x, y))
        for i, pa in enumerate(explore(cmp)):
          if pa.raised is not None:
            raise Unsupported(repr(pa.raised))
          ob.true(f"{w} {name} path {i}", pa.result[0] == pa.result[1])
      for k in (1, 2, 3, 7, 255, 256, 65521, Q, 1 << 377):
        def div(e, wrap=wrap, k=k):
          x = e.var("x", -(1 << 800), 1 << 800)
          b = G(k) if wrap else k
          return x, G(x) / b, G(x) % b
        for i, pa in enumerate(explore(div)):
          if pa.raised is not None:
            raise Unsupported(repr(pa.raised))
          x, q, r = pa.result
          c = pa.c
          ob.eq(f"{w} division by {k.bit_length()} bits path {i}", c,
                c.add(c.mul(raw(q), k), raw(r)), val(x))
          ob.ge(f"{w} remainder by {k.bit_length()} bits path {i}", c, k - 1,
                raw(r))
          ob.ge(f"{w} remainder by {k.bit_length()} bits path {i}", c, raw(r),
                0)
      for k in (0, 1, 8, 64, 377, 754, 1024, 3000):
        def shift(e, wrap=wrap, k=k):
          x = e.var("x", 0, 1 << 800)
          b = G(k) if wrap else k
          return x, G(x) >> b, G(x) << b, G(x) & (
              G((1 << k) - 1) if wrap else (1 << k) - 1)
        for i, pa in enumerate(explore(shift)):
          if pa.raised is not None:
            raise Unsupported(repr(pa.raised))
          x, q, l, r = pa.result
          c = pa.c
          ob.eq(f"{w} >> {k} path {i}", c, c.add(
              c.mul(raw(q), 1 << k), raw(r)), val(x))
          ob.ge(f"{w} & {k} path {i}", c, (1 << k) - 1, raw(r))
          ob.ge(f"{w} & {k} path {i}", c, raw(r), 0)
          ob.eq(f"{w} << {k} path {i}", c, raw(l), c.mul(val(x), 1 << k))

  def concrete(rng, count, hints):
    G = repo(ALG + "big_integer").GMPBigInteger
    for _ in range(max(10, count // 2)):
      x = rng.getrandbits(rng.choice([1, 4, 64, 377, 800, 6000])) * rng.choice(
          [1, 1, -1])
      y = rng.choice([x, -x, 1, rng.getrandbits(rng.choice([1, 3, 64, 377]))])
      k = rng.choice([0, 1, 8, 64, 377, 1025, 5000])
      u.evals += 1
      for w in (True, False):
        b = G(y) if w else y
        a = G(x)
        want = dict(add=x + y, sub=x - y, mul=x * y, eq=x == y, ne=x != y,
                    lt=x < y, le=x <= y, gt=x > y, ge=x >= y, rs=x >> k,
                    ls=x << k, an=x & y)
        got = dict(add=a + b, sub=a - b, mul=a * b, eq=a == b, ne=a != b,
                   lt=a < b, le=a <= b, gt=a > b, ge=a >= b,
                   rs=a >> (G(k) if w else k), ls=a << (G(k) if w else k),
                   an=a & b)
        if y:
          want.update(div=x // y, mod=x % y)
          got.update(div=a / b, mod=a % b)
        if y > 0:
          want.update(pow=pow(x, k, y))
          got.update(pow=a.__pow__(k, y))
        if x > 0 and x.bit_length() < 48:
          want.update(log=(x - 1).bit_length())
          got.update(log=a.ceil_log2())
        for n in want:
          g = got[n]
          g = g if isinstance(g, bool) else raw(g) if isinstance(
              g, G) else g
          if g != want[n]:
            return dict(op=n, x=hex(x), y=hex(y), k=k, wrapped=w,
                        got=str(g)[:200], want=str(want[n])[:200])
    return None

  u = Unit("GMPBigInteger", [BIG + m for m in (
      "__add__", "__sub__", "__mul__", "__truediv__", "__mod__", "__eq__",
      "__ne__", "__lt__", "__le__", "__gt__", "__ge__", "__lshift__",
      "__rshift__", "__and__")], prove, concrete,
           assumes=["divisors and shifts listed in the check",
                    "ceil_log2 and unreduced powers: concrete only"])
  return u


LAZY_P = [251, 65521, (1 << 127) - 1, Q, (1 << 381) + 11, (1 << 384) - 317]


def lazy_unit(p, batch):
  t = (p.bit_length() + 7) // 8
  bound = p * 65536

  def prove(ob):
    m = repo(ALG + "lazy_reduction")

    def go(e):
      a = [e.var(f"a{i}", 0, bound - 1) for i in range(batch)]
      b = [e.var(f"b{i}", 0, bound - 1) for i in range(batch)]
      return a, b, m.lazy_reduction_via_matrix(list(a), list(b), p)
    ps = pysym.explore(go, [m], limit=16, extra=nparr.proxies())
    for k, pa in enumerate(ps):
      if pa.raised is not None:
        ob.true(f"path {k}: does not raise", False, repr(pa.raised))
        continue
      a, b, o = pa.result
      c = pa.c
      ob.true(f"path {k}: one result per pair", len(o) == batch, str(len(o)))
      for i in range(batch):
        ob.zero_mod(f"path {k} result {i}", c,
                    c.sub(val(o[i]), c.mul(val(a[i]), val(b[i]))), p)
        ob.ge(f"path {k} result {i} range", c, bound - 1, val(o[i]))
        ob.ge(f"path {k} result {i} not negative", c, val(o[i]), 0)

  def concrete(rng, count, hints):
    f = repo(LZ + "lazy_reduction_via_matrix")
    for _ in range(max(4, count // 8)):
      n = rng.choice([1, batch])
      a = [rng.choice([0, bound - 1, rng.randrange(bound), p, p - 1,
                       (1 << 8 * t) % bound]) for _ in range(n)]
      b = [rng.choice([0, bound - 1, rng.randrange(bound), p, p - 1,
                       (1 << 8 * t) - 1]) for _ in range(n)]
      o = f(a, b, p)
      u.evals += 1
      for i in range(n):
        if len(o) != n or (o[i] - a[i] * b[i]) % p or not 0 <= o[i] < bound:
          return dict(function="lazy_reduction_via_matrix", p=hex(p),
                      a=hex(a[i]), b=hex(b[i]), got=hex(int(o[i])))
    return None

  u = Unit(f"lazy_reduction_via_matrix, p of {p.bit_length()} bits, "
           f"batch {batch}",
           [LZ + "lazy_reduction_via_matrix", LZ + "chunk_decomposition",
            LZ + "byte_len"], prove, concrete)
  return u


def util_units():
  out = []
  U = repo

  def one(base, n):
    def prove(ob):
      m = repo(ALG + "util")

      def go(e):
        x = e.var("x", 0, (1 << (base * n)) - 1)
        a = m.int_to_array(x, base, n)
        return x, a, m.array_to_int(a, base)
      for i, pa in enumerate(pysym.explore(go, [m], limit=120,
                                           extra=nparr.proxies())):
        if pa.raised is not None:
          ob.true(f"path {i}: does not raise", False, repr(pa.raised))
          continue
        x, a, y = pa.result
        c = pa.c
        fl = [val(v) for v in np.asarray(a, dtype=object).ravel()]
        ob.true(f"path {i}: {n} chunks", len(fl) == n, str(len(fl)))
        ob.eq(f"path {i}: value", c, c.total(
            [c.mul(l, 1 << (base * k)) for k, l in enumerate(fl)]), val(x))
        for k, l in enumerate(fl):
          ob.ge(f"path {i}: chunk {k}", c, (1 << base) - 1, l)
          ob.ge(f"path {i}: chunk {k}", c, l, 0)
        ob.eq(f"path {i}: back", c, val(y), val(x))

    def concrete(rng, count, hints):
      m = repo(ALG + "util")
      for _ in range(max(4, count // 8)):
        xs = [rng.getrandbits(rng.randrange(base * n + 1)) for _ in range(3)]
        u.evals += 1
        a = m.int_list_to_array(xs, base, n)
        if a.shape != (3, n) or [m.array_to_int(r, base) for r in a] != xs:
          return dict(function="int_list_to_array", xs=[hex(x) for x in xs])
        for x in xs:
          a = m.int_to_array(x, base, n)
          if sum(int(v) << base * k for k, v in enumerate(a)) != x:
            return dict(function="int_to_array", x=hex(x))
      return None

    u = Unit(f"reference int_to_array base {base} size {n}",
             [UTR + "int_to_array", UTR + "array_to_int",
              UTR + "int_list_to_array"], prove, concrete)
    return u
  out.append(one(16, 24))
  out.append(one(32, 12))
  out.append(one(8, 48))
  out.append(one(64, 6))
  return out


# -- residue number system ---------------------------------------------------


class Cfg:
  """The module's own set-up, as its main program does it."""

  def __init__(self, q=Q):
    m = repo(ALG + "rns_mod_reduce")
    nb = 2
    nr = (q.bit_length() + 15) // 16 + 1
    total = ((q * 256 * nb * nr) ** 2) * 4 * 2
    self.q = q
    self.total = total
    self.m, self.t = m.find_moduli(total, 16)
    self.n = len(self.m)
    self.M = math.prod(self.m)
    self.icrt = m.rns_icrt_factors_compute(self.M, self.m)
    self.mat, self.cor = m.rns_coefficients_precompute(
        self.icrt, self.m, nb, 16, self.M, q)

  def sys(self):
    """The meaning of the matrices, in the layout vc.rns expects."""
    a = np.array(self.mat, dtype=object)
    k = self.n + 1
    assert a.shape == (2 * self.n, 2 * k), a.shape
    inter = np.empty_like(a)
    inter[:, 0::2], inter[:, 1::2] = a[:, :k], a[:, k:]

    class T:
      MODULI = self.m
      RNS_MODULI_T = self.t
      RNS_PRECISION = 16
      RNS_MAT = (inter, np.array(self.cor, dtype=object))
      MODULI_SUB = [0] * self.n
    return rns.Sys(T)


QS = [Q, (1 << 255) - 19, (1 << 376) - 57]
_cfg = {}


def cfg(q):
  if q not in _cfg:
    _cfg[q] = Cfg(q)
  return _cfg[q]


def setup_unit(q):
  def facts():
    g = Cfg(q)
    yield "offsets", len(g.m) == len(g.t) and all(
        ((1 << 16) - t) % m == 0 and 0 <= t < 256 for m, t in zip(g.m, g.t))
    yield "coprime", all(math.gcd(a, b) == 1 for i, a in enumerate(g.m)
                         for b in g.m[:i])
    yield "large enough", g.M > g.total
    for i, f in enumerate(g.icrt):
      yield f"interpolation factor {i}", f % g.m[i] == 1 and f % (
          g.M // g.m[i]) == 0 and 0 <= f < g.M
    s = g.sys()
    yield "shape", s.shape_ok
    for b, (r, ch) in enumerate(zip(s.g, s.chunk)):
      yield f"matrix row {b}", (r - ch) % q == 0
      yield f"quotient estimate {b}", s.sqe[b] * s.M >= ch << 16
    yield "correction", (s.w + s.M) % q == 0
    yield "operands below q", (q - 1) ** 2 <= s.xmax

  def prove(ob):
    for n, ok in facts():
      ob.true(n, bool(ok))

  def concrete(rng, count, hints):
    for n, ok in facts():
      u.evals += 1
      if not ok:
        return dict(q=hex(q), fact=n)
    return None

  u = Unit(f"residue system set-up, q of {q.bit_length()} bits",
           [RM + f for f in ("find_moduli", "rns_icrt_factors_compute",
                             "rns_coefficients_precompute", "to_tuple")],
           prove, concrete)
  return u


def hw_unit():
  """hardware_friendly_mod_reduce for every 2^16 - t with t < 256."""
  ts = list(range(255))

  def prove(ob):
    d = limbs.dom()
    c = d.c
    f = repo(RM + "hardware_friendly_mod_reduce")
    x = jx.sym_array(d, "x", (1, len(ts)), np.uint32, 0, (1 << 32) - 1)
    (o,), _ = run(lambda x: f(x, np.array(ts, np.uint16)), [(x, np.uint32)],
                  d, ob)
    ob.true("shape", o.shape == x.shape, str(o.shape))
    for j, t in enumerate(ts):
      ob.zero_mod(f"t={t}", c, c.sub(o[0, j], x[0, j]), (1 << 16) - t)
      ob.ge(f"t={t} range", c, 65535, o[0, j])
      ob.ge(f"t={t} range", c, o[0, j], 0)

  def concrete(rng, count, hints):
    f = repo(RM + "hardware_friendly_mod_reduce")
    for _ in range(max(4, count // 4)):
      x = np.array([[rng.choice([0, (1 << 32) - 1, rng.getrandbits(32),
                                 rng.getrandbits(16) << 16 | 65535,
                                 65535 << 16 | rng.getrandbits(16),
                                 rng.getrandbits(17)]) for _ in ts]],
                   np.uint32)
      o = np.asarray(f(x, np.array(ts, np.uint16)))
      u.evals += 1
      for j, t in enumerate(ts):
        if (int(o[0, j]) - int(x[0, j])) % (65536 - t):
          return dict(function="hardware_friendly_mod_reduce",
                      x=int(x[0, j]), t=t, got=int(o[0, j]))
    return None

  u = Unit("hardware_friendly_mod_reduce",
           [RM + "hardware_friendly_mod_reduce"], prove, concrete)
  return u


@contextlib.contextmanager
def traced_reconstruct(m):
  """Lets the function be traced up to rns_reconstruct, by its contract."""
  from jax._src import core
  T = core.Tracer
  had = "tolist" in T.__dict__
  old = T.__dict__.get("tolist")
  T.tolist = lambda self: self
  try:
    with paths.patched(m, "rns_reconstruct", lambda x, *a: x):
      yield
  finally:
    if had:
      T.tolist = old
    else:
      del T.tolist


def reduce_unit(q, rows):
  def args():
    import jax.numpy as jnp
    g = cfg(q)
    return (jnp.array(g.m, jnp.uint32), jnp.array(g.t, jnp.uint16),
            jnp.array(g.mat, jnp.uint8), jnp.array(g.cor, jnp.uint16),
            g.icrt, g.M)

  def prove(ob):
    m = repo(ALG + "rns_mod_reduce")
    g = cfg(q)
    s = g.sys()
    d = limbs.dom()
    c = d.c
    a = jx.sym_array(d, "a", (rows, g.n), np.uint32, 0, 65535)
    b = jx.sym_array(d, "b", (rows, g.n), np.uint32, 0, 65535)
    got = []
    ex = args()

    def go(x, y):
      with traced_reconstruct(m):
        return m.rns_mod_reduce(x, y, *ex)
    # cut after the first per-residue reduction: its result is a residue word
    # of the product, anything else about it is forgotten
    seen = []
    hw = m.hardware_friendly_mod_reduce

    import jax

    def cut(x, t):
      return jax.jit(hw_named)(x, t)

    def hw_named(x, t):
      return hw(x, t)

    def handler(interp, closed, ins):
      if seen or not jx.is_concrete(ins[1]):
        return None
      ts = [int(v) for v in np.asarray(ins[1]).ravel()]
      if ts != list(g.t) or np.asarray(ins[0], object).shape != (rows, g.n):
        return None
      o = jx.sym_array(d, "o", (rows, g.n), np.uint16, 0, 65535)
      seen.append((jx.to_obj(ins[0]), o))
      return [o]

    with paths.patched(m, "hardware_friendly_mod_reduce", cut):
      outs, _ = run(go, [(a, np.uint32), (b, np.uint32)], d, ob,
                    contracts={"hw_named": handler})
    if len(outs) != 1 or len(seen) != 1:
      raise Unsupported("call structure")
    o = outs[0]
    ob.true("shape", o.shape == (rows, g.n), str(o.shape))
    for r in range(rows):
      for j in range(g.n):
        ob.eq(f"row {r} product {j}", c, seen[0][0][r, j],
              c.mul(a[r, j], b[r, j]))
      red_obligations(ob, c, s, q, list(seen[0][1][r]), list(o[r]),
                      f"row {r}")

  def concrete(rng, count, hints):
    m = repo(ALG + "rns_mod_reduce")
    g = cfg(q)
    s = g.sys()
    ex = args()
    for _ in range(max(2, min(count // 8, 30))):
      xs = [rng.choice([0, 1, q - 1, rng.randrange(q), rng.randrange(q),
                        q // 2]) for _ in range(8)]
      ys = [rng.choice([0, 1, q - 1, rng.randrange(q), rng.randrange(q)])
            for _ in range(8)]
      o = m.rns_mod_reduce(
          np.stack([s.enc(x, rng, np.uint32) for x in xs]),
          np.stack([s.enc(y, rng, np.uint32) for y in ys]), *ex)
      u.evals += len(xs)
      for x, y, v in zip(xs, ys, o):
        if (x * y - v) % q or not 0 <= v <= s.ymax or len(o) != len(xs):
          return dict(function="rns_mod_reduce", q=hex(q), a=hex(x),
                      b=hex(y), got=hex(int(v)), want=hex(x * y % q))
    return None

  u = Unit(f"rns_mod_reduce, q of {q.bit_length()} bits, {rows} rows",
           [RM + "rns_mod_reduce"], prove, concrete)
  return u


def red_obligations(ob, c, s, q, cin, out, tag):
  from vc.checks import c18
  c18.red_spec_obligations(ob, c, s, cin, out, tag, q)


def reconstruct_unit(q):
  """rns_reconstruct and to_rns are inverse; arbitrary residue words."""
  def prove(ob):
    m = repo(ALG + "rns_mod_reduce")
    g = cfg(q)

    def go(e):
      rs = [[e.var(f"r{i}_{j}", 0, 65535) for j in range(g.n)]
            for i in range(2)]
      x = e.var("x", 0, g.M - 1)
      return rs, m.rns_reconstruct(rs, g.M, g.icrt), x, m.to_rns(x, g.m)
    for i, pa in enumerate(pysym.explore(go, [m], limit=8)):
      if pa.raised is not None:
        ob.true(f"path {i}: does not raise", False, repr(pa.raised))
        continue
      rs, y, x, res = pa.result
      c = pa.c
      ob.true("rows", len(y) == 2 and len(res) == g.n)
      for r in range(2):
        for j, mod in enumerate(g.m):
          ob.zero_mod(f"row {r} residue {j}", c,
                      c.sub(val(y[r]), val(rs[r][j])), mod)
        ob.ge(f"row {r} range", c, g.M - 1, val(y[r]))
        ob.ge(f"row {r} range", c, val(y[r]), 0)
      for j, mod in enumerate(g.m):
        ob.zero_mod(f"to_rns {j}", c, c.sub(val(res[j]), val(x)), mod)
        ob.ge(f"to_rns {j} canonical", c, mod - 1, val(res[j]))
        ob.ge(f"to_rns {j} canonical", c, val(res[j]), 0)

  def concrete(rng, count, hints):
    m = repo(ALG + "rns_mod_reduce")
    g = cfg(q)
    for _ in range(max(4, count // 8)):
      x = rng.choice([0, 1, g.M - 1, rng.randrange(g.M), q])
      u.evals += 1
      r = m.to_rns(x, g.m)
      if any(v != x % mod for v, mod in zip(r, g.m)) or m.rns_reconstruct(
          [r], g.M, g.icrt) != [x]:
        return dict(function="rns_reconstruct", x=hex(x))
    return None

  u = Unit(f"rns_reconstruct, q of {q.bit_length()} bits",
           [RM + "rns_reconstruct", RM + "to_rns"], prove, concrete)
  return u


def units(tier):
  us = []
  for cls in CLASSES:
    us.append(init_unit(cls))
    for op in OPS:
      us.append(op_unit(cls, op))
    if cls != "FiniteFieldElement":
      for ex in (0, 1, 3, 6, 7):
        us.append(op_unit(cls, "*", ex))
      us.append(op_unit(cls, "/", 7))
  us.append(pow_unit())
  us.append(mixed_unit())
  us.append(big_unit())
  for p in LAZY_P:
    us.append(lazy_unit(p, 2))
  us += util_units()
  for q in QS:
    us.append(setup_unit(q))
    us.append(reconstruct_unit(q))
    us.append(reduce_unit(q, 2))
  us.append(hw_unit())
  return us
