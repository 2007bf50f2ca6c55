"""Polynomials and rational functions over the curve's prime field."""

from .limbs import Q
from .poly import Ctx, P, padd, pconst, pscale


class Ring:
  """Z/q[variables], on poly.P."""

  def __init__(self, q=Q):
    self.q = q
    self.c = Ctx()

  def var(self, name):
    return self.c.var(name, 0, self.q - 1).p

  def norm(self, p):
    return P({m: k % self.q for m, k in p.t.items() if k % self.q})

  def const(self, k):
    return self.norm(pconst(int(k)))

  def add(self, *ps):
    r = P({})
    for p in ps:
      r = padd(r, p)
    return self.norm(r)

  def sub(self, a, b):
    return self.norm(padd(a, b, -1))

  def mul(self, *ps):
    r = pconst(1)
    for p in ps:
      r = self.norm(self.c.pmul(r, p))
    return r

  def scale(self, a, k):
    return self.norm(pscale(a, k % self.q))

  def pow(self, a, n):
    r = pconst(1)
    for _ in range(n):
      r = self.mul(r, a)
    return r

  def eq(self, a, b):
    return not self.sub(a, b).t

  def subst(self, p, atom, powers):
    """Replaces atom^e by powers(e) (a polynomial)."""
    out = P({})
    for m, k in p.t.items():
      e = sum(1 for i in m if i == atom)
      rest = P({tuple(i for i in m if i != atom): k})
      out = padd(out, self.mul(rest, powers(e)) if e else rest)
    return self.norm(out)

  def degree(self, p, atom):
    return max([sum(1 for i in m if i == atom) for m in p.t] or [0])


def atom(p):
  ((m, _),) = p.t.items()
  return m[0]


def power_product(R, p, factors):
  """p == c * prod f_i^e_i for some exponents and c != 0?

  factors: list of (polynomial, lead) where lead is an atom whose degree in the
  factor is known and which no other factor contains.  Sound: on success p
  vanishes only where a factor does.
  """
  if not p.t:
    return False
  prod = pconst(1)
  for f, a in factors:
    da = R.degree(f, a)
    e = R.degree(p, a)
    if e % da:
      return False
    prod = R.mul(prod, R.pow(f, e // da))
  m = next(iter(prod.t))
  if m not in p.t:
    return False
  c = p.t[m] * pow(prod.t[m], -1, R.q) % R.q
  return R.eq(p, R.scale(prod, c))
