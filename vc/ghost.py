"""Abstract group elements for code that only moves and adds points.

The multi-scalar code treats points as opaque blocks of words: it selects,
gathers and scatters them, tests them for equality or for zero, and combines
them with the point operations of the curve module.  Here every block carries
a ghost, a formal integer combination of the input points, and the point
operations act through their contracts on the ghosts, so the obligations are
identities between formal sums: they hold in every commutative group.

Elements of the arrays are Python integers (known words), `Tok` (word `l` of
coordinate `c` of the representation of a ghost) and, where a comparison of
unknown words is meant, `Eq`.
"""

import numpy as np

from . import jx
from .jx import to_obj
from .poly import Unsupported


def lin(**kw):
  return {k: v for k, v in kw.items() if v}


def plus(a, b, k=1):
  out = dict(a)
  for n, v in b.items():
    out[n] = out.get(n, 0) + k * v
    if not out[n]:
      del out[n]
  return out


def times(a, k):
  return {n: v * k for n, v in a.items() if v * k}


def multiple(d, e):
  """d = k e for an integer k."""
  if not d:
    return True
  if not e or set(d) != set(e):
    return False
  n = next(iter(e))
  if d[n] % e[n]:
    return False
  return times(e, d[n] // e[n]) == d


class G:
  """A ghost: kind pt, zero (XYZZ block with zz = 0) or junk."""

  __slots__ = ("kind", "lin", "why")

  def __init__(self, kind, lin_=None, why=""):
    self.kind, self.lin, self.why = kind, lin_ or {}, why

  def __repr__(self):
    return f"{self.kind}{self.lin}{self.why}"


class Tok:
  __slots__ = ("g", "c", "l")

  def __init__(self, g, c, l):
    self.g, self.c, self.l = g, c, l

  def key(self):
    return (id(self.g), self.c, self.l)

  def __repr__(self):
    return f"<{self.g}.{self.c}.{self.l}>"


class Eq:
  """Conjunction of word equalities (neg: its negation)."""

  __slots__ = ("pairs", "neg")

  def __init__(self, pairs, neg=False):
    self.pairs, self.neg = pairs, neg

  def inv(self):
    return Eq(self.pairs, not self.neg)

  def same(self, o):
    return self.neg == o.neg and set(self.pairs) == set(o.pairs)


class GhostDom(jx.IntDom):
  """kind: 'xyzz' (zero is any block with zz = 0; addition is not complete) or
  'twisted' (identity is one known block; addition is complete)."""

  def __init__(self, kind, words, identity=None):
    super().__init__()
    self.kind, self.L = kind, words
    self.identity = identity  # (4, L) ints, twisted only
    self.cache = {}

  def is_sym(self, x):
    return isinstance(x, (Tok, Eq)) or super().is_sym(x)

  # -- blocks -------------------------------------------------------------
  def block(self, g):
    """(4, L) words representing the ghost."""
    out = np.empty((4, self.L), dtype=object)
    for c in range(4):
      for l in range(self.L):
        out[c, l] = 0 if g.kind == "zero" and c == 2 else Tok(g, c, l)
    return out

  def point(self, name):
    return self.block(G("pt", {name: 1}))

  def zero(self):
    """The blank block of the code."""
    if self.kind == "twisted":
      return self.identity.astype(object)
    return np.zeros((4, self.L), dtype=int).astype(object)

  def read(self, col):
    """Ghost of a (4, L) block of words."""
    e = col[0, 0]
    if isinstance(e, Tok):
      g = e.g
      ok = all((isinstance(x := col[c, l], Tok) and x.g is g and x.c == c
                and x.l == l) or (g.kind == "zero" and c == 2 and
                                  not isinstance(x, Tok) and x == 0)
               for c in range(4) for l in range(self.L))
      return g if ok else G("junk", why=" mixed words")
    if any(isinstance(x, Eq) for x in col.ravel()):
      raise Unsupported("truth value used as a word")
    if self.kind == "xyzz":
      if all(not isinstance(x, Tok) and x == 0 for x in col[2]):
        return G("zero")
      return G("junk", why=" mixed words")
    if all(not isinstance(x, Tok) for x in col.ravel()) and (
        col == self.identity).all():
      return G("pt")
    return G("junk", why=" mixed words")

  # -- words ----------------------------------------------------------------
  def convert(self, x, src, dst):
    if isinstance(x, Tok):
      if src == dst:
        return x
      if dst[2]:
        raise Unsupported("truth value of a word of a point")
      # a wider integer type holds the same words
      if src[0] != "f" and dst[0] != "f" and dst[0] - bool(dst[1]) >= src[0]:
        return x
      if src[0] != "f" and dst[0] == 16 and not dst[1]:
        return x  # words are below 2**16 (the arrays are uint16)
      raise Unsupported("conversion of a word of a point")
    if isinstance(x, Eq):
      return x
    return super().convert(x, src, dst)

  def op(self, name, dt, xs, params=None):
    if not any(isinstance(x, (Tok, Eq)) for x in xs):
      return super().op(name, dt, xs, params)
    if name in ("eq", "ne"):
      r = self.equal(*xs)
      return self.inv(r) if name == "ne" else r
    if name == "not":
      return self.inv(xs[0])
    if name in ("and", "or", "mul", "min", "max"):
      a, b = xs
      if not isinstance(a, Eq):
        a, b = b, a
      if isinstance(a, Tok) or isinstance(b, Tok):
        raise Unsupported(f"{name} of a word of a point")
      unit = 1 if name in ("and", "mul", "min") else 0
      if not isinstance(b, Eq):
        return a if bool(b) == bool(unit) else 1 - unit
      if a.same(b):
        return a
      if name in ("and", "mul", "min"):
        return self.all_of([a, b])
      a, b = self.settle(a), self.settle(b)
      if isinstance(a, Eq) and isinstance(b, Eq):
        raise Unsupported("disjunction of two unknown comparisons")
      return self.op(name, dt, [a, b])
    if name == "select":
      p, cases = xs[0], xs[1:]
      if not isinstance(p, (Eq, Tok)):
        return cases[int(p)]
    raise Unsupported(f"{name} on words of a point")

  def inv(self, x):
    return x.inv() if isinstance(x, Eq) else 1 - int(x)

  def equal(self, a, b):
    if isinstance(b, Eq):
      a, b = b, a
    if isinstance(a, Eq):
      if isinstance(b, (Eq, Tok)):
        raise Unsupported("comparison of comparisons")
      return a if b == 1 else a.inv() if b == 0 else 0
    if isinstance(a, Tok) and isinstance(b, Tok) and a.key() == b.key():
      return 1
    if not isinstance(a, Tok):
      a, b = b, a
    return Eq(((a, b),))

  def all_of(self, xs):
    pairs, seen = [], set()
    for x in xs:
      if isinstance(x, Eq):
        if x.neg:
          x = self.settle(x)
          if isinstance(x, Eq):
            raise Unsupported("conjunction with a negated comparison")
          if not x:
            return 0
          continue
        for a, b in x.pairs:
          k = (a.key(), b.key() if isinstance(b, Tok) else b)
          if k not in seen:
            seen.add(k)
            pairs.append((a, b))
      elif not x:
        return 0
    return self.settle(Eq(tuple(pairs))) if pairs else 1

  def any_of(self, xs):
    r = 0
    for x in xs:
      r = self.op("or", (1, False, True), [r, x])
    return r

  def settle(self, e):
    """Decides a comparison where the contracts decide it."""
    if not isinstance(e, Eq):
      return e
    if self.kind == "xyzz":
      # zz of a point that is not zero has a word that is not zero
      by = {}
      for a, b in e.pairs:
        if not isinstance(b, Tok) and b == 0 and a.c == 2 and (
            a.g.kind == "pt"):
          by.setdefault(id(a.g), set()).add(a.l)
      if any(len(s) == self.L for s in by.values()):
        return 1 if e.neg else 0
    return e

  def sides(self, e):
    """Ghosts compared by a complete block comparison, or None."""
    if len(e.pairs) != 4 * self.L:
      return None
    a = {id(x.g): x.g for x, _ in e.pairs}
    if {(x.c, x.l) for x, _ in e.pairs} != {
        (c, l) for c in range(4) for l in range(self.L)} or len(a) != 1:
      return None
    A = next(iter(a.values()))
    other = np.empty((4, self.L), dtype=object)
    for x, y in e.pairs:
      if isinstance(y, Tok) and (y.c, y.l) != (x.c, x.l):
        return None
      other[x.c, x.l] = y
    return A, self.read(other)

  def merge(self, e, t, f):
    """Ghost of `where(e, t, f)` for an undecided comparison e."""
    if e.neg:
      return self.merge(e.inv(), f, t)
    if t is f:
      return t
    if t.kind == "junk" or f.kind == "junk":
      return G("junk", why=f" one of {t}, {f}")
    if t.kind == f.kind and t.lin == f.lin:
      return G(t.kind, t.lin)
    s = self.sides(e)
    if s and t.kind == f.kind and all(x.kind != "junk" for x in s):
      # where the blocks agree the two points are the same
      if multiple(plus(t.lin, f.lin, -1), plus(s[0].lin, s[1].lin, -1)):
        return G(f.kind, f.lin)
    return G("junk", why=f" one of {t}, {f}")

  # -- point operations through their contracts --------------------------
  def padd(self, a, b):
    if "junk" in (a.kind, b.kind):
      return G("junk", why=f" sum of {a}, {b}")
    if self.kind == "xyzz":
      if "zero" in (a.kind, b.kind):
        return G("junk", why=f" incomplete addition of {a} and {b}")
      s = plus(a.lin, b.lin)
      if a.lin == b.lin or not s:
        return G("junk", why=f" incomplete addition of {a} and {b}")
      return G("pt", s)
    return G("pt", plus(a.lin, b.lin))

  def pdul(self, a):
    if a.kind == "pt":
      return G("pt", times(a.lin, 2))
    return G(a.kind, why=a.why)

  def pneg(self, a):
    if a.kind == "pt":
      return G("pt", times(a.lin, -1))
    return G(a.kind, why=a.why)

  def handler(self, f):
    """Contract of a packed operation on (4, batch, L) blocks."""
    def h(interp, closed, ins):
      del interp
      arrs = [to_obj(x) for x in ins]
      arrs = [a for a in arrs if a.ndim == 3]
      shape = closed.jaxpr.outvars[0].aval.shape
      if any(a.shape != shape for a in arrs) or shape[0] != 4 or (
          shape[2] != self.L):
        raise Unsupported("point operation on blocks of another shape")
      out = np.empty(shape, dtype=object)
      for i in range(shape[1]):
        g = f(*[self.read(a[:, i]) for a in arrs])
        out[:, i] = self.block(g)
      return [out]
    h.always = True
    return h

  def contracts(self, tag):
    return {f"padd_{tag}_pack": self.handler(self.padd),
            f"pdul_{tag}_pack": self.handler(self.pdul),
            f"pneg_{tag}_pack": self.handler(self.pneg)}


class GhostInterp(jx.Interp):
  """Selection on an undecided comparison works on whole blocks."""

  def select(self, ins, avals, out_aval):
    pred = to_obj(ins[0])
    if not any(isinstance(x, Eq) for x in pred.ravel()):
      return super().select(ins, avals, out_aval)
    shape = out_aval.shape
    dom = self.dom
    pred = np.broadcast_to(pred, shape)
    f, t = [to_obj(x) for x in ins[1:]]
    if len(shape) == 1 or not any(
        isinstance(x, Tok) for x in list(t.ravel()) + list(f.ravel())):
      raise Unsupported("selection of words by an unknown comparison")
    if len(shape) != 3 or shape[0] != 4 or shape[2] != dom.L:
      raise Unsupported("selection of part of a block")
    out = np.empty(shape, dtype=object)
    for i in range(shape[1]):
      p = pred[0, i, 0]
      for x in pred[:, i].ravel():
        if x is not p and not (isinstance(x, Eq) and isinstance(p, Eq) and
                               x.same(p)) and not (
                                   not isinstance(x, Eq) and
                                   not isinstance(p, Eq) and x == p):
          raise Unsupported("selection of part of a block")
      p = dom.settle(p)
      if not isinstance(p, Eq):
        out[:, i] = t[:, i] if p else f[:, i]
      else:
        out[:, i] = dom.block(dom.merge(p, dom.read(t[:, i]),
                                        dom.read(f[:, i])))
    return out


def run(fn, args, dom, tag, **kw):
  """Result blocks of fn, through the contracts of the point operations."""
  flat, _, _ = jx.run_sym(fn, args, dom, contracts=dom.contracts(tag),
                          interp=GhostInterp, **kw)
  return to_obj(flat[0])
