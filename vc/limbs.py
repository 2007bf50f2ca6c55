"""Limb vectors: multi-precision integers as digit vectors of one integer.

A vector of n limbs of w bits that represents the integer X has the limbs
floor(X / 2^(w i)) - 2^w floor(X / 2^(w (i+1))); written so, every sum of limbs
times their weights telescopes to a polynomial in the represented integers, and
carries never have to be followed one by one.
"""

import numpy as np

from . import jx, poly
from .harness import repo
from .jx import IntDom, to_obj
from .poly import Ctx, P, Unsupported, V, padd, pconst, pscale

FF = "jaxite.jaxite_ec.finite_field:"
UT = "jaxite.jaxite_ec.util"
Q = 0x01AE3A4617C510EAC63B05C06CA1493B1A22D9F300F5138F1EF3622FBA094800170B5D44300000008508C00000000001
MU = (1 << 760) // Q


def prover(c, timeout_ms=3000):
  """Decides side conditions (ranges, comparisons) from the context's facts."""
  memo = {}

  def prove(v):
    if not isinstance(v, V):
      return v >= 0
    k = (v.p.key(), len(c.facts))
    if k not in memo:
      r = poly.prove(c, goal_ge0=v, timeout_ms=timeout_ms)
      memo[k] = r.status == "proved"
    return memo[k]

  return prove


def dom(boolwrap=True, prove=True):
  d = IntDom()
  d.c.boolwrap = boolwrap
  if prove:
    d.c.prover = prover(d.c)
  return d


def ints(c, name, shape, hi, lo=0):
  out = np.empty(shape, object)
  for ix in np.ndindex(*shape):
    out[ix] = c.var(name + "".join(f"_{i}" for i in ix), lo, hi)
  return out


def digits(c, x, n, w=16):
  """Limbs of the integer x (0 <= x < 2^(w n))."""
  qs = [x] + [c.fdiv(x, 1 << (w * i)) for i in range(1, n + 1)]
  out = np.empty(n, object)
  for i in range(n):
    v = c.sub(qs[i], c.mul(qs[i + 1], 1 << w))
    if isinstance(v, V):
      m = (1 << w) - 1
      v = c.note_bounds(V(v.p, max(0, v.lo) if v.lo is not None else 0,
                          min(m, v.hi) if v.hi is not None else m))
    out[i] = v
  return out


def vec(c, xs, n, w=16):
  """(shape,) integers -> (shape, n) limbs."""
  xs = np.asarray(xs, dtype=object)
  out = np.empty(xs.shape + (n,), object)
  for ix in np.ndindex(*xs.shape):
    d = digits(c, xs[ix], n, w)
    for i in range(n):
      out[ix + (i,)] = d[i]
  return out


def value(c, limbs, w=16):
  """Represented integer of each row of limbs."""
  limbs = to_obj(limbs)
  out = np.empty(limbs.shape[:-1], object)
  for ix in np.ndindex(*out.shape):
    out[ix] = tight(c, c.total([c.mul(x, 1 << (w * i))
                                for i, x in enumerate(limbs[ix])]))
  return out


def tight(c, v):
  if isinstance(v, V):
    lo, hi = c.pbounds(v.p)
    lo = v.lo if lo is None or (v.lo is not None and v.lo > lo) else lo
    hi = v.hi if hi is None or (v.hi is not None and v.hi < hi) else hi
    return V(v.p, lo, hi)
  return v


def enc(xs, n, w=16, dtype=np.uint16):
  """Concrete integers -> limb array (independent of the code's encoder)."""
  a = np.array(xs, dtype=object)
  out = np.zeros(a.shape + (n,), dtype)
  for ix in np.ndindex(*a.shape):
    x = int(a[ix])
    for i in range(n):
      out[ix + (i,)] = (x >> (w * i)) & ((1 << w) - 1)
  return out


def dec(a, w=16):
  a = np.asarray(a)
  out = np.empty(a.shape[:-1], object)
  for ix in np.ndindex(*out.shape):
    out[ix] = sum(int(x) << (w * i) for i, x in enumerate(a[ix]))
  return out


class Carry:
  """Invariant rule for the carry loops.

  Ghost: X = sum of limbs times their weights, per row.
  Invariant: X is unchanged, limbs are within [0, B].
  Variant: the sum of all limbs; it falls at every iteration and is never
    negative, so the loop ends.
  On exit no limb has a carry, hence the limbs are the digits of X.
  The rule needs X < 2^(w n) (proved where it is used); if that cannot be
  shown, the result is left arbitrary (termination is still proved).
  """

  def __init__(self, ob):
    self.ob = ob
    self.seen = {}
    self.uses = 0

  def width(self, interp, cond, cc, shape, dtype):
    bits = np.dtype(dtype).itemsize * 8
    for w in (8, 16, 32):
      if w >= bits:
        continue
      z = np.full(shape, (1 << w) - 1, dtype)
      (t,) = interp.eval(cond.jaxpr, cond.consts, list(cc) + [z])
      if bool(np.asarray(t)):
        continue
      ok = True
      for i in range(shape[-1]):
        z = np.zeros(shape, dtype)
        z[..., i] = 1 << w
        (t,) = interp.eval(cond.jaxpr, cond.consts, list(cc) + [z])
        ok = ok and bool(np.asarray(t))
      if ok:
        return w
    raise Unsupported("carry loop of unknown limb width")

  def __call__(self, interp, eqn, cc, bc, carry):
    p = eqn.params
    cond, body = p["cond_jaxpr"], p["body_jaxpr"]
    if len(carry) != 1 or not all(jx.is_concrete(x) for x in
                                  list(cc) + list(bc)):
      raise Unsupported("loop that is not a carry loop")
    c = interp.dom.c
    v = to_obj(carry[0])
    aval = cond.jaxpr.invars[-1].aval
    dtype = np.dtype(aval.dtype)
    if dtype.kind != "u":
      raise Unsupported("carry loop over signed limbs")
    shape = v.shape
    n = shape[-1]
    w = self.width(interp, cond, cc, shape, dtype)
    bits = dtype.itemsize * 8
    b = 1 << w
    B = 0
    for e in v.ravel():
      lo, hi = c.rng(e)
      if lo is None or lo < 0 or hi is None or hi >= 1 << bits:
        raise Unsupported("carry loop over unbounded limbs")
      B = max(B, hi)
    B = max(B, 2 * b)
    rows = list(np.ndindex(*shape[:-1]))
    xs, strong = {}, {}
    for r in rows:
      x = tight(c, c.total([c.mul(e, 1 << (w * i))
                            for i, e in enumerate(v[r])]))
      strong[r] = True
      lo, hi = c.rng(x)
      if hi is None or hi >= 1 << (w * n):
        if c.prover is None or not c.prover(c.sub((1 << (w * n)) - 1, x)):
          strong[r] = False
        elif isinstance(x, V):
          x = c.note_bounds(V(x.p, 0 if lo is None else max(0, lo),
                              (1 << (w * n)) - 1))
      elif isinstance(x, V):
        x = V(x.p, max(0, lo), hi)
      xs[r] = x
    self.uses += 1
    self.invariant(interp, cond, body, cc, bc, shape, dtype, w, B,
                   all(strong.values()))
    out = np.empty(shape, object)
    for r in rows:
      if strong[r]:
        d = digits(c, xs[r], n, w)
      else:
        d = [c.var(f"carry{self.uses}_{i}", 0, b - 1, "fresh")
             for i in range(n)]
      for i in range(n):
        out[r + (i,)] = d[i]
    return [out]

  def invariant(self, interp, cond, body, cc, bc, shape, dtype, w, B, strong):
    key = (str(cond), str(body), shape, str(dtype), w, B, strong)
    if key in self.seen:
      return
    self.seen[key] = True
    ob = self.ob
    tag = f"carry loop {'x'.join(map(str, shape))} of {w}-bit limbs"
    d = IntDom()
    c = d.c
    n = shape[-1]
    b = 1 << w
    v = jx.sym_array(d, "v", shape, dtype, 0, B)
    it = jx.Interp(d)
    (t,) = it.eval(cond.jaxpr, cond.consts, list(cc) + [v])
    (nv,) = it.eval(body.jaxpr, body.consts, list(bc) + [v])
    t = to_obj(t).item()
    nv = to_obj(nv)
    rows = list(np.ndindex(*shape[:-1]))
    if strong:
      for r in rows:
        x = c.total([c.mul(e, 1 << (w * i)) for i, e in enumerate(v[r])])
        c.facts.append(("ge0", c.sub((1 << (w * n)) - 1, x)))
    for r in rows:
      if strong:
        x = c.total([c.mul(e, 1 << (w * i)) for i, e in enumerate(v[r])])
        y = c.total([c.mul(e, 1 << (w * i)) for i, e in enumerate(nv[r])])
        ob.eq(f"{tag}: value kept {r}", c, y, x)
      for i in range(n):
        ob.ge(f"{tag}: limb {r}{i} in range", c, nv[r + (i,)], 0)
        ob.ge(f"{tag}: limb {r}{i} in range", c, B, nv[r + (i,)])
    ob.ge(f"{tag}: variant falls", c,
          c.sub(c.total(list(v.ravel())), c.total(list(nv.ravel()))), 1,
          hyps=[("eq0", c.sub(t, 1))])
    for r in rows:
      for i in range(n):
        ob.ge(f"{tag}: no carry on exit {r}{i}", c, b - 1, v[r + (i,)],
              hyps=[("eq0", t)])


def run(fn, args, d, ob, contracts=None, **kw):
  rule = Carry(ob)
  flat, closed, it = jx.run_sym(fn, args, d, contracts=contracts,
                                while_rule=rule, **kw)
  return [to_obj(x) for x in flat], it
