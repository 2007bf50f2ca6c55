"""Proof by data independence.

A staged program in which everything that depends on the inputs is only moved,
copied, negated or multiplied by constants found to be signs (indices and predicates are constants) computes, for every
input, the signed selection it computes on one input of pairwise distinct
labels.  `selection` checks the staged program for that shape and returns the
signed label of every output word; anything else raises Unsupported.
"""

import jax
import numpy as np

from . import jx
from .poly import Unsupported

MOVE = {"reshape", "transpose", "broadcast_in_dim", "slice", "concatenate",
        "squeeze", "rev", "copy", "copy_p", "expand_dims", "tile",
        "device_put"}
CALLS = {"pjit", "jit", "closed_call", "core_call", "custom_jvp_call",
         "named_call", "remat"}
WORD = ("int32", "uint32")


def _check(jaxpr, dep):
  """dep: set of variables that depend on the inputs; returns outvars' flags."""
  def d(a):
    return not hasattr(a, "val") and a in dep
  for q in jaxpr.eqns:
    n = q.primitive.name
    flags = [d(a) for a in q.invars]
    if not any(flags):
      continue
    ok = False
    if n in CALLS:
      inner = q.params.get("jaxpr") or q.params.get("call_jaxpr")
      body = getattr(inner, "jaxpr", inner)
      s = {v for v, f in zip(body.invars, flags) if f}
      for v, f in zip(q.outvars, _check(body, s)):
        if f:
          dep.add(v)
      continue
    if n in MOVE:
      ok = True
    elif n == "neg":
      ok = str(q.invars[0].aval.dtype) in WORD
    elif n == "convert_element_type":
      ok = (str(q.invars[0].aval.dtype) in WORD and
            str(q.outvars[0].aval.dtype) in WORD)
    elif n == "mul":  # by a constant, which `selection` finds to be a sign
      ok = sum(flags) == 1 and str(q.outvars[0].aval.dtype) in WORD
    elif n == "select_n":
      ok = not flags[0]
    elif n in ("dynamic_slice", "gather"):
      ok = not any(flags[1:])
    elif n == "dynamic_update_slice":
      ok = not any(flags[2:])
    elif n == "scatter":
      ok = not flags[1]
    elif n == "pad":
      ok = True
    if not ok:
      raise Unsupported(f"{n} is not data movement")
    dep.update(q.outvars)
  return [d(a) for a in jaxpr.outvars]


def selection(fn, shapes, dtype=np.int32):
  """fn over arrays of the given shapes -> list of signed-label arrays.

  Word t of the inputs, counted over all of them, has the label t + 1; a label
  of 0 is the constant zero (any other constant raises)."""
  avals = [(s, dtype) for s in shapes]
  closed = jx.trace(fn, *avals)
  _check(closed.jaxpr, set(closed.jaxpr.invars))
  outs = []
  n = sum(int(np.prod(s)) for s in shapes)
  for shift in (1, 1 + n):  # two labellings tell labels from constants
    xs, at = [], shift
    for s in shapes:
      k = int(np.prod(s))
      xs.append(np.arange(at, at + k, dtype=dtype).reshape(s))
      at += k
    o = jax.core.eval_jaxpr(closed.jaxpr, closed.consts, *xs)
    outs.append([np.asarray(x).astype(np.int64) for x in o])
  ones = jax.core.eval_jaxpr(closed.jaxpr, closed.consts,
                             *[np.ones(s, dtype) for s in shapes])
  for o in ones:  # each output word is a fixed multiple of one input word
    o = np.asarray(o).astype(np.int64) % (1 << 32)
    if not np.isin(o, (0, 1, (1 << 32) - 1)).all():
      raise Unsupported("a word is scaled by more than a sign")
  for a, b in zip(*outs):
    w = 1 << 32
    a %= w
    b %= w
    a[a >= w // 2] -= w
    b[b >= w // 2] -= w
    if (np.abs(a) > n).any() or (b != a + np.sign(a) * n).any():
      raise Unsupported("constants mixed into the outputs")
  return outs[0]


def selections(fn, shapes, params, dtype=np.int32, pdtype=np.int32):
  """Like `selection` for fn(*arrays, parameter), at every given value of an
  integer parameter that steers the movement; yields (value, label arrays)."""
  closed = jx.trace(fn, *[(s, dtype) for s in shapes], ((), pdtype))
  _check(closed.jaxpr, set(closed.jaxpr.invars[:-1]))
  n = sum(int(np.prod(s)) for s in shapes)
  run = jax.jit(lambda *a: jax.core.eval_jaxpr(closed.jaxpr, closed.consts,
                                               *a))
  ins = []
  for shift in (1, 1 + n, None):
    xs, at = [], shift
    for s in shapes:
      k = int(np.prod(s))
      if shift is None:
        xs.append(np.ones(s, dtype))
      else:
        xs.append(np.arange(at, at + k, dtype=dtype).reshape(s))
        at += k
    ins.append(xs)
  w = 1 << 32
  for v in params:
    res = []
    a, b, e = [[np.asarray(o).astype(np.int64) % w for o in
                run(*xs, pdtype(v))] for xs in ins]
    for x, y, z in zip(a, b, e):
      x[x >= w // 2] -= w
      y[y >= w // 2] -= w
      if not np.isin(z, (0, 1, w - 1)).all() or (np.abs(x) > n).any() or (
          y != x + np.sign(x) * n).any():
        raise Unsupported("not a signed selection of the inputs")
      res.append(x)
    yield v, res


def toeplitz(n, first=1):
  """Labels of the negacyclic Toeplitz matrix of words first..first+n-1."""
  i, j = np.indices((n, n))
  l = (j - i) % n + first
  return np.where(j < i, -l, l)
