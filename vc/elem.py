"""Helpers for element-wise functions decided over z3 bit-vectors."""

import numpy as np
import z3

from . import jx, paths
from .bv import BVDom


def bv_paths(fn, args, dom, modules=(), contracts=None):
  """args: list of (object array | concrete array, dtype).

  Returns list of (path condition, outputs | None, exception | None).
  """
  avals, vals = [], []
  for a in args:
    if isinstance(a, tuple):
      avals.append((a[0].shape, a[1]))
      vals.append(a[0])
    else:
      a = np.asarray(a)
      avals.append((a.shape, a.dtype))
      vals.append(a)
  res = []
  for p in paths.trace_paths(fn, avals, modules):
    it = jx.Interp(dom, contracts)
    flat = it.run(p.closed, vals)
    outs, conds = flat[:p.nout], flat[p.nout:]
    pc = []
    for c, d in zip(conds, p.decisions):
      e = jx.to_obj(c)
      e = e.item() if e.size == 1 else e
      t = dom.lift(e, (1, False, True)) if not isinstance(e, z3.ExprRef) else e
      if not z3.is_bool(t):
        t = t != 0
      pc.append(t if d else z3.Not(t))
    res.append((z3.And(pc) if pc else z3.BoolVal(True), outs, p.raised))
  return res


def scal(name, bits=32, dom=None):
  v = z3.BitVec(name, bits)
  if dom is not None:
    dom.inputs.append((name, v, False))
  a = np.empty((), dtype=object)
  a[()] = v
  return v, a


def bvof(x, bits=32):
  """Element (int or z3) -> z3 bit-vector of the given width."""
  if isinstance(x, np.ndarray):
    x = jx.to_obj(x).item()
  if isinstance(x, z3.BoolRef):
    return z3.If(x, z3.BitVecVal(1, bits), z3.BitVecVal(0, bits))
  if isinstance(x, z3.ExprRef):
    return x
  return z3.BitVecVal(int(x), bits)


def int_paths(fn, args, dom, modules=()):
  """Paths of fn over the integer domain.

  Returns [(conds, outs, exception)]; conds is a list of (value, taken) with
  paths whose conditions are decided false dropped.
  """
  avals, vals = [], []
  for a in args:
    if isinstance(a, tuple):
      avals.append((a[0].shape, a[1]))
      vals.append(a[0])
    else:
      a = np.asarray(a)
      avals.append((a.shape, a.dtype))
      vals.append(a)
  res = []
  for p in paths.trace_paths(fn, avals, modules):
    flat = jx.Interp(dom).run(p.closed, vals)
    outs, conds = flat[:p.nout], flat[p.nout:]
    keep, feasible = [], True
    for c, d in zip(conds, p.decisions):
      e = jx.to_obj(c)
      e = e.item()
      if dom.is_sym(e):
        keep.append((e, d))
      elif bool(e) != bool(d):
        feasible = False
        break
    if feasible:
      res.append((keep, outs, p.raised))
  return res
