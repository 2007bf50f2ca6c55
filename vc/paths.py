"""Path-complete tracing of host code that branches on traced values.

The function under contract is traced with jax.make_jaxpr.  Where its Python
code asks a traced value for its truth (``if (x > m).any():``), tracing is
repeated once per outcome and the condition becomes an extra output of the
jaxpr, so each path comes with its exact path condition.  ``int``/``float``
conversions of a traced value inside the named modules are identities.
"""

import contextlib
import functools

import jax
from jax._src import core as _core
import numpy as np

from .poly import Unsupported


class _Oracle:
  def __init__(self, prefix):
    self.prefix = list(prefix)
    self.taken = []
    self.conds = []

  def ask(self, t):
    i = len(self.taken)
    d = self.prefix[i] if i < len(self.prefix) else False
    self.taken.append(d)
    self.conds.append(t)
    return d


@contextlib.contextmanager
def patched(obj, name, value):
  d = obj.__dict__ if hasattr(obj, "__dict__") else None
  had = d is not None and name in d
  old = d[name] if had else None
  setattr(obj, name, value)
  try:
    yield
  finally:
    if had:
      setattr(obj, name, old)
    else:
      delattr(obj, name)


def _int(x=0, *a):
  if isinstance(x, _core.Tracer):
    return x
  return int(x, *a)


@contextlib.contextmanager
def host_shims(modules=()):
  with contextlib.ExitStack() as st:
    for m in modules:
      st.enter_context(patched(m, "int", _int))
      for k, v in list(vars(m).items()):
        if v is int and k != "int":
          st.enter_context(patched(m, k, _int))
    yield


class Path:
  def __init__(self, closed, nout, decisions, raised, tree):
    self.closed = closed
    self.nout = nout
    self.decisions = decisions
    self.raised = raised
    self.tree = tree


def trace_paths(fn, avals, modules=(), limit=64):
  """All paths of fn(*avals); avals: list of (shape, dtype)."""
  args = [jax.ShapeDtypeStruct(s, d) for s, d in avals]
  todo = [[]]
  out = []
  while todo:
    pre = todo.pop()
    orc = _Oracle(pre)
    info = {}

    def wrapped(*a, orc=orc, info=info):
      old = _core.Tracer.__bool__
      _core.Tracer.__bool__ = lambda self: orc.ask(self)
      try:
        r = fn(*a)
        leaves, tree = jax.tree_util.tree_flatten(r)
        info["tree"] = tree
        info["raised"] = None
      except (ValueError, AssertionError, ZeroDivisionError, IndexError) as e:
        if isinstance(e, jax.errors.JAXTypeError) or isinstance(e, jax.errors.JAXIndexError):
          raise
        leaves = []
        info["raised"] = e
        info["tree"] = None
      finally:
        _core.Tracer.__bool__ = old
      info["n"] = len(leaves)
      return list(leaves) + list(orc.conds)

    with host_shims(modules):
      closed = jax.make_jaxpr(wrapped)(*args)
    out.append(Path(closed, info["n"], list(orc.taken), info["raised"],
                    info["tree"]))
    for i in range(len(pre), len(orc.taken)):
      todo.append(orc.taken[:i] + [not orc.taken[i]])
    if len(out) + len(todo) > limit:
      raise Unsupported("too many host paths")
  return out
