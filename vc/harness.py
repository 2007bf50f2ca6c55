"""Obligations, units, concrete replay and the check driver."""

import contextlib
import importlib
import json
import os
import random
import signal
import subprocess
import sys
import time
import traceback

import numpy as np

from . import poly
from .poly import Unsupported, V

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VC_DEV_TREE", "/repo")  # always /repo in checks


class Missing(Exception):
  """A function named by a contract is not in the tree any more."""


def repo(path):
  """'pkg.module:attr.attr' -> object of the code under /repo."""
  mod, _, attr = path.partition(":")
  try:
    o = importlib.import_module(mod)
  except ModuleNotFoundError as e:
    raise Missing(f"{path}: {e}") from e
  f = getattr(o, "__file__", None)
  if f and not os.path.realpath(f).startswith(os.path.realpath(REPO)):
    raise RuntimeError(f"{mod} was imported from {f}, not from {REPO}")
  for a in attr.split(".") if attr else []:
    if not hasattr(o, a):
      raise Missing(path)
    o = getattr(o, a)
  return o


class Ob:
  """Collects the obligations of one unit."""

  def __init__(self):
    self.items = []  # dict(name, status, backend, secs, detail, model)
    self.z3_budget = 20.0
    self.soft = False  # obligations stronger than the property: search decides
    self.info = {}  # configuration, merged into counterexample hints

  def add(self, name, res):
    if self.soft and res.status == "refuted":
      res.status = "unknown"
    self.items.append(dict(
        name=name, status=res.status, backend=res.backend,
        secs=round(res.secs, 4), detail=str(res.detail)[:600],
        model=None if res.status == "proved" else
        dict(self.info, **{str(k): v for k, v in (res.model or {}).items()})))
    return res.status == "proved"

  def bv(self, name, dom, goal, hyps=(), timeout_ms=60000):
    import z3  # pylint: disable=g-import-not-at-top
    if isinstance(goal, (bool, int)):
      goal = z3.BoolVal(bool(goal))
    return self.add(name, dom.prove(goal, hyps, timeout_ms))

  def zero_mod(self, name, ctx, v, m, hyps=()):
    """v == 0 (mod m) as an identity over the definitions."""
    t0 = time.time()
    if ctx.zero_mod(v, m):
      return self.add(name, poly.Result("proved", backend="ring-normal-form",
                                        secs=time.time() - t0))
    # Not an identity of normal forms.  A valuation of the inputs at which it
    # fails refutes it; otherwise z3 may still derive it from the definitions.
    w = witness(ctx, v, m)
    if w is not None:
      return self.add(name, poly.Result(
          "refuted", backend="evaluation", secs=time.time() - t0,
          detail="residual modulo %s is %s" % (m, w[1]), model=w[0]))
    p = ctx.modnorm(ctx.poly(v), m)
    res = poly.Result("unknown")
    if len(p.t) < 200 and self.z3_budget > 0:
      res = poly.prove(ctx, goal_eq0=V(p, None, None), hyps=hyps,
                       timeout_ms=4000)
      self.z3_budget -= time.time() - t0
    if res.status == "proved":
      return self.add(name, res)
    return self.add(name, poly.Result(
        "unknown", backend="ring-normal-form", secs=time.time() - t0,
        detail=f"normal form modulo {m} is not zero: {describe(ctx, p)}"))

  def eq(self, name, ctx, a, b, hyps=(), timeout_ms=20000):
    return self.add(name, poly.prove(ctx, goal_eq0=ctx.sub(a, b)
                                     if isinstance(a, V) or isinstance(b, V)
                                     else a - b, hyps=hyps,
                                     timeout_ms=timeout_ms))

  def ge(self, name, ctx, a, b, hyps=(), timeout_ms=20000, extra=None):
    d = ctx.sub(a, b) if isinstance(a, V) or isinstance(b, V) else a - b
    return self.add(name, poly.prove(ctx, goal_ge0=d, hyps=hyps,
                                     timeout_ms=timeout_ms, extra=extra))

  def true(self, name, cond, detail="", backend="evaluation", hard=False):
    """A decided condition.  When it fails the concrete search decides, unless
    it is itself the property (hard)."""
    return self.add(name, poly.Result(
        "proved" if cond else "refuted" if hard else "unknown",
        backend=backend, detail=detail))

  def undecided(self, name, why):
    return self.add(name, poly.Result("unknown", detail=why))

  @property
  def ok(self):
    return bool(self.items) and all(i["status"] == "proved"
                                    for i in self.items)


def witness(ctx, v, m, tries=40):
  """Input valuation at which v is not 0 modulo m (m None: v != 0)."""
  rng = random.Random(12345)
  if any(a.kind == "input" and (a.lo is None or a.hi is None)
         for a in ctx.atoms):
    return None
  for t in range(tries):
    env = {}
    for i, a in enumerate(ctx.atoms):
      if a.kind == "input":
        env[i] = rng.choice([rng.randint(a.lo, a.hi), rng.randint(a.lo, a.hi),
                             rng.randint(a.lo, a.hi), a.lo, a.hi])
    vals = ctx.evaluate(env)
    x = ctx.veval(v, vals)
    if x is not None and not holds(ctx, vals):
      continue
    if x is None:
      return None
    if (x % m if m else x):
      return ({i: e for i, e in env.items()}, x % m if m else x)
  return None


def holds(ctx, vals):
  """The path condition and other facts at a valuation."""
  for k, f in ctx.facts:
    y = ctx.veval(f, vals) if isinstance(f, V) else f
    if y is None or (y < 0 if k == "ge0" else y != 0):
      return False
  return True


def describe(ctx, p, n=6):
  out = []
  for m, c in list(sorted(p.t.items(), key=lambda z: (len(z[0]), z[0])))[:n]:
    out.append(f"{c}*" + "*".join(ctx.atoms[i].name for i in m) if m else
               str(c))
  return " + ".join(out) + (" + ..." if len(p.t) > n else "")


class Unit:
  """One function (or small group) under contract at one configuration.

  prove(ob): generates and discharges obligations from the current source.
  concrete(rng, n, hints): runs the real code on concrete inputs against the
    executable specification; returns None or a counterexample dict, and counts
    evaluations in self.evals.
  bounded: if set, the unit has no proof and is a stated bounded stand-in.
  """

  def __init__(self, name, functions, prove=None, concrete=None, bounded=None,
               assumes=(), cross=40, search=2000):
    self.name = name
    self.functions = functions
    self.prove = prove
    self.concrete = concrete
    self.bounded = bounded
    self.assumes = list(assumes)
    self.cross = cross
    self.search = search
    self.evals = 0


def at_scale(unit, runs=1):
  """The same contract at a size of practice: run, not proved (bounded)."""
  unit.name = "at scale: " + unit.name
  unit.prove = None
  unit.bounded = f"{runs} run(s) of the real code at this size"
  unit.cross = runs
  return unit


def jsonable(x):
  if isinstance(x, dict):
    return {str(k): jsonable(v) for k, v in x.items()}
  if isinstance(x, (list, tuple)):
    return [jsonable(v) for v in x]
  if isinstance(x, np.ndarray):
    return jsonable(x.tolist())
  if isinstance(x, (np.integer,)):
    return int(x)
  if isinstance(x, (np.bool_,)):
    return bool(x)
  if isinstance(x, (np.floating,)):
    return float(x)
  if isinstance(x, (int, float, str, bool)) or x is None:
    if isinstance(x, int) and x.bit_length() > 63:
      return hex(x)
    return x
  try:
    return jsonable(np.asarray(x).tolist())
  except Exception:  # pylint: disable=broad-except
    return repr(x)


class OutOfTime(BaseException):
  """The time a proof or a search may take has passed."""


@contextlib.contextmanager
def limited(secs):
  """Raises OutOfTime in the block after secs seconds."""
  def ring(*_):
    # again soon: a C callback may swallow the first one
    signal.setitimer(signal.ITIMER_REAL, 1.0)
    raise OutOfTime()
  old = signal.signal(signal.SIGALRM, ring)
  signal.setitimer(signal.ITIMER_REAL, max(1.0, secs))
  try:
    yield
  finally:
    signal.setitimer(signal.ITIMER_REAL, 0)
    signal.signal(signal.SIGALRM, old)


# seconds one proof / one search may take, and one worker altogether
LIMITS = dict(prove=180.0, search=90.0, worker=560.0)
START = time.time()


def budget(kind):
  left = LIMITS["worker"] - (time.time() - START)
  return max(10.0, min(LIMITS[kind], left))


def run_unit(unit, seed):
  """Returns the record of one unit."""
  t0 = time.time()
  ob = Ob()
  rec = dict(unit=unit.name, functions=unit.functions, bounded=unit.bounded,
             assumes=unit.assumes)
  err = None
  raised_in_repo = False
  early = None
  if unit.concrete is not None and unit.prove is not None:
    # a failing input known in advance shortens the proof attempt
    try:
      with limited(budget("search")):
        early = unit.concrete(random.Random(f"{seed}/{unit.name}/first"),
                              min(unit.cross, 10), [])
    except (Exception, OutOfTime):  # pylint: disable=broad-except
      early = None
  if unit.prove is not None:
    try:
      with limited(30.0 if early is not None else budget("prove")):
        unit.prove(ob)
    except OutOfTime:
      err = "time limit of the proof"
    except Unsupported as e:
      err = f"outside the verifier's fragment: {e}"
    except Missing as e:
      err = f"function not found: {e}"
      rec["missing"] = True
    except Exception as e:  # pylint: disable=broad-except
      err = f"{type(e).__name__}: {e}"
      rec["trace"] = traceback.format_exc()[-3000:]
      tb = e.__traceback__
      while tb is not None:
        if tb.tb_frame.f_code.co_filename.startswith(REPO):
          raised_in_repo = True
        tb = tb.tb_next
  if err:
    ob.undecided("extraction", err)
  failed = [i for i in ob.items if i["status"] != "proved"]
  proved = unit.prove is not None and ob.ok
  rec["obligations"] = len(ob.items)
  rec["discharged"] = len(ob.items) - len(failed)
  rec["proved"] = proved
  rec["items"] = [dict(name=i["name"], status=i["status"],
                       backend=i["backend"], secs=i["secs"],
                       detail=i["detail"]) for i in ob.items]
  cex = None
  if unit.concrete is not None:
    rng = random.Random(f"{seed}/{unit.name}")
    hints = [i["model"] for i in failed if i.get("model")]
    n = unit.cross if proved or unit.prove is None else unit.search
    try:
      if early is not None:
        cex = early
      else:
        with limited(budget("search")):
          cex = unit.concrete(rng, n, hints)
    except OutOfTime:
      rec["search_cut"] = "time limit of the concrete search"
    except Missing as e:
      rec["missing"] = True
      rec["concrete_error"] = str(e)
    except Exception as e:  # pylint: disable=broad-except
      tb = e.__traceback__
      inrepo, last = False, ""
      while tb is not None:
        name = tb.tb_frame.f_code.co_filename
        if name.startswith(REPO):
          inrepo, last = True, "repo"
        elif name.startswith(VERIF):
          last = "verif"
        tb = tb.tb_next
      # A call that no longer fits is the harness's fault; an error of the
      # code's own making on a valid input is the code's.
      own = isinstance(e, TypeError) and last == "repo" and (
          "argument" not in str(e) and "not callable" not in str(e))
      if isinstance(e, Unsupported):
        inrepo = False
      if inrepo and (own or not isinstance(
          e, (AttributeError, TypeError, NameError, ImportError))):
        cex = dict(raised=f"{type(e).__name__}: {e}",
                   trace=traceback.format_exc()[-2500:],
                   inputs=getattr(unit, "last_inputs", None))
      else:
        rec["concrete_error"] = (f"{type(e).__name__}: {e}\n" +
                                 traceback.format_exc()[-2500:])
  rec["evals"] = unit.evals
  rec["wall_s"] = round(time.time() - t0, 3)
  if cex is not None:
    rec["verdict"] = "violated"
    rec["cex"] = jsonable(cex)
  elif proved:
    rec["verdict"] = "proved"
  elif any(i["status"] == "refuted" for i in failed):
    rec["verdict"] = "refuted-no-input"
  elif rec.get("missing"):
    rec["verdict"] = "absent"
  elif unit.concrete is None or rec.get("concrete_error"):
    rec["verdict"] = "undecided"
  else:
    rec["verdict"] = "bounded"
  if raised_in_repo:
    rec["raised_in_repo"] = True
  return rec
