"""Symbolic interpreter for jaxprs extracted from the real code on every run.

Every function under contract is traced with jax.make_jaxpr; the resulting
jaxpr is the program XLA compiles, so nothing is re-typed by hand.  Arrays are
numpy object arrays whose elements are Python ints (known) or symbolic words;
word semantics come from a domain object (integer polynomials, `IntDom`, or z3
bit-vectors, `bv.BVDom`).
"""

import functools
import itertools
import numpy as np

import jax
import jax.numpy as jnp
from jax.extend import core as jcore

from .poly import Ctx, V, Unsupported, P


def dt_bits(dtype):
  d = np.dtype(dtype)
  if d == np.bool_:
    return 1, False, True
  if d.kind == "u":
    return d.itemsize * 8, False, False
  if d.kind == "i":
    return d.itemsize * 8, True, False
  if d.name in MANT:
    return "f", MANT[d.name], False
  raise Unsupported(f"dtype {d}")


# Floating types are admitted only where every value is an integer that the
# significand holds exactly (see IntDom._w): no rounding can then occur.
MANT = {"bfloat16": 8, "float16": 11, "float32": 24, "float64": 53}


class IntDom:
  """Word semantics over exact integers (see poly.py)."""

  def __init__(self, ctx=None):
    self.c = ctx or Ctx()
    self.residues = False  # x mod q becomes one atom, expanded modulo q

  def remq(self, x, d):
    if self.residues and d & (d - 1):
      return self.c.residue(x, d)
    return self.c.mod(x, d)

  def is_sym(self, x):
    return isinstance(x, V)

  def input(self, name, dtype, lo=None, hi=None):
    bits, signed, boolean = dt_bits(dtype)
    if boolean:
      return self.c.var(name, 0, 1)
    mn, mx = (-(1 << (bits - 1)), (1 << (bits - 1)) - 1) if signed else (
        0, (1 << bits) - 1)
    lo = mn if lo is None else lo
    hi = mx if hi is None else hi
    if lo == hi:
      return lo
    return self.c.var(name, lo, hi)

  def _w(self, x, dt):
    bits, signed, boolean = dt
    if boolean:
      return x
    if bits == "f":
      lo, hi = self.c.rng(x)
      if lo is None or hi is None or max(-lo, hi) > 1 << signed:
        raise Unsupported("floating-point value that may round")
      return x
    return self.c.wrap(x, bits, signed)

  def total(self, xs, dt):
    if dt[0] == "f":
      self._exact_sum(xs, dt)
    return self._w(self.c.total(xs), dt)

  def dot(self, xs, ys, dt):
    if dt[0] == "f":
      self._exact_sum([self.c.mul(x, y) for x, y in zip(xs, ys)], dt)
    return self._w(self.c.dot(xs, ys), dt)

  def _exact_sum(self, terms, dt):
    """Every partial sum, in any order, is exact."""
    s = 0
    for t in terms:
      lo, hi = self.c.rng(t)
      if lo is None or hi is None:
        raise Unsupported("floating-point value that may round")
      s += max(abs(lo), abs(hi))
    if s > 1 << dt[1]:
      raise Unsupported("floating-point sum that may round")

  def convert(self, x, src, dst):
    if dst[2]:
      if src[2]:
        return x
      return self.c.bnot(self.c.eq0(x))
    if src[0] == "f" and dst[0] != "f":
      r = self._w(x, dst)
      if r is not x and not (not isinstance(x, V) and r == x):
        raise Unsupported("float-to-int conversion out of range")
      return r
    return self._w(x, dst)

  def op(self, name, dt, xs, params=None):
    c = self.c
    bits, signed, boolean = dt
    if name == "add":
      return self._w(c.add(*xs), dt) if not boolean else c.bor(*xs)
    if name == "sub":
      return self._w(c.sub(*xs), dt)
    if name == "mul":
      return self._w(c.mul(*xs), dt)
    if name == "neg":
      return self._w(c.neg(xs[0]), dt)
    if name == "max":
      return c.ite(c.le(xs[1], xs[0]), xs[0], xs[1])
    if name == "min":
      return c.ite(c.le(xs[0], xs[1]), xs[0], xs[1])
    if name == "eq":
      if boolean:
        return c.sub(c.sub(1, c.add(*xs)), c.mul(-2, c.mul(*xs)))
      return c.eq(*xs)
    if name == "ne":
      return c.bnot(self.op("eq", dt, xs))
    if name == "lt":
      return c.lt(xs[0], xs[1])
    if name == "gt":
      return c.lt(xs[1], xs[0])
    if name == "le":
      return c.le(xs[0], xs[1])
    if name == "ge":
      return c.le(xs[1], xs[0])
    if name in ("and", "or", "xor"):
      a, b = xs
      if boolean:
        if name == "and":
          return c.mul(a, b)
        if name == "or":
          return c.bor(a, b)
        r = c.sub(c.add(a, b), c.mul(2, c.mul(a, b)))
        return V(r.p, 0, 1) if isinstance(r, V) else r
      if isinstance(a, V) and isinstance(b, V):
        # x & (x - ...) and friends are outside the fragment.
        raise Unsupported(f"bitwise {name} of two symbolic words")
      if isinstance(b, V):
        a, b = b, a
      mask = (1 << bits) - 1
      au = c.wrap(a, bits, False)
      bu = b & mask
      r = c.and_const(au, bu, bits)
      if name == "or":
        r = c.sub(c.add(au, bu), r)
      elif name == "xor":
        r = c.sub(c.add(au, bu), c.mul(2, r))
      if isinstance(r, V):
        r = V(r.p, max(0, r.lo) if r.lo is not None else 0,
              min(mask, r.hi) if r.hi is not None else mask)
      return c.wrap(r, bits, signed)
    if name == "not":
      if boolean:
        return c.bnot(xs[0])
      return c.sub(-1, xs[0]) if signed else c.sub((1 << bits) - 1, xs[0])
    if name == "shift_left":
      x, k = xs
      if isinstance(k, V):
        raise Unsupported("symbolic shift amount")
      if k < 0 or k >= bits:
        return 0
      return self._w(c.mul(x, 1 << k), dt)
    if name == "shift_right_logical":
      x, k = xs
      if isinstance(k, V):
        raise Unsupported("symbolic shift amount")
      if k < 0 or k >= bits:
        return 0
      x = c.wrap(x, bits, False)
      return c.wrap(c.fdiv(x, 1 << k), bits, signed)
    if name == "shift_right_arithmetic":
      x, k = xs
      if isinstance(k, V):
        raise Unsupported("symbolic shift amount")
      if k < 0 or k >= bits:
        k = bits - 1
      if not signed:  # XLA shifts in the top bit whatever the type says
        return c.wrap(c.fdiv(c.wrap(x, bits, True), 1 << k), bits, False)
      return c.fdiv(x, 1 << k)
    if bits == "f" and name not in ("max", "min", "eq", "ne", "lt", "gt",
                                    "le", "ge", "select", "sign", "abs"):
      raise Unsupported(f"floating-point {name}")
    if name in ("rem", "div"):
      x, d = xs
      if isinstance(d, V):
        raise Unsupported("division by a symbolic word")
      if d == 0:
        raise Unsupported("division by zero constant")
      if not isinstance(x, V):
        q = abs(x) // abs(d) * (1 if (x >= 0) == (d > 0) else -1)
        return self._w(q, dt) if name == "div" else x - q * d
      ad = abs(d)
      if x.lo is not None and x.lo >= 0:
        if name == "rem":
          return self.remq(x, ad)
        q = c.fdiv(x, ad)
        r = c.mod(x, ad)
      else:
        nx = c.neg(x)
        pos = c.ge0(x)
        q = c.ite(pos, c.fdiv(x, ad), c.neg(c.fdiv(nx, ad)))
        r = c.ite(pos, c.mod(x, ad), c.neg(c.mod(nx, ad)))
      if name == "rem":
        return r
      return self._w(q if d > 0 else c.neg(q), dt)
    if name == "sign":
      x = xs[0]
      return c.sub(c.ge0(c.sub(x, 1)), c.ge0(c.sub(-1, x)))
    if name == "abs":
      x = xs[0]
      return self._w(c.ite(c.ge0(x), x, c.neg(x)), dt)
    if name == "select":
      p, cases = xs[0], xs[1:]
      # select_n: predicate False -> case 0, True -> case 1
      if len(cases) == 2:
        return c.ite(p, cases[1], cases[0])
      out = cases[-1]
      for i in range(len(cases) - 2, -1, -1):
        out = c.ite(c.eq(p, i), cases[i], out)
      return out
    if name == "clamp":
      lo, x, hi = xs
      x = c.ite(c.le(lo, x), x, lo)
      return c.ite(c.le(x, hi), x, hi)
    if name == "integer_pow":
      y = params["y"]
      if y < 0:
        raise Unsupported("negative power")
      r = 1
      for _ in range(y):
        r = self._w(c.mul(r, xs[0]), dt)
      return r
    raise Unsupported(f"elementwise {name}")

  def all_of(self, xs):
    r = 1
    for x in xs:
      r = self.c.mul(r, x)
    return r

  def any_of(self, xs):
    """Disjunction as 1 - prod(1 - x); kept as a single atom when large."""
    c = self.c
    xs = [x for x in xs if isinstance(x, V) or x]
    if any(not isinstance(x, V) for x in xs):
      return 1
    if not xs:
      return 0
    if len(xs) <= 3:
      r = 0
      for x in xs:
        r = c.bor(r, x)
      return r
    s = c.total(xs)
    return c.bnot(c.eq0(s))

  def bytes_of(self, x, bits, lane):
    """Little-endian lanes of an unsigned word."""
    x = self.c.wrap(x, bits, False)
    n = bits // lane
    qs = [x] + [self.c.fdiv(x, 1 << (lane * i)) for i in range(1, n)] + [0]
    out = []
    for i in range(n):
      v = self.c.sub(qs[i], self.c.mul(qs[i + 1], 1 << lane))
      if isinstance(v, V):
        v = self.c.note_bounds(
            V(v.p, max(0, v.lo) if v.lo is not None else 0,
              min((1 << lane) - 1, v.hi) if v.hi is not None
              else (1 << lane) - 1))
      out.append(v)
    return out

  def join(self, lanes, lane):
    return self.c.total(
        [self.c.mul(x, 1 << (lane * i)) for i, x in enumerate(lanes)])


def sym_array(dom, name, shape, dtype, lo=None, hi=None):
  out = np.empty(shape, dtype=object)
  for ix in np.ndindex(*shape):
    out[ix] = dom.input(name + "".join(f"_{i}" for i in ix), dtype, lo, hi)
  return out


def is_concrete(x):
  return not (isinstance(x, np.ndarray) and x.dtype == object)


def to_obj(x):
  """Concrete array -> object array of Python ints."""
  if isinstance(x, np.ndarray) and x.dtype == object:
    return x
  a = np.asarray(x)
  if a.dtype == np.bool_:
    a = a.astype(np.int64)
  if a.dtype.name in MANT and np.all(np.isfinite(a.astype(np.float64))) and (
      np.all(a.astype(np.float64) == np.rint(a.astype(np.float64)))):
    return np.vectorize(int, otypes=[object])(a.astype(np.float64))
  if a.dtype.kind not in "iu":
    raise Unsupported(f"non-integer data ({a.dtype}) meets symbolic data")
  return a.astype(object)


def concretise(a, dtype):
  """Object array without symbolic elements -> numpy array."""
  flat = a.ravel()
  for e in flat:
    if not isinstance(e, (int, np.integer)):
      return a
  bits, signed, boolean = dt_bits(dtype)
  if bits == "f":
    return np.array([float(e) for e in flat]).astype(dtype).reshape(a.shape)
  if boolean:
    return np.array([bool(e) for e in flat], dtype=bool).reshape(a.shape)
  m = (1 << bits) - 1
  out = np.array([int(e) & m for e in flat], dtype=np.dtype(f"u{bits//8}"))
  return out.view(np.dtype(dtype)).reshape(a.shape)


ELEMENTWISE = {
    "add": "add", "add_any": "add", "sub": "sub", "mul": "mul", "neg": "neg",
    "max": "max",
    "min": "min", "eq": "eq", "ne": "ne", "lt": "lt", "le": "le", "gt": "gt",
    "ge": "ge", "and": "and", "or": "or", "xor": "xor", "not": "not",
    "shift_left": "shift_left", "shift_right_logical": "shift_right_logical",
    "shift_right_arithmetic": "shift_right_arithmetic", "rem": "rem",
    "div": "div", "sign": "sign", "abs": "abs",
    "integer_pow": "integer_pow", "square": "square",
}

MOVES = {
    "broadcast_in_dim", "reshape", "transpose", "slice", "rev", "squeeze",
    "concatenate", "pad", "gather", "dynamic_slice", "dynamic_update_slice",
    "scatter", "copy", "copy_p", "expand_dims", "tile", "split",
    "stop_gradient", "optimization_barrier",
}

CALLS = {"pjit", "jit", "closed_call", "core_call", "custom_jvp_call",
         "custom_vjp_call", "remat", "checkpoint", "custom_vjp_call_jaxpr",
         "xla_call", "remat2"}


class Interp:
  """Evaluates a closed jaxpr over a domain.

  contracts: dict name -> handler(interp, closed_jaxpr, args, outs_aval) which
    returns a list of output arrays, or None to have the body inlined.
  while_rule: handler(interp, eqn_params, consts..., carry) for symbolic loops.
  """

  def __init__(self, dom, contracts=None, while_rule=None):
    self.dom = dom
    self.contracts = contracts or {}
    self.while_rule = while_rule
    self.calls = []
    self.max_unroll = 4096

  def run(self, closed, args):
    return self.eval(closed.jaxpr, closed.consts, args)

  def eval(self, jaxpr, consts, args):
    env = {}

    def read(v):
      if isinstance(v, jcore.Literal):
        return np.asarray(v.val)
      return env[v]

    for v, c in zip(jaxpr.constvars, consts):
      env[v] = c if isinstance(c, np.ndarray) else np.asarray(c)
    if len(jaxpr.invars) != len(args):
      raise Unsupported("arity mismatch")
    for v, a in zip(jaxpr.invars, args):
      env[v] = a
    for eqn in jaxpr.eqns:
      ins = [read(v) for v in eqn.invars]
      outs = self.eqn(eqn, ins)
      for v, o in zip(eqn.outvars, outs):
        env[v] = o
    return [read(v) for v in jaxpr.outvars]

  # --------------------------------------------------------------------
  def eqn(self, eqn, ins):
    name = eqn.primitive.name
    if name in CALLS:
      return self.call(eqn, ins)
    if all(is_concrete(x) for x in ins) and name not in ("while", "scan",
                                                         "cond"):
      return self.native(eqn, ins)
    if name == "scan":
      return self.scan(eqn, ins)
    if name == "while":
      return self.while_(eqn, ins)
    if name == "cond":
      return self.cond(eqn, ins)
    avals_in = [v.aval for v in eqn.invars]
    outs_aval = [v.aval for v in eqn.outvars]
    if name in ELEMENTWISE:
      out = [self.elementwise(ELEMENTWISE[name], ins, avals_in, outs_aval[0],
                              eqn.params)]
    elif name in MOVES:
      out = self.move(eqn, ins)
    elif name == "select_n":
      out = [self.select(ins, avals_in, outs_aval[0])]
    elif name == "clamp":
      dt = dt_bits(avals_in[1].dtype)
      a = [np.broadcast_to(to_obj(x), outs_aval[0].shape) for x in ins]
      out = [self.map(lambda *e: self.dom.op("clamp", dt, list(e)), a,
                      outs_aval[0].shape)]
    elif name == "convert_element_type":
      s, d = dt_bits(avals_in[0].dtype), dt_bits(outs_aval[0].dtype)
      out = [self.map(lambda e: self.dom.convert(e, s, d), [ins[0]],
                      outs_aval[0].shape)]
    elif name == "bitcast_convert_type":
      out = [self.bitcast(ins[0], avals_in[0], outs_aval[0])]
    elif name in ("reduce_sum", "reduce_and", "reduce_or", "reduce_max",
                  "reduce_min", "reduce_prod"):
      out = [self.reduce(name, ins[0], avals_in[0], outs_aval[0],
                         eqn.params["axes"])]
    elif name == "dot_general":
      out = [self.dot_general(eqn, ins, outs_aval[0])]
    elif name == "conv_general_dilated":
      out = [self.conv(eqn, ins, outs_aval[0])]
    elif name in ("cumsum",):
      out = [self.cumsum(eqn, ins[0], outs_aval[0])]
    elif name in ("scatter-add", "scatter_add"):
      out = [self.scatter_add(eqn, ins, outs_aval[0])]
    else:
      raise Unsupported(f"primitive {name}")
    return [concretise(o, av.dtype) if o.dtype == object else o
            for o, av in zip(out, outs_aval)]

  def native(self, eqn, ins):
    ins = [self._as_dtype(x, v.aval) for x, v in zip(ins, eqn.invars)]
    params = dict(eqn.params)
    sub, bind_params = eqn.primitive.get_bind_params(params)
    r = eqn.primitive.bind(*sub, *[jnp.asarray(x) for x in ins], **bind_params)
    if not eqn.primitive.multiple_results:
      r = [r]
    return [np.asarray(x) for x in r]

  def _as_dtype(self, x, aval):
    x = np.asarray(x)
    if hasattr(aval, "dtype") and x.dtype != aval.dtype:
      x = x.astype(aval.dtype)
    return x

  def map(self, f, arrs, shape):
    arrs = [to_obj(a) for a in arrs]
    out = np.empty(shape, dtype=object)
    flats = [a.ravel() for a in arrs]
    of = out.ravel()  # view of a fresh contiguous array
    for i in range(of.size):
      of[i] = f(*[a[i] for a in flats])
    return out

  def elementwise(self, name, ins, avals, out_aval, params):
    dt = dt_bits(avals[0].dtype)
    if name == "square":
      return self.elementwise("mul", [ins[0], ins[0]], [avals[0]] * 2,
                              out_aval, params)
    arrs = []
    for a in ins:
      a = to_obj(a)
      if a.shape != out_aval.shape:
        a = np.broadcast_to(a, out_aval.shape)
      arrs.append(a)
    op = self.dom.op
    return self.map(lambda *e: op(name, dt, list(e), params), arrs,
                    out_aval.shape)

  def select(self, ins, avals, out_aval):
    dt = dt_bits(out_aval.dtype)
    pred = to_obj(ins[0])
    if pred.shape != out_aval.shape:
      pred = np.broadcast_to(pred, out_aval.shape)
    cases = [to_obj(x) for x in ins[1:]]
    op = self.dom.op
    return self.map(lambda *e: op("select", dt, list(e)), [pred] + cases,
                    out_aval.shape)

  # -- data movement through the real primitive on index arrays ----------
  def move(self, eqn, ins):
    name = eqn.primitive.name
    if name == "copy" or name == "copy_p" or name == "stop_gradient":
      return [to_obj(ins[0])]
    if name == "optimization_barrier":
      return [to_obj(x) if not is_concrete(x) else x for x in ins]
    ndata = {"concatenate": len(ins), "pad": 2, "dynamic_update_slice": 2,
             "scatter": None}.get(name, 1)
    if name == "scatter":
      data_pos = [0, 2]
    else:
      data_pos = list(range(ndata))
    pool = []
    base = 0
    new_ins = []
    for i, x in enumerate(ins):
      if i in data_pos:
        o = to_obj(x)
        pool.append(o.ravel())
        ids = np.arange(base, base + o.size, dtype=np.int32).reshape(o.shape)
        base += o.size
        new_ins.append(jnp.asarray(ids))
      else:
        if not is_concrete(x):
          return self.sym_index_move(eqn, ins)
        new_ins.append(jnp.asarray(self._as_dtype(x, eqn.invars[i].aval)))
    params = dict(eqn.params)
    fill = None
    if name == "gather":
      fill = params.get("fill_value")
      params["fill_value"] = -1
    sub, bp = eqn.primitive.get_bind_params(params)
    r = eqn.primitive.bind(*sub, *new_ins, **bp)
    rs = r if eqn.primitive.multiple_results else [r]
    pool = np.concatenate(pool) if pool else np.empty(0, object)
    outs = []
    for o, v in zip(rs, eqn.outvars):
      ids = np.asarray(o)
      if name == "gather" and (ids < 0).any():
        bits, signed, boolean = dt_bits(v.aval.dtype)
        fv = fill
        if fv is None:
          fv = 1 if boolean else ((1 << bits) - 1 if not signed
                                  else -(1 << (bits - 1)))
        res = np.empty(ids.shape, object)
        for ix in np.ndindex(*ids.shape):
          res[ix] = pool[ids[ix]] if ids[ix] >= 0 else int(fv)
        outs.append(res)
      else:
        outs.append(pool[ids] if ids.shape else np.array(pool[int(ids)],
                                                         dtype=object))
    outs = [o if isinstance(o, np.ndarray) else np.array(o, dtype=object)
            for o in outs]
    return outs

  def sym_index_move(self, eqn, ins):
    """dynamic_slice / gather at a symbolic index: case split over values."""
    name = eqn.primitive.name
    dom = self.dom
    if not isinstance(dom, IntDom):
      raise Unsupported(f"{name} with symbolic index")
    c = dom.c
    # Collect the symbolic index elements.
    idx_pos = [i for i, x in enumerate(ins) if not is_concrete(x)
               and i not in ({0, 1} if name == "dynamic_update_slice"
                             else {0, 2} if name == "scatter" else {0})]
    syms = []
    for i in idx_pos:
      for e in to_obj(ins[i]).ravel():
        if isinstance(e, V) and all(e.p.t != s.p.t for s in syms):
          syms.append(e)
    if len(syms) != 1:
      raise Unsupported(f"{name} with {len(syms)} symbolic indices")
    s = syms[0]
    if s.lo is None or s.hi is None or s.hi - s.lo > 256:
      raise Unsupported(f"{name} with unbounded symbolic index")
    acc = None
    for val in range(s.hi, s.lo - 1, -1):
      new = list(ins)
      for i in idx_pos:
        a = to_obj(ins[i]).copy()
        for ix in np.ndindex(*a.shape):
          if isinstance(a[ix], V) and a[ix].p.t == s.p.t:
            a[ix] = val
          elif isinstance(a[ix], V):
            raise Unsupported("several symbolic indices")
        new[i] = concretise(a, eqn.invars[i].aval.dtype)
      outs = self.move(eqn, new)
      if acc is None:
        acc = outs
      else:
        cond = c.eq(s, val)
        acc = [self.map(lambda a, b: c.ite(cond, a, b), [o, a2], o.shape)
               for o, a2 in zip(outs, acc)]
    return acc

  def bitcast(self, x, ain, aout):
    bi, si, booli = dt_bits(ain.dtype)
    bo, so, boolo = dt_bits(aout.dtype)
    x = to_obj(x)
    dom = self.dom
    if bi == bo:
      return self.map(lambda e: dom.convert(e, (bi, si, booli), (bo, so, boolo)),
                      [x], aout.shape)
    if bi > bo:
      n = bi // bo
      out = np.empty(aout.shape, dtype=object)
      for ix in np.ndindex(*x.shape):
        lanes = dom.bytes_of(x[ix], bi, bo)
        for k in range(n):
          out[ix + (k,)] = dom.convert(lanes[k], (bo, False, False),
                                       (bo, so, False))
      return out
    n = bo // bi
    out = np.empty(aout.shape, dtype=object)
    for ix in np.ndindex(*aout.shape):
      lanes = [dom.convert(e, (bi, si, False), (bi, False, False))
               for e in x[ix]]
      v = dom.join(lanes, bi)
      out[ix] = dom.convert(v, (bo, False, False), (bo, so, False))
    return out

  def reduce(self, name, x, ain, aout, axes):
    x = to_obj(x)
    dt = dt_bits(aout.dtype)
    axes = tuple(axes)
    keep = [i for i in range(x.ndim) if i not in axes]
    y = x.transpose(keep + list(axes)).reshape(aout.shape + (-1,))
    out = np.empty(aout.shape, dtype=object)
    for ix in np.ndindex(*aout.shape):
      e = list(y[ix])
      if name == "reduce_sum":
        out[ix] = self.dom.total(e, dt)
      elif name == "reduce_and":
        out[ix] = self.dom.all_of(e)
      elif name == "reduce_or":
        out[ix] = self.dom.any_of(e)
      else:
        opn = {"reduce_max": "max", "reduce_min": "min",
               "reduce_prod": "mul"}[name]
        out[ix] = functools.reduce(
            lambda a, b: self.dom.op(opn, dt, [a, b]), e)
    return out

  def dot_general(self, eqn, ins, aout):
    (lc, rc), (lb, rb) = eqn.params["dimension_numbers"]
    a, b = to_obj(ins[0]), to_obj(ins[1])
    lfree = [i for i in range(a.ndim) if i not in lc and i not in lb]
    rfree = [i for i in range(b.ndim) if i not in rc and i not in rb]
    a2 = a.transpose(list(lb) + lfree + list(lc))
    b2 = b.transpose(list(rb) + rfree + list(rc))
    bshape = tuple(a.shape[i] for i in lb)
    lshape = tuple(a.shape[i] for i in lfree)
    rshape = tuple(b.shape[i] for i in rfree)
    k = int(np.prod([a.shape[i] for i in lc], dtype=np.int64))
    nb = int(np.prod(bshape, dtype=np.int64))
    nl = int(np.prod(lshape, dtype=np.int64))
    nr = int(np.prod(rshape, dtype=np.int64))
    a3 = a2.reshape(nb, nl, k)
    b3 = b2.reshape(nb, nr, k)
    out = np.empty((nb, nl, nr), dtype=object)
    dt = dt_bits(aout.dtype)
    dta = dt_bits(eqn.invars[0].aval.dtype)
    dtb = dt_bits(eqn.invars[1].aval.dtype)
    if dta != dt:
      a3 = self.map(lambda e: self.dom.convert(e, dta, dt), [a3], a3.shape)
    if dtb != dt:
      b3 = self.map(lambda e: self.dom.convert(e, dtb, dt), [b3], b3.shape)
    for i in range(nb):
      for j in range(nl):
        row = list(a3[i, j])
        for l in range(nr):
          out[i, j, l] = self.dom.dot(row, list(b3[i, l]), dt)
    return out.reshape(bshape + lshape + rshape)

  def conv(self, eqn, ins, aout):
    p = eqn.params
    dn = p["dimension_numbers"]
    lhs, rhs = to_obj(ins[0]), to_obj(ins[1])
    lhs = lhs.transpose(dn.lhs_spec)
    rhs = rhs.transpose(dn.rhs_spec)
    fg, bg = p["feature_group_count"], p["batch_group_count"]
    strides, padding = p["window_strides"], p["padding"]
    ld, rd = p["lhs_dilation"], p["rhs_dilation"]
    oshape = tuple(aout.shape[i] for i in dn.out_spec)
    N, C = lhs.shape[:2]
    O, I = rhs.shape[:2]
    sp = oshape[2:]
    out = np.empty(oshape, dtype=object)
    dt = dt_bits(aout.dtype)
    dta = dt_bits(eqn.invars[0].aval.dtype)
    dtb = dt_bits(eqn.invars[1].aval.dtype)
    lhs = self.map(lambda e: self.dom.convert(e, dta, dt), [lhs], lhs.shape)
    rhs = self.map(lambda e: self.dom.convert(e, dtb, dt), [rhs], rhs.shape)
    no = oshape[0]
    for n in range(no):
      for o in range(O):
        g = o // (O // fg) if fg > 1 else 0
        nb = n
        if bg > 1:
          nb = n + (o // (O // bg)) * (N // bg)
        for pos in np.ndindex(*sp):
          xs, ys = [], []
          for k in np.ndindex(*rhs.shape[2:]):
            src = []
            ok = True
            for d in range(len(sp)):
              q = pos[d] * strides[d] + k[d] * rd[d] - padding[d][0]
              if q < 0 or q % ld[d]:
                ok = False
                break
              q //= ld[d]
              if q >= lhs.shape[2 + d]:
                ok = False
                break
              src.append(q)
            if not ok:
              continue
            for i in range(I):
              xs.append(lhs[(nb, g * I + i) + tuple(src)])
              ys.append(rhs[(o, i) + k])
          out[(n, o) + pos] = self.dom.dot(xs, ys, dt)
    inv = np.argsort(dn.out_spec)
    return out.transpose(inv)

  def cumsum(self, eqn, x, aout):
    ax, rev = eqn.params["axis"], eqn.params["reverse"]
    x = np.moveaxis(to_obj(x), ax, -1)
    out = np.empty(x.shape, dtype=object)
    dt = dt_bits(aout.dtype)
    for ix in np.ndindex(*x.shape[:-1]):
      acc = 0
      r = range(x.shape[-1])
      for i in (reversed(r) if rev else r):
        acc = self.dom.op("add", dt, [acc, x[ix + (i,)]])
        out[ix + (i,)] = acc
    return np.moveaxis(out, -1, ax)

  def scatter_add(self, eqn, ins, aout):
    op, idx, upd = ins
    if not is_concrete(idx):
      raise Unsupported("scatter-add with symbolic index")
    op, upd = to_obj(op), to_obj(upd)
    # Destination of every update element, one scatter per element batch.
    n = upd.size
    eye = np.eye(n, dtype=np.int32).reshape((n,) + upd.shape)
    sub, bp = eqn.primitive.get_bind_params(dict(eqn.params))
    f = lambda u: eqn.primitive.bind(
        *sub, jnp.zeros(op.shape, jnp.int32),
        jnp.asarray(self._as_dtype(idx, eqn.invars[1].aval)), u, **bp)
    hits = np.asarray(jax.vmap(f)(jnp.asarray(eye)))
    out = op.copy().ravel()
    dt = dt_bits(aout.dtype)
    uf = upd.ravel()
    acc = {}
    for j in range(n):
      for d in np.flatnonzero(hits[j].ravel()):
        acc.setdefault(int(d), []).append(uf[j])
    for d, us in acc.items():
      out[d] = self.dom.total([out[d]] + us, dt)
    return out.reshape(op.shape)

  # -- control flow ------------------------------------------------------
  def call(self, eqn, ins):
    p = eqn.params
    closed = p.get("jaxpr") or p.get("call_jaxpr") or p.get("fun_jaxpr")
    if closed is None:
      raise Unsupported(f"call {eqn.primitive.name}")
    name = p.get("name", eqn.primitive.name)
    if hasattr(closed, "consts"):
      jaxpr, consts = closed.jaxpr, closed.consts
    else:
      jaxpr, consts = closed, ()
      closed = jcore.ClosedJaxpr(jaxpr, ())
    if name in ("remainder", "floor_divide") and isinstance(self.dom, IntDom):
      r = self.jnp_divmod(name, closed, ins)
      if r is not None:
        return r
    h = self.contracts.get(name)
    if h is not None and (getattr(h, "always", False) or
                          not all(is_concrete(x) for x in ins)):
      r = h(self, closed, ins)
      if r is not None:
        return r
    return self.eval(jaxpr, consts, ins)

  def jnp_divmod(self, name, closed, ins):
    """jnp.remainder / jnp.floor_divide by a positive constant, exactly.

    Applied only when the called jaxpr is literally the one jnp produces.
    """
    if len(ins) != 2 or not is_concrete(ins[1]) or is_concrete(ins[0]):
      return None
    d = np.asarray(ins[1])
    if (d <= 0).any():
      return None
    avals = [v.aval for v in closed.jaxpr.invars]
    try:
      ref = jax.make_jaxpr(getattr(jnp, name))(
          *[jax.ShapeDtypeStruct(a.shape, a.dtype, weak_type=a.weak_type)
            for a in avals])
      body = ref.jaxpr.eqns[0].params["jaxpr"]
    except Exception:  # pylint: disable=broad-except
      return None
    if str(body) != str(closed):
      return None
    out = closed.jaxpr.outvars[0].aval
    x = np.broadcast_to(to_obj(ins[0]), out.shape)
    if np.dtype(avals[0].dtype).kind != "u" and (
        np.dtype(avals[1].dtype) != np.dtype(avals[0].dtype)
        and np.dtype(out.dtype).kind != "i"):
      return None
    d = np.broadcast_to(to_obj(d), out.shape)
    c = self.dom.c
    dt = dt_bits(out.dtype)
    x = self.map(lambda e: self.dom.convert(e, dt_bits(avals[0].dtype), dt),
                 [x], out.shape)
    f = (lambda e, k: self.dom.remq(e, k)) if name == "remainder" else (
        lambda e, k: c.fdiv(e, k))
    return [self.map(f, [x, d], out.shape)]

  def scan(self, eqn, ins):
    p = eqn.params
    nc, nk = p["num_consts"], p["num_carry"]
    consts, carry, xs = ins[:nc], list(ins[nc:nc + nk]), ins[nc + nk:]
    length, rev = p["length"], p["reverse"]
    if length > self.max_unroll:
      raise Unsupported(f"scan of length {length}")
    closed = p["jaxpr"]
    ys = None
    order = range(length - 1, -1, -1) if rev else range(length)
    out_rows = {}
    for i in order:
      row = [np.asarray(x[i]) if is_concrete(x) else _idx(x, i) for x in xs]
      res = self.eval(closed.jaxpr, closed.consts,
                      list(consts) + carry + row)
      carry = list(res[:nk])
      out_rows[i] = res[nk:]
    nout = len(eqn.outvars) - nk
    outs = []
    for j in range(nout):
      aval = eqn.outvars[nk + j].aval
      if length == 0:
        outs.append(np.zeros(aval.shape, aval.dtype))
        continue
      rows = [out_rows[i][j] for i in range(length)]
      if all(is_concrete(r) for r in rows):
        outs.append(np.stack([np.asarray(r) for r in rows]))
      else:
        o = np.empty(aval.shape, dtype=object)
        for i, r in enumerate(rows):
          o[i] = to_obj(r) if o.ndim > 1 else to_obj(r).item()
        outs.append(o)
    return carry + outs

  def while_(self, eqn, ins):
    p = eqn.params
    cn, bn = p["cond_nconsts"], p["body_nconsts"]
    cc, bc, carry = ins[:cn], ins[cn:cn + bn], list(ins[cn + bn:])
    cond, body = p["cond_jaxpr"], p["body_jaxpr"]
    it = 0
    while True:
      (t,) = self.eval(cond.jaxpr, cond.consts, list(cc) + carry)
      if not is_concrete(t):
        e = to_obj(t).item()
        if isinstance(e, (int, np.integer)):
          t = bool(e)
        else:
          if self.while_rule is None:
            raise Unsupported("while loop with a symbolic condition")
          return self.while_rule(self, eqn, cc, bc, carry)
      if not bool(np.asarray(t)):
        return carry
      carry = self.eval(body.jaxpr, body.consts, list(bc) + carry)
      it += 1
      if it > self.max_unroll:
        raise Unsupported("while loop not bounded by its condition")

  def cond(self, eqn, ins):
    br = eqn.params["branches"]
    idx, args = ins[0], ins[1:]
    if is_concrete(idx):
      i = int(np.clip(int(np.asarray(idx)), 0, len(br) - 1))
      return self.eval(br[i].jaxpr, br[i].consts, args)
    e = to_obj(idx).item()
    results = [self.eval(b.jaxpr, b.consts, args) for b in br]
    outs = []
    for j, v in enumerate(eqn.outvars):
      dt = dt_bits(v.aval.dtype)
      cases = [to_obj(r[j]) for r in results]
      if len(br) == 2 and dt_bits(eqn.invars[0].aval.dtype)[2]:
        sel = e
      else:
        sel = e
      n = len(cases)

      def pick(*c, sel=sel, dt=dt, n=n):
        out = c[-1]
        for i in range(n - 2, -1, -1):
          is_i = self.dom.op("eq", (32, True, False), [sel, i])
          out = self.dom.op("select", dt, [is_i, out, c[i]])
        return out

      outs.append(self.map(pick, cases, v.aval.shape))
    return outs


def _idx(x, i):
  r = x[i]
  if isinstance(r, np.ndarray):
    return r
  o = np.empty((), dtype=object)
  o[()] = r
  return o


def trace(fn, *avals, **kw):
  """jaxpr of fn at the given (shape, dtype) arguments, caches bypassed."""
  args = [jax.ShapeDtypeStruct(s, d) for s, d in avals]
  return jax.make_jaxpr(functools.partial(fn, **kw) if kw else fn)(*args)


def run_sym(fn, args, dom, contracts=None, while_rule=None, interp=None,
            **kw):
  """Traces fn and interprets it.  args: list of (object array, dtype) or
  concrete arrays."""
  avals, vals = [], []
  for a in args:
    if isinstance(a, tuple):
      arr, dt = a
      avals.append((arr.shape, dt))
      vals.append(arr)
    else:
      a = np.asarray(a)
      avals.append((a.shape, a.dtype))
      vals.append(a)
  closed = trace(fn, *avals, **kw)
  it = (interp or Interp)(dom, contracts, while_rule)
  flat = it.run(closed, vals)
  return flat, closed, it
