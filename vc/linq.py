"""Linear forms modulo a prime, decided at random points.

Two users.  (1) Host numpy code over Python integers: elements LQ carry the
value modulo q of a linear form at a random point and refuse every operation
under which the value would stop being a linear form modulo q.  (2) jaxprs:
`Stages` interprets a jaxpr whose calls of a modular reduction cut it into
stages, shows that every stage is an integer-linear map (no wrap-around) of the
bytes or words entering it, and lets the caller evaluate stages at points.

A linear form modulo q that is not zero vanishes at a uniformly random point
with probability 1/q; over points with entries below 2^8, at most 2^-8.
"""

import numpy as np

from . import cyclo, jx
from .poly import Unsupported


class QField:
  def __init__(self, q):
    self.q = q

  def lift(self, x):
    if isinstance(x, LQ):
      return x
    if isinstance(x, (int, np.integer)) and not isinstance(x, bool):
      return LQ(self, int(x) % self.q, True, 0 <= int(x) < self.q)
    raise Unsupported(f"{type(x).__name__} among residues")


class LQ(cyclo.Lin):
  """A linear form modulo f.q at the point; canon: the integer is in [0, q)."""
  __slots__ = ("v", "known", "canon")

  def __init__(self, f, v, known=False, canon=False):
    self.f, self.v, self.known, self.canon = f, v % f.q, known, canon
    self.t = {}

  def _lin(self, o, sg):
    if isinstance(o, np.ndarray):
      return NotImplemented
    o = self.f.lift(o)
    return LQ(self.f, self.v + sg * o.v, self.known and o.known)

  def __neg__(self):
    return LQ(self.f, -self.v, self.known)

  def __mul__(self, o):
    if isinstance(o, np.ndarray):
      return NotImplemented
    o = self.f.lift(o)
    if not (self.known or o.known):
      raise Unsupported("product of unknowns")
    return LQ(self.f, self.v * o.v, self.known and o.known)
  __rmul__ = __mul__

  def __mod__(self, m):
    if int(m) != self.f.q:
      raise Unsupported("remainder by another modulus")
    return LQ(self.f, self.v, self.known, True)

  def _no(self, *a):
    raise Unsupported("not a linear operation")
  __eq__ = __lt__ = __le__ = __gt__ = __ge__ = __truediv__ = _no
  conjugate = conj = rint = single = shift = _no
  __hash__ = None

  @property
  def real(self):
    raise Unsupported("real part")
  imag = real


class QArr(cyclo.CArr):
  def astype(self, dt, *a, **k):
    dt = np.dtype(dt)
    for x in self.view(np.ndarray).ravel():
      if dt.kind == "O":
        continue
      if dt.kind not in "iu" or not x.canon or (
          np.iinfo(dt).max < x.f.q - 1):
        raise Unsupported(f"unreduced residue as {dt}")
    return self.copy()


QField.array_type = QArr


def qarr(f, xs):
  return cyclo.carr(f, xs)


class QNP(cyclo.NP):
  """numpy for a module that computes on residues modulo several primes."""

  def _mk(self, kind, shape, dtype, kw):
    if dtype is not None and np.dtype(dtype) == np.uint32:
      return getattr(self._real, kind)(shape, dtype=dtype, **kw)
    o = np.empty(shape, object)
    o[...] = 1 if kind == "ones" else 0
    return o

  def array(self, x, dtype=None, **kw):
    if isinstance(x, cyclo.CArr):
      r = x.copy()
      return r if dtype is None else r.astype(dtype)
    if not self._sym(x):
      return self._real.array(x, dtype=dtype, **kw)
    raise Unsupported("array of a list of residues")

  def empty_like(self, x, **kw):
    if isinstance(x, cyclo.CArr):
      return x.copy()
    return self._real.empty_like(x, **kw)
  zeros_like = None


def evaluate(co, pts, q):
  """Values at pts (exponent lists are avoided: Horner, vectorised)."""
  pts = np.array(pts, np.uint64)
  acc = np.zeros(len(pts), np.uint64)
  Q = np.uint64(q)
  for t in reversed([int(x) for x in co]):
    acc = (acc * pts + np.uint64(t)) % Q
  return acc


# -- jaxprs -------------------------------------------------------------------
MOVE = {"reshape", "transpose", "broadcast_in_dim", "squeeze", "slice", "rev",
        "concatenate", "expand_dims", "copy", "copy_p", "gather",
        "dynamic_slice"}
LIMIT = float(2 ** 63)


class Val:
  """Concrete value, and (for unknowns) its stage and an upper bound."""
  __slots__ = ("x", "stage", "hi", "raw")

  def __init__(self, x, stage=None, hi=None, raw=False):
    self.x, self.stage, self.hi, self.raw = x, stage, hi, raw


class Stages:
  """Interpreter: concrete evaluation plus the linearity of every stage.

  feed(stage, shape) gives the value to continue with after the stage's
  modular reduction; `out[stage]` is the integer that was reduced.
  """

  def __init__(self, valid, feed):
    self.valid, self.feed = valid, feed
    self.out, self.mods, self.n = [], [], 0

  def run(self, closed, args, his):
    env_in = [Val(a, 0, h, True) for a, h in zip(args, his)]
    return self._run(closed.jaxpr, closed.consts, env_in)

  def _run(self, jaxpr, consts, ins):
    env = {}

    def rd(v):
      return Val(np.asarray(v.val)) if hasattr(v, "val") else env[v]
    for v, c in zip(jaxpr.constvars, consts):
      env[v] = Val(np.asarray(c))
    for v, a in zip(jaxpr.invars, ins):
      env[v] = a
    for e in jaxpr.eqns:
      outs = self._eqn(e, [rd(v) for v in e.invars])
      for v, o in zip(e.outvars, outs):
        env[v] = o
    return [rd(v) for v in jaxpr.outvars]

  def _bind(self, e, xs):
    import jax.numpy as jnp
    r = e.primitive.bind(*[jnp.asarray(x) for x in xs], **e.params)
    return [np.asarray(t) for t in (r if e.primitive.multiple_results else [r])]

  def _eqn(self, e, ins):
    import jax
    p = e.primitive.name
    sub = e.params.get("jaxpr") or e.params.get("call_jaxpr")
    if sub is not None and p in ("pjit", "jit", "closed_call", "core_call",
                                 "named_call", "custom_jvp_call",
                                 "custom_vjp_call"):
      if e.params.get("name") == "modular_reduction":
        return [self._cut(e, ins)]
      return self._run(getattr(sub, "jaxpr", sub), getattr(sub, "consts", ()),
                       ins)
    unk = [v for v in ins if v.stage is not None]
    if not unk:
      return [Val(x) for x in self._bind(e, [v.x for v in ins])]
    st = {v.stage for v in unk}
    if len(st) != 1:
      raise Unsupported("values of two stages combined")
    st = st.pop()
    xs = self._bind(e, [v.x for v in ins])
    if len(xs) != 1:
      raise Unsupported(p)
    x = xs[0]
    raw = False
    if p in MOVE:
      if p in ("gather", "dynamic_slice") and any(
          v.stage is not None for v in ins[1:]):
        raise Unsupported("data-dependent index")
      if p == "concatenate" and any(v.stage is None for v in ins):
        raise Unsupported("unknowns concatenated with constants")
      import jax.numpy as jnp
      his = [jnp.asarray(v.hi if v.stage is not None else v.x) for v in ins]
      prm = dict(e.params)
      if p == "gather":
        raise Unsupported("gather")
      hi = np.asarray(e.primitive.bind(*his, **prm))
      raw = all(v.raw for v in unk)
    elif p == "bitcast_convert_type":
      v = ins[0]
      if not v.raw or np.dtype(v.x.dtype) != np.uint32 or x.dtype != np.uint8:
        raise Unsupported("bytes of a computed value")
      hi = np.full(x.shape, 255, np.uint64)
    elif p == "convert_element_type":
      hi = ins[0].hi
      if np.dtype(x.dtype).kind not in "iu":
        raise Unsupported("conversion to " + str(x.dtype))
      raw = ins[0].raw and x.dtype == np.uint32
    elif p in ("mul", "shift_left", "add", "dot_general", "reduce_sum"):
      if p in ("mul", "dot_general") and len(unk) != 1:
        raise Unsupported("product of unknowns")
      if p == "shift_left" and ins[1].stage is not None:
        raise Unsupported("shift by an unknown")
      if p == "add" and len(unk) != 2:
        raise Unsupported("constant added")
      for v in ins:
        if v.stage is None and np.any(np.asarray(v.x) < 0):
          raise Unsupported("negative constant")
      h = [np.asarray(v.hi if v.stage is not None else v.x, np.uint64)
           for v in ins]
      f = [a.astype(np.float64) for a in h]
      if p == "mul":
        est, hi = f[0] * f[1], h[0] * h[1]
      elif p == "add":
        est, hi = f[0] + f[1], h[0] + h[1]
      elif p == "shift_left":
        est, hi = f[0] * 2.0 ** f[1], h[0] << h[1]
      elif p == "reduce_sum":
        ax = tuple(e.params["axes"])
        est, hi = f[0].sum(axis=ax), h[0].sum(axis=ax, dtype=np.uint64)
      else:
        dn = e.params["dimension_numbers"]
        import jax.numpy as jnp
        hi = np.asarray(jax.lax.dot_general(
            jnp.asarray(h[0]), jnp.asarray(h[1]), dn))
        est = np.asarray(jax.lax.dot_general(
            jnp.asarray(f[0]), jnp.asarray(f[1]), dn))
      if np.max(est, initial=0) >= LIMIT:
        raise Unsupported("bound too large")
    else:
      raise Unsupported(p)
    if np.dtype(x.dtype).kind not in "iu" or int(np.max(
        hi, initial=0)) > np.iinfo(x.dtype).max:
      raise Unsupported(f"{p}: a value may exceed {x.dtype}")
    return [Val(x, st, np.broadcast_to(np.asarray(hi, np.uint64), x.shape),
                raw)]

  def _cut(self, e, ins):
    if len(ins) != 5 or any(v.stage is not None for v in ins[1:]) or (
        ins[0].stage is None):
      raise Unsupported("modular_reduction of another shape")
    z, m, q, w, sw = ins
    av = e.outvars[0].aval
    if np.dtype(av.dtype) != np.uint32 or z.x.shape != av.shape:
      raise Unsupported("modular_reduction to " + str(av))
    if z.stage != self.n:
      raise Unsupported("a stage left out of order")
    m, q, w, sw = [np.broadcast_to(np.asarray(v.x), av.shape)
                   for v in (m, q, w, sw)]
    for t in {tuple(map(int, r)) for r in np.stack(
        [m, q, w, sw], -1).reshape(-1, 4)}:
      if not self.valid(t[1], t[0], t[2], t[3]):
        raise Unsupported("constants outside the contract of "
                          "modular_reduction")
    s = (w.astype(np.uint64) + sw.astype(np.uint64))
    if np.any(z.hi >= (np.uint64(1) << s)):
      raise Unsupported("precondition of modular_reduction not established")
    self.out.append(z.x)
    self.mods.append(q)
    self.n += 1
    return Val(self.feed(self.n, q), self.n, q.astype(np.uint64) - np.uint64(1),
               True)


def stages_linear(ob, fn, spec, qs, valid, seed, trials=8):
  """Every stage of fn (last axis: moduli qs) is linear modulo its prime.

  spec: jax.ShapeDtypeStruct of the argument.  Returns False when the code is
  outside the interpreter's reach (raises Unsupported instead of guessing).
  """
  import jax
  g = np.random.default_rng(seed)
  closed = jax.make_jaxpr(fn)(spec)
  Q = np.broadcast_to(np.array(qs, np.uint64), spec.shape)
  count = None
  for t in range(trials):
    base, bad = {}, []
    for j in range(4):
      def word(stage, shape):
        if j == 0:
          base[stage] = g.integers(0, 256, size=shape, dtype=np.uint32)
        return base[stage] << np.uint32(8 * j)
      s = Stages(valid, lambda st, q: word(st, q.shape))
      out = s.run(closed, [word(0, spec.shape)], [Q - np.uint64(1)])
      if len(out) != 1 or not out[0].raw or out[0].stage != s.n:
        raise Unsupported("the result is not the last modular reduction")
      if count is None:
        count = s.n
        ob.true(f"{count} stages, each integer-linear in the bytes entering "
                "it without wrap-around, each within the contract of "
                "modular_reduction", True, backend="linear-structure")
      if j == 0:
        first = [z.astype(np.uint64) % q.astype(np.uint64)
                 for z, q in zip(s.out, s.mods)]
        mods = s.mods
      else:
        for i, (z, q) in enumerate(zip(s.out, mods)):
          q = q.astype(np.uint64)
          w = first[i] * np.uint64(pow(2, 8 * j)) % q
          if (z.astype(np.uint64) % q != w).any():
            bad.append((i, j))
    ob.true(f"point {t}: byte j of every word entering a stage weighs 2^(8j) "
            "modulo the prime", not bad, f"(stage, byte) {bad[:6]}",
            backend="linear-form identity test")
