"""C20: multi-scalar multiplication sums every scalar multiple exactly once."""

import ast
import functools
import inspect
import itertools
import textwrap
import types

import jax
import jax.numpy as jnp
import numpy as np

from vc import ghost, jx, pysym
from vc.ghost import G, GhostDom, plus, times
from vc.harness import Missing, Unit, repo
from vc.poly import Unsupported
from vc.pysym import val

X64 = True
U16 = np.uint16
UT = "jaxite.jaxite_ec.util"
ORDER = 8444461749428370424248824938781546531375899335154063827935233455917409239041
BITS = 254
SLICES = (2, 3, 4, 5, 7, 8, 9, 12, 16)

MODS = {"lazy": "jaxite.jaxite_ec.pippenger",
        "rns": "jaxite.jaxite_ec.pippenger_rns"}


# -- the stand-in for the curve module ----------------------------------------


def primes(n, below=65536):
  out, k = [], below - 1
  while len(out) < n:
    if all(k % d for d in range(2, int(k ** 0.5) + 1)):
      out.append(k)
    k -= 1
  return out


@functools.lru_cache(None)
def group(enc):
  ut = repo(UT)
  if enc == "lazy":
    return Group(enc, primes(ut.U16_EXT_CHUNK_NUM))
  return Group(enc, [int(m) for m in ut.MODULI])


class Group:
  """A concrete commutative group whose elements are blocks of words: words
  add modulo a prime (a modulus of the residue number system) each.  XYZZ
  blocks: zz = 0 marks the zero point, and adding a zero point or equal points
  yields a block with zz = 0, as the incomplete formula does.  Twisted blocks:
  complete, identity (0, 1, 1, 0)."""

  def __init__(self, enc, mods):
    self.enc, self.L = enc, len(mods)
    self.last = {}
    self.m = np.array(mods, dtype=np.int64)
    one = [1] * self.L if enc == "rns" else [1] + [0] * (self.L - 1)
    z = [0] * self.L
    self.one = np.array(one, dtype=np.int64)
    self.ident = np.array([z, one, one, z], dtype=np.int64)
    m = self.m

    def padd_xyzz(a, b):
      a, b = a.astype(jnp.int64), b.astype(jnp.int64)
      z1, z2 = (jnp.all(v[2] == 0, axis=-1) for v in (a, b))
      same = jnp.all(a[:2] == b[:2], axis=(0, 2))
      s = (a[:2] + b[:2]) % m
      bad = z1 | z2 | same
      s = jnp.where(bad[None, :, None], (s + 7) % m, s)
      flag = jnp.where((bad | jnp.all(s == 0, axis=(0, 2)))[:, None], 0,
                       self.one[None])
      return jnp.concatenate([s, flag[None], flag[None]]).astype(jnp.uint16)

    def pdul_xyzz(a):
      a = a.astype(jnp.int64)
      z = jnp.all(a[2] == 0, axis=-1)
      s = (2 * a[:2]) % m
      s = jnp.where(z[None, :, None], (s + 5) % m, s)
      flag = jnp.where(z[:, None], 0, self.one[None])
      return jnp.concatenate([s, flag[None], flag[None]]).astype(jnp.uint16)

    ident = self.ident[:, None, :]

    def padd_twisted(a, b):
      return ((a.astype(jnp.int64) + b.astype(jnp.int64) - ident) % m
              ).astype(jnp.uint16)

    def pdul_twisted(a):
      return ((2 * a.astype(jnp.int64) - ident) % m).astype(jnp.uint16)

    def pneg_twisted(a):
      return ((2 * ident - a.astype(jnp.int64)) % m).astype(jnp.uint16)

    self.ops = {}
    for kind, fs in (("xyzz", (padd_xyzz, pdul_xyzz)),
                     ("twisted", (padd_twisted, pdul_twisted, pneg_twisted))):
      for f in fs:
        name = f.__name__.replace("_", f"_{enc}_", 1) + "_pack"
        self.ops[name] = named(f, name)

  # elements as (4, L) arrays
  def zero(self, kind):
    return np.zeros((4, self.L), np.int64) if kind == "xyzz" else (
        self.ident.copy())

  def random(self, rng, kind):
    w = np.array([[rng.randrange(int(x)) for x in self.m] for _ in range(4)],
                 dtype=np.int64)
    if kind == "xyzz":
      w[2:] = self.one
    # different elements may agree in a coordinate, or differ from the
    # identity in one coordinate only
    n = 2 if kind == "xyzz" else 4
    last = self.last.get(kind)
    r = rng.random()
    if last is not None and r < .3:
      c = rng.randrange(n)
      w[c] = last[c]
    elif r < .5:
      c = rng.randrange(n)
      w[c] = 0 if kind == "xyzz" else self.ident[c]
    self.last[kind] = w
    return w

  def combo(self, kind, terms):
    """Sum of k * element, or None for the zero point of XYZZ."""
    base = 0 if kind == "xyzz" else self.ident
    n = 2 if kind == "xyzz" else 4
    acc = np.zeros((n, self.L), dtype=object)
    for k, e in terms:
      acc = acc + int(k) * (e - base)[:n].astype(object)
    acc = acc % self.m
    if kind == "xyzz":
      return None if not acc.any() else acc
    return (acc + self.ident) % self.m

  def ints(self, e, kind):
    """The integer coordinates whose words are the element."""
    n = 2 if kind == "xyzz" else 4
    if self.enc == "lazy":
      return [sum(int(w) << (16 * i) for i, w in enumerate(e[c]))
              for c in range(n)]
    M = 1
    for x in self.m:
      M *= int(x)
    out = []
    for c in range(n):
      v = 0
      for x, w in zip(self.m, e[c]):
        q = M // int(x)
        v += int(w) * q * pow(q, -1, int(x))
      out.append(v % M)
    return out

  def same(self, kind, got, want):
    got = np.asarray(got).astype(np.int64)
    if kind == "twisted":
      return bool((got == want).all())
    zero = not got[2].any()
    if want is None:
      return zero
    return not zero and bool((got[:2] == want).all())


def named(f, name):
  def g(*a, **k):
    del k  # constant tables
    return f(*a)
  g.__name__ = g.__qualname__ = name
  return jax.jit(g)


class Only(types.SimpleNamespace):
  """The curve module as far as its contracts go."""

  def __getattr__(self, name):
    raise Unsupported(f"no contract for the curve function {name}")


@functools.lru_cache(None)
def module(enc):
  """The real multi-scalar module over the stand-in group."""
  pp = repo(MODS[enc])
  jec = repo("jaxite.jaxite_ec.elliptic_curve")
  ops = dict(group(enc).ops)
  if enc == "rns":
    ops.update(group("lazy").ops)
  for n, v in list(vars(pp).items()):
    if v is jec:
      setattr(pp, n, Only(**ops))
    elif callable(v) and getattr(v, "__module__", None) == jec.__name__:
      name = getattr(v, "__name__", n)
      if name in ops:
        setattr(pp, n, ops[name])
  return pp


def member(enc, name):
  pp = module(enc)
  if not hasattr(pp, name):
    raise Missing(f"{MODS[enc]}:{name}")
  return getattr(pp, name)


def path(enc, name):
  return f"{MODS[enc]}:{name}"


def domain(enc, kind):
  g = group(enc)
  return GhostDom(kind, g.L, g.ident if kind == "twisted" else None)


def tag(enc, kind):
  return f"{enc}_{kind}"


def stack(blocks):
  """List of (4, L) -> (4, n, L)."""
  return np.stack(blocks, axis=1)


def check_block(ob, name, dom, col, want):
  """want: formal sum; {} with XYZZ means the zero point."""
  g = dom.read(col)
  if dom.kind == "xyzz" and not want:
    ok = g.kind == "zero"
  else:
    ok = g.kind == "pt" and g.lin == want
  if not ok:
    ob.true(name, False, f"is {g}, not {want}", "formal-sum")
  return ok


def all_ok(ob, name, oks):
  oks = list(oks)
  if all(oks):
    ob.true(f"{name} ({len(oks)} blocks)", True, backend="formal-sum")


# -- accumulation ---------------------------------------------------------------


def ba_index(enc, fn_name, n, B, combos):
  """XYZZ accumulation by index: one window for every case in combos, each
  (indices of the n points, zero flags of the B buckets)."""
  W = len(combos)

  def prepare(zero, bucket, point):
    st = [[None] * B for _ in range(W)]
    flags = np.zeros((n, W, B), np.uint8)
    idx = np.zeros((n, W), np.uint32)
    for w, (ix, fl) in enumerate(combos):
      for b in range(B):
        st[w][b] = zero() if fl[b] else bucket(w, b)
      cur = list(fl)
      for i in range(n):
        flags[i, w] = cur
        idx[i, w] = ix[i]
        cur[ix[i]] = 0
    buckets = np.stack([np.stack(r) for r in st])  # (W, B, 4, L)
    buckets = np.ascontiguousarray(buckets.transpose(2, 0, 1, 3))
    pts = np.stack([point(i) for i in range(n)])
    return buckets, pts, idx, flags

  def want(w, b, ix, fl):
    s = {} if fl[b] else {f"b{w}_{b}": 1}
    for i in range(n):
      if ix[i] == b:
        s = plus(s, {f"P{i}": 1})
    return s

  def prove(ob):
    dom = domain(enc, "xyzz")
    bk, pts, idx, flags = prepare(
        dom.zero, lambda w, b: dom.point(f"b{w}_{b}"),
        lambda i: dom.point(f"P{i}"))
    out = ghost.run(member(enc, fn_name), [(bk, U16), (pts, U16), idx, flags],
                    dom, tag(enc, "xyzz"), msm_length=n)
    all_ok(ob, "bucket contents", (
        check_block(ob, f"window {w} bucket {b}", dom, out[:, w, b],
                    want(w, b, ix, fl))
        for w, (ix, fl) in enumerate(combos) for b in range(B)))

  def concrete(unit, rng, k, hints):
    del hints
    g = group(enc)
    fn = member(enc, fn_name)
    for _ in range(max(1, min(4, k // 20))):
      atoms = {}

      def mk(name):
        atoms[name] = g.random(rng, "xyzz")
        return atoms[name]
      bk, pts, idx, flags = prepare(
          lambda: g.zero("xyzz"), lambda w, b: mk(f"b{w}_{b}"),
          lambda i: mk(f"P{i}"))
      out = np.asarray(fn(*[jnp.asarray(x) for x in (
          bk.astype(U16), pts.astype(U16), idx, flags)], msm_length=n))
      unit.evals += W
      for w, (ix, fl) in enumerate(combos):
        for b in range(B):
          t = want(w, b, ix, fl)
          if not g.same("xyzz", out[:, w, b],
                        g.combo("xyzz", [(c, atoms[a]) for a, c in t.items()])
                        if t else None):
            return dict(function=fn_name, indices=ix, zero_flags=fl, bucket=b,
                        expected=t, got=out[:, w, b])
    return None
  return prove, concrete


def ba_select(enc, fn_name, n, combos):
  """XYZZ accumulation by selection mask; one bucket for every case."""
  BD = len(combos)

  def prepare(zero, bucket, point):
    sel = np.zeros((n, BD), np.uint8)
    flags = np.zeros((n, BD), np.uint8)
    cols = []
    for d, (ss, z) in enumerate(combos):
      cols.append(zero() if z else bucket(d))
      for i in range(n):
        sel[i, d], flags[i, d] = ss[i], z
        z = z and not ss[i]
    return stack(cols), np.stack([point(i) for i in range(n)]), sel, flags

  def want(d, ss, z):
    s = {} if z else {f"b{d}": 1}
    for i in range(n):
      if ss[i]:
        s = plus(s, {f"P{i}": 1})
    return s

  def prove(ob):
    dom = domain(enc, "xyzz")
    bk, pts, sel, flags = prepare(
        dom.zero, lambda d: dom.point(f"b{d}"), lambda i: dom.point(f"P{i}"))
    out = ghost.run(member(enc, fn_name), [(bk, U16), (pts, U16), sel, flags],
                    dom, tag(enc, "xyzz"), msm_length=n)
    all_ok(ob, "bucket contents", (
        check_block(ob, f"case {ss} {z}", dom, out[:, d], want(d, ss, z))
        for d, (ss, z) in enumerate(combos)))

  def concrete(unit, rng, k, hints):
    del hints
    g = group(enc)
    fn = member(enc, fn_name)
    for _ in range(max(1, min(10, k // 10))):
      atoms = {}

      def mk(name):
        atoms[name] = g.random(rng, "xyzz")
        return atoms[name]
      bk, pts, sel, flags = prepare(
          lambda: g.zero("xyzz"), lambda d: mk(f"b{d}"), lambda i: mk(f"P{i}"))
      out = np.asarray(fn(*[jnp.asarray(x) for x in (
          bk.astype(U16), pts.astype(U16), sel, flags)], msm_length=n))
      unit.evals += BD
      for d, (ss, z) in enumerate(combos):
        t = want(d, ss, z)
        if not g.same("xyzz", out[:, d],
                      g.combo("xyzz", [(c, atoms[a]) for a, c in t.items()])
                      if t else None):
          return dict(function=fn_name, selected=ss, zero_flag=z, expected=t,
                      got=out[:, d])
    return None
  return prove, concrete


def ba_twisted(enc, fn_name, steps, par, B, combos, signed=False):
  """Twisted accumulation with `par` points a step; window w of lane p takes
  the digits combos[w] (steps x par; signed: pairs digit, sign); digit -1 is
  no bucket."""
  W = len(combos)

  def prepare(bucket, point):
    bk = np.stack([np.stack([bucket(p, w, b) for b in range(B)])
                   for p in range(par) for w in range(W)])
    bk = np.ascontiguousarray(bk.transpose(2, 0, 1, 3))
    pts = np.stack([stack([point(t, p) for p in range(par)])
                    for t in range(steps)])
    idx = np.zeros((steps, par * W), np.uint32)
    sgn = np.zeros((steps, par * W), np.uint8)
    for t in range(steps):
      for p in range(par):
        for w in range(W):
          d = combos[w][(t + p) % len(combos[w])]
          d, s = d if signed else (d, 0)
          idx[t, p * W + w] = np.array(d).astype(np.uint32)
          sgn[t, p * W + w] = s
    return bk, pts, idx, sgn

  def want(p, w, b):
    s = {f"b{p}_{w}_{b}": 1}
    for t in range(steps):
      d = combos[w][(t + p) % len(combos[w])]
      d, sg = d if signed else (d, 0)
      if d == b:
        s = plus(s, {f"P{t}_{p}": -1 if sg else 1})
    return s

  def prove(ob):
    dom = domain(enc, "twisted")
    bk, pts, idx, sgn = prepare(lambda p, w, b: dom.point(f"b{p}_{w}_{b}"),
                                lambda t, p: dom.point(f"P{t}_{p}"))
    args = [(bk, U16), (pts, U16), idx] + ([sgn] if signed else [])
    out = ghost.run(member(enc, fn_name), args, dom, tag(enc, "twisted"),
                    msm_length=steps)
    all_ok(ob, "bucket contents", (
        check_block(ob, f"lane {p} window {w} bucket {b}", dom,
                    out[:, p * W + w, b], want(p, w, b))
        for p in range(par) for w in range(W) for b in range(B)))

  def concrete(unit, rng, k, hints):
    del hints
    g = group(enc)
    fn = member(enc, fn_name)
    for _ in range(max(1, min(4, k // 20))):
      atoms = {}

      def mk(name):
        atoms[name] = g.random(rng, "twisted")
        return atoms[name]
      bk, pts, idx, sgn = prepare(lambda p, w, b: mk(f"b{p}_{w}_{b}"),
                                  lambda t, p: mk(f"P{t}_{p}"))
      args = [bk.astype(U16), pts.astype(U16), idx] + (
          [sgn] if signed else [])
      out = np.asarray(fn(*[jnp.asarray(x) for x in args], msm_length=steps))
      unit.evals += W * par
      for p in range(par):
        for w in range(W):
          for b in range(B):
            t = want(p, w, b)
            if not g.same("twisted", out[:, p * W + w, b], g.combo(
                "twisted", [(c, atoms[a]) for a, c in t.items()])):
              return dict(function=fn_name, lane=p, digits=combos[w],
                          bucket=b, expected=t, got=out[:, p * W + w, b])
    return None
  return prove, concrete


# -- reduction --------------------------------------------------------------------


def host(enc, cls, s, W, B=None, par=1, scalars=()):
  """A real instance with another number of windows."""
  c = member(enc, cls)
  o = c(s) if cls == "MSMPippenger" else c(s, par)
  o.window_num = W
  if B is not None:
    o.bucket_num_per_window = B
  o.scalars = list(scalars)
  return o


def br_flags(enc, flags, B):
  """Zero flags of the real host code for bucket flags (W, B)."""
  W = len(flags)
  o = host(enc, "MSMPippenger", 2, W, B)
  b, t, w = o.construct_br_zero_states([list(f) for f in flags])
  return [np.array(x, dtype=np.uint8)[:B] for x in (b, t, w)]


def br_xyzz(enc, fn_name, B, flags):
  """Buckets with the given zero flags, one window each, from blank sums."""
  W = len(flags)

  def cols(zero, bucket):
    bk = np.stack([np.stack([zero() if flags[w][b] else bucket(w, b)
                             for b in range(B)]) for w in range(W)])
    return np.ascontiguousarray(bk.transpose(2, 0, 1, 3))

  def want(w):
    return {f"b{w}_{b}": b for b in range(1, B) if not flags[w][b]}

  def prove(ob):
    dom = domain(enc, "xyzz")
    bk = cols(dom.zero, lambda w, b: dom.point(f"b{w}_{b}"))
    blank = np.zeros((4, W, dom.L), U16)
    out = ghost.run(member(enc, fn_name),
                    [(bk, U16), blank, blank] + br_flags(enc, flags, B), dom,
                    tag(enc, "xyzz"), bucket_num_in_window=B)
    all_ok(ob, "window sum", (
        check_block(ob, f"zero flags {flags[w]}", dom, out[:, w], want(w))
        for w in range(W)))

  def concrete(unit, rng, k, hints):
    del hints
    g = group(enc)
    fn = member(enc, fn_name)
    for _ in range(max(1, min(3, k // 20))):
      atoms = {}

      def mk(w, b):
        atoms[f"b{w}_{b}"] = g.random(rng, "xyzz")
        return atoms[f"b{w}_{b}"]
      bk = cols(lambda: g.zero("xyzz"), mk).astype(U16)
      blank = jnp.zeros((4, W, g.L), jnp.uint16)
      out = np.asarray(fn(
          jnp.asarray(bk), blank, blank,
          *[jnp.asarray(x) for x in br_flags(enc, flags, B)],
          bucket_num_in_window=B))
      unit.evals += W
      for w in range(W):
        t = want(w)
        if not g.same("xyzz", out[:, w], g.combo(
            "xyzz", [(c, atoms[a]) for a, c in t.items()]) if t else None):
          return dict(function=fn_name, zero_flags=flags[w], expected=t,
                      got=out[:, w])
    return None
  return prove, concrete


def br_step(enc, fn_name):
  """One step from any running and window sum: temp' = temp + bucket and
  window' = window + temp'.  Together with the flags (their own unit) this is
  the induction step for every number of buckets."""
  # flags (temp, bucket, window): the window sum is zero while temp is
  cases = [(t, b, w) for t in (0, 1) for b in (0, 1) for w in (0, 1)
           if not (t and not w)]
  eqs = [(1, 0, 1), (0, 1, 0)]  # temp and window the same block

  def prove(ob):
    dom = domain(enc, "xyzz")
    W = len(cases) + 1
    bk = np.empty((4, W, 2, dom.L), dtype=object)
    tmp = np.empty((4, W, dom.L), dtype=object)
    win = np.empty((4, W, dom.L), dtype=object)
    fb, ft, fw = (np.zeros((2, W), np.uint8) for _ in range(3))
    wants = []
    for i, (t, b, w) in enumerate(cases):
      bk[:, i, 1] = dom.zero() if b else dom.point(f"b{i}")
      bk[:, i, 0] = dom.point(f"low{i}")
      tmp[:, i] = dom.zero() if t else dom.point(f"t{i}")
      win[:, i] = dom.zero() if w else dom.point(f"w{i}")
      fb[0, i], ft[0, i], ft[1, i], fw[0, i] = b, t, t & b, w
      fw[1, i] = w & t & b
      x = plus({} if t else {f"t{i}": 1}, {} if b else {f"b{i}": 1})
      wants.append(plus(x, {} if w else {f"w{i}": 1}))
    # the block in the window sum is the running sum itself
    i = len(cases)
    bk[:, i, 1], bk[:, i, 0] = dom.zero(), dom.point("low")
    tmp[:, i] = win[:, i] = dom.point("same")
    fb[0, i] = 1
    wants.append({"same": 2})
    out = ghost.run(member(enc, fn_name),
                    [(bk, U16), (tmp, U16), (win, U16), fb, ft, fw], dom,
                    tag(enc, "xyzz"), bucket_num_in_window=2)
    all_ok(ob, "window sum after the step", (
        check_block(ob, f"case {(cases + eqs)[i]}", dom, out[:, i], wants[i])
        for i in range(W)))
  return prove, br_xyzz(enc, fn_name, 4,
                        list(itertools.product((0, 1), repeat=4)))[1]


def br_twisted(enc, fn_name, B, pats):
  """pats: per window, per bucket: 0 point, 1 identity."""
  W = len(pats)

  def cols(zero, bucket):
    bk = np.stack([np.stack([zero() if pats[w][b] else bucket(w, b)
                             for b in range(B)]) for w in range(W)])
    return np.ascontiguousarray(bk.transpose(2, 0, 1, 3))

  def want(w):
    return {f"b{w}_{b}": b + 1 for b in range(B) if not pats[w][b]}

  def prove(ob):
    dom = domain(enc, "twisted")
    bk = cols(dom.zero, lambda w, b: dom.point(f"b{w}_{b}"))
    blank = stack([dom.identity] * W).astype(U16)
    out = ghost.run(member(enc, fn_name), [(bk, U16), blank, blank], dom,
                    tag(enc, "twisted"), bucket_num_in_window=B)
    all_ok(ob, "window sum", (
        check_block(ob, f"identities {pats[w]}", dom, out[:, w], want(w))
        for w in range(W)))
    # the induction step, from any running and window sum
    tmp = stack([dom.point("t0"), dom.point("t0"), dom.zero()])
    win = stack([dom.point("w0"), tmp[:, 1], dom.point("w0")])
    bk = np.stack([stack([dom.point("b")] + [dom.zero()] + [dom.point("b")])],
                  axis=2)
    out = ghost.run(member(enc, fn_name),
                    [(bk, U16), (tmp, U16), (win, U16)], dom,
                    tag(enc, "twisted"), bucket_num_in_window=1)
    w = [{"t0": 1, "w0": 1, "b": 1}, {"t0": 2}, {"w0": 1, "b": 1}]
    all_ok(ob, "window sum after one step from any sums", (
        check_block(ob, f"step case {i}", dom, out[:, i], w[i])
        for i in range(3)))

  def concrete(unit, rng, k, hints):
    del hints
    g = group(enc)
    fn = member(enc, fn_name)
    for _ in range(max(1, min(3, k // 20))):
      atoms = {}

      def mk(w, b):
        atoms[f"b{w}_{b}"] = g.random(rng, "twisted")
        return atoms[f"b{w}_{b}"]
      bk = cols(lambda: g.zero("twisted"), mk).astype(U16)
      blank = jnp.asarray(stack([g.ident] * W).astype(U16))
      out = np.asarray(fn(jnp.asarray(bk), blank, blank,
                          bucket_num_in_window=B))
      unit.evals += W
      for w in range(W):
        t = want(w)
        if not g.same("twisted", out[:, w], g.combo(
            "twisted", [(c, atoms[a]) for a, c in t.items()])):
          return dict(function=fn_name, identities=pats[w], expected=t,
                      got=out[:, w])
    return None
  return prove, concrete


def batch_sum(enc, fn_name, cfgs=((1, 3), (2, 3), (4, 2), (3, 1))):
  """cfgs: (lanes, windows)."""
  def prove(ob):
    for par, W in cfgs:
      dom = domain(enc, "twisted")
      a = stack([dom.point(f"s{p}_{w}") for p in range(par) for w in range(W)])
      init = stack([dom.zero()] * W).astype(U16)
      out = ghost.run(member(enc, fn_name), [init, (a, U16)], dom,
                      tag(enc, "twisted"), point_parallel=par)
      ob.true(f"lanes {par}: shape", out.shape == (4, W, dom.L))
      all_ok(ob, f"lanes {par}: sum over lanes", (
          check_block(ob, f"lanes {par} window {w}", dom, out[:, w],
                      {f"s{p}_{w}": 1 for p in range(par)})
          for w in range(W)))

  def concrete(unit, rng, k, hints):
    del hints, k
    g = group(enc)
    fn = member(enc, fn_name)
    for par, W in cfgs:
      e = [[g.random(rng, "twisted") for _ in range(W)] for _ in range(par)]
      a = stack([e[p][w] for p in range(par) for w in range(W)]).astype(U16)
      init = stack([g.ident] * W).astype(U16)
      out = np.asarray(fn(jnp.asarray(init), jnp.asarray(a),
                          point_parallel=par))
      unit.evals += W
      for w in range(W):
        if not g.same("twisted", out[:, w], g.combo(
            "twisted", [(1, e[p][w]) for p in range(par)])):
          return dict(function=fn_name, lanes=par, window=w, got=out[:, w])
    return None
  return prove, concrete


def merge(enc, fn_name, kind, cfgs):
  """cfgs: (windows, slice length, zero flags of the windows)."""
  def want(W, s, z):
    return {f"w{w}": 1 << (s * w) for w in range(W) if not z[w]}

  def prove(ob):
    oks = []
    for W, s, z in cfgs:
      dom = domain(enc, kind)
      a = stack([dom.zero() if z[w] else dom.point(f"w{w}")
                 for w in range(W)])
      out = ghost.run(member(enc, fn_name), [(a, U16)], dom, tag(enc, kind),
                      slice_length=s)
      oks.append(check_block(ob, f"windows {W}, slice {s}, zero {z}", dom,
                             out, want(W, s, z)))
    all_ok(ob, "weighted sum of the windows", oks)

  def concrete(unit, rng, k, hints):
    del hints
    g = group(enc)
    fn = member(enc, fn_name)
    picks = list(cfgs)
    rng.shuffle(picks)
    for W, s, z in picks[:max(6, k // 20)]:
      if W > 20:
        continue
      e = [g.zero(kind) if z[w] else g.random(rng, kind) for w in range(W)]
      out = np.asarray(fn(jnp.asarray(stack(e).astype(U16)), slice_length=s))
      unit.evals += 1
      t = [(1 << (s * w), e[w]) for w in range(W) if not z[w]]
      if not g.same(kind, out, g.combo(kind, t) if t or kind == "twisted"
                    else None):
        return dict(function=fn_name, windows=W, slice_length=s, zero=z,
                    got=out)
    return None
  return prove, concrete


# -- host code: slicing and flags ---------------------------------------------------


def digit(k, s, w):
  return (k >> (s * w)) & ((1 << s) - 1)


def some_scalars(rng, n, s):
  W = -(-BITS // s)
  out = []
  half, m = 1 << (s - 1), (1 << s) - 1
  for _ in range(n):
    r = rng.random()
    if r < .15:
      k = rng.randrange(1 << rng.choice([0, 1, s, 2 * s + 1, 64]))
    elif r < .3:
      k = sum(rng.choice([half - 1, half, half, m, 0]) << (s * w)
              for w in range(W - 1 - (r < .2)))
    elif r < .4:
      k = ORDER - 1 - rng.randrange(4)
    else:
      k = rng.randrange(ORDER)
    out.append(k % ORDER)
  return out


def slicing(enc):
  """construct_ba_selection: digits minus one, for a symbolic scalar at the
  real number of windows."""
  name = "MSMPippengerTwisted.construct_ba_selection"

  def prove(ob):
    for s in SLICES:
      o = host(enc, "MSMPippengerTwisted", s, -(-BITS // s))

      def fn(e, o=o):
        k = e.var("k", 0, (1 << BITS) - 1)
        o.scalars = [k, 5, k]
        return k, o.construct_ba_selection()
      paths = list(pysym.explore(fn, modules=[module(enc)]))
      ob.true(f"slice {s}: one path", len(paths) == 1 and not paths[0].raised)
      for p in paths:
        k, rows = p.result
        c = p.c
        ob.true(f"slice {s}: shape", len(rows) == 3 and
                all(len(r) == o.window_num for r in rows))
        for i, kk in ((0, val(k)), (1, 5), (2, val(k))):
          tot = c.total([c.mul(c.add(val(x), 1), 1 << (s * w))
                         for w, x in enumerate(rows[i])])
          ob.eq(f"slice {s} scalar {i}: digits make up the scalar", c, tot, kk)
          for w, x in enumerate(rows[i]):
            lo, hi = c.rng(val(x))
            ob.true(f"slice {s} scalar {i} window {w}: digit in range",
                    lo is not None and lo >= -1 and hi <= (1 << s) - 2)

  def concrete(unit, rng, k, hints):
    del hints
    for _ in range(max(5, k)):
      s = rng.choice(SLICES)
      o = host(enc, "MSMPippengerTwisted", s, -(-BITS // s))
      o.scalars = some_scalars(rng, 3, s)
      rows = o.construct_ba_selection()
      unit.evals += 1
      for i, kk in enumerate(o.scalars):
        w = [digit(kk, s, w) - 1 for w in range(o.window_num)]
        if list(rows[i]) != w:
          return dict(function=name, scalar=kk, slice_length=s, got=rows[i])
    return None
  return prove, concrete, name


# `if` on a symbolic condition whose branches only assign names, turned into a
# selection of both outcomes, so that one execution covers all paths.


class Merge(ast.NodeTransformer):
  """Mechanical: if c: A else: B  ->  run A and B on the same state, then
  select every assigned name.  Only for branches made of assignments."""

  def __init__(self):
    self.n = 0

  def visit_Assert(self, node):
    return ast.Pass()  # an obligation of its own

  def visit_If(self, node):
    self.generic_visit(node)
    names = []
    for st in node.body + node.orelse:
      if isinstance(st, ast.Assign) and all(isinstance(t, ast.Name)
                                            for t in st.targets):
        names += [t.id for t in st.targets]
      elif isinstance(st, ast.AugAssign) and isinstance(st.target, ast.Name):
        names.append(st.target.id)
      else:
        return node
    names = sorted(set(names))
    self.n += 1
    k = self.n
    def parse(src):
      return ast.parse(textwrap.dedent(src)).body
    get = ", ".join(f"locals().get({n!r})" for n in names)
    tup = "(" + ", ".join(names) + ",)"
    sym = parse(f"_sv{k} = ({get},)") + node.body + parse(
        f"_t{k} = ({get},)\n{tup} = _sv{k}") + (node.orelse or []) + parse(
            f"_e{k} = ({get},)\n"
            f"{tup} = __merge__(_c{k}, _t{k}, _e{k})")
    return parse(f"_c{k} = None") + [
        ast.Assign([ast.Name(f"_c{k}", ast.Store())], node.test),
        ast.If(ast.parse(f"__symbolic__(_c{k})", mode="eval").body, sym,
               [ast.If(ast.Name(f"_c{k}", ast.Load()), node.body,
                       node.orelse)])]


def merged(fn):
  src = textwrap.dedent(inspect.getsource(fn))
  tree = Merge().visit(ast.parse(src))
  ast.fix_missing_locations(tree)
  env = dict(fn.__globals__)

  def pick(c, t, e):
    out = []
    for a, b in zip(t, e):
      if a is b:
        out.append(a)
      elif a is None or b is None:
        out.append(None)
      else:
        out.append(pysym.mk(c.e, c.e.c.ite(c.v, val(a), val(b))))
    return tuple(out)

  def mabs(x):
    if not isinstance(x, pysym.S):
      return abs(x)
    c = x.e.c
    lo, hi = c.rng(x.v)
    if lo is not None and lo >= 0:
      return x
    if hi is not None and hi <= 0:
      return -x
    return pysym.mk(x.e, c.ite(c.ge0(x.v), x.v, c.neg(x.v)))
  env.update(__symbolic__=lambda c: isinstance(c, pysym.B), __merge__=pick,
             abs=mabs)
  exec(compile(tree, fn.__code__.co_filename, "exec"), env)  # pylint: disable=exec-used
  return env[fn.__name__]


def signed_slicing():
  enc = "lazy"
  name = "MSMPippengerTwistedSigned.construct_ba_selection_with_sign"

  def total(c, s, idx, sg):
    return c.total([c.mul(c.mul(c.add(val(i), 1), c.sub(1, c.mul(2, val(g)))),
                          1 << (s * w)) for w, (i, g) in
                    enumerate(zip(idx, sg))])

  def small(ob, s, W):
    """All paths, every scalar whose last carry vanishes."""
    top = ((1 << (s - 1)) - 1) * (((1 << (s * W)) - 1) // ((1 << s) - 1))
    o = host(enc, "MSMPippengerTwistedSigned", s, W)

    def fn(e):
      k = e.var("k", 0, top)
      o.scalars = [k]
      return k, o.construct_ba_selection_with_sign()
    n = 0
    for p in pysym.explore(fn, modules=[module(enc)]):
      n += 1
      t = f"slice {s}, {W} windows, path {n}"
      ob.true(f"{t}: does not raise", not p.raised, str(p.raised))
      if p.raised:
        continue
      k, (ii, ss) = p.result
      c = p.c
      ob.true(f"{t}: shape", len(ii) == len(ss) == 1 and
              len(ii[0]) == len(ss[0]) == W)
      ob.eq(f"{t}: signed digits make up the scalar", c,
            total(c, s, ii[0], ss[0]), val(k))
      for w in range(W):
        ob.ge(f"{t} window {w}: digit at least 0", c, c.add(val(ii[0][w]), 1),
              0)
        ob.ge(f"{t} window {w}: bucket exists", c,
              (1 << (s - 1)) - 1, val(ii[0][w]))
        ob.true(f"{t} window {w}: sign is 0 or 1", val(ss[0][w]) in (0, 1))
    ob.true(f"slice {s}, {W} windows: paths", n > 0)

  def prove(ob):
    ob.soft = True
    for s in (2, 3, 4, 8):
      for W in (1, 2, 3):
        small(ob, s, W)

  def real(ob, s):
    """The real number of windows, all paths merged, by a carry invariant."""
    ob.soft = True  # the invariant is one way to show it
    W, half, D = -(-BITS // s), 1 << (s - 1), 1 << s
    o = host(enc, "MSMPippengerTwistedSigned", s, W)
    fn = merged(type(o).construct_ba_selection_with_sign)
    e = pysym.Engine()
    c = e.c
    k = e.var("k", 0, ORDER - 1)
    o.scalars = [k]
    with pysym.shims([module(enc)]):
      ii, ss = fn(o)
    ob.true(f"slice {s}: shape", len(ii) == len(ss) == 1 and
            len(ii[0]) == len(ss[0]) == W)
    ob.true(f"slice {s}: one run", not e.taken, f"{len(e.taken)} decisions")
    qs = [val(k)] + [c.fdiv(val(k), 1 << (s * w)) for w in range(1, W)] + [0]
    prev = 0
    for w in range(W):
      d = c.add(val(ii[0][w]), 1)
      g = val(ss[0][w])
      x = c.add(c.sub(qs[w], c.mul(D, qs[w + 1])), prev)
      t = f"slice {s} window {w}"
      ob.eq(f"{t}: signed digit is slice plus carry minus next carry", c,
            c.mul(d, c.sub(1, c.mul(2, g))), c.sub(x, c.mul(D, g)))
      lo, hi = c.rng(g)
      ob.true(f"{t}: sign is 0 or 1", (lo, hi) in ((0, 1), (0, 0), (1, 1)))
      ob.ge(f"{t}: digit at least 0", c, d, 0)
      ob.ge(f"{t}: bucket exists", c, half, d)
      prev = g
    # summed over the windows, k = (signed digits) + carry 2^(sW), so a carry
    # out of the last window would mean k >= 2^(sW) - half sum 2^(sw)
    T = (1 << (s * W)) - half * sum(1 << (s * w) for w in range(W))
    ob.true(f"slice {s}: no carry leaves the last window", T >= ORDER)

  def at_size(ob):
    for s in SLICES:
      real(ob, s)

  def concrete(unit, rng, k, hints):
    del hints
    for _ in range(max(5, k)):
      s = rng.choice(SLICES)
      o = host(enc, "MSMPippengerTwistedSigned", s, -(-BITS // s))
      o.scalars = some_scalars(rng, 3, s)
      ii, ss = o.construct_ba_selection_with_sign()
      unit.evals += 1
      for i, kk in enumerate(o.scalars):
        t = sum((1 - 2 * int(g)) * (int(x) + 1) << (s * w)
                for w, (x, g) in enumerate(zip(ii[i], ss[i])))
        if t != kk or len(ii[i]) != o.window_num or not all(
            -1 <= x < (1 << (s - 1)) for x in ii[i]):
          return dict(function=name, scalar=kk, slice_length=s, index=ii[i],
                      sign=ss[i])
    return None
  return prove, at_size, concrete, name


def zero_state_spec(scalars, s, W):
  """Flags before each point and after the last, masks and digits."""
  B = 1 << s
  fl = [[[1] * B for _ in range(W)]]
  for k in scalars:
    cur = [list(r) for r in fl[-1]]
    for w in range(W):
      cur[w][digit(k, s, w)] = 0
    fl.append(cur)
  idx = [[digit(k, s, w) for w in range(W)] for k in scalars]
  sel = [[[int(b == d) for b in range(B)] for d in r] for r in idx]
  return fl, sel, idx


def zero_states(enc):
  name = "MSMPippenger.construct_ba_zero_states_and_selection"

  def bad(scalars, s, W):
    o = host(enc, "MSMPippenger", s, W, scalars=scalars)
    got = o.construct_ba_zero_states_and_selection()
    want = zero_state_spec(scalars, s, W)
    got = tuple([np.array(x).tolist() for x in got])
    return got != tuple(np.array(x).tolist() for x in want)

  def prove(ob):
    # each window sees every sequence of digits in some window: the result for
    # a window is compared for all of them
    for s, n in ((2, 1), (2, 2), (2, 3), (3, 1), (3, 2), (4, 1)):
      seqs = list(itertools.product(range(1 << s), repeat=n))
      ks = [sum(q[i] << (s * w) for w, q in enumerate(seqs))
            for i in range(n)]
      ob.true(f"slice {s}, {n} scalars, all digit sequences",
              not bad(ks, s, len(seqs)), backend="exhaustive evaluation")
    # at the real sizes every window, every digit
    for s in (2, 4):
      W = -(-BITS // s)
      ok = all(not bad([((v + w) % (1 << s)) << (s * w)
                        for w in (u, (u * 7 + 1) % W)], s, W)
               for u in range(W) for v in (range(4) if s == 2 else (0, 3, 9)))
      ob.true(f"slice {s}: every window at the real size", ok,
              backend="exhaustive evaluation")

  def concrete(unit, rng, k, hints):
    del hints
    for _ in range(max(3, k // 4)):
      s = rng.choice((2, 3, 4))
      n = rng.randrange(1, 5)
      ks = some_scalars(rng, n, s)
      unit.evals += 1
      if bad(ks, s, -(-BITS // s)):
        return dict(function=name, scalars=ks, slice_length=s)
    return None
  return prove, concrete, name


def br_states(enc):
  name = "MSMPippenger.construct_br_zero_states"

  def bad(flags, B):
    b, t, w = br_flags(enc, flags, B)
    for x, f in enumerate(flags):
      rev = list(f)[::-1]
      tt, ww = 1, 1
      for i in range(B):
        if int(b[i][x]) != rev[i] or int(t[i][x]) != tt or (
            int(w[i][x]) != ww):
          return dict(zero_flags=f, step=i)
        tt &= rev[i]
        ww &= tt
    return None

  def prove(ob):
    for B in (2, 4, 8):
      fl = list(itertools.product((0, 1), repeat=B))
      r = bad(fl, B)
      ob.true(f"{B} buckets, every flag pattern", r is None, str(r),
              "exhaustive evaluation")
    for B in (16, 32, 256):
      fl = [[int(b != i) for b in range(B)] for i in range(B)] + [
          [int(b < i) for b in range(B)] for i in range(B)] + [[1] * B,
                                                               [0] * B]
      r = bad(fl, B)
      ob.true(f"{B} buckets, one or a run of empty buckets", r is None, str(r),
              "evaluation")

  def concrete(unit, rng, k, hints):
    del hints
    for _ in range(max(3, k // 4)):
      B = rng.choice((4, 8, 16))
      fl = [[rng.randrange(2) for _ in range(B)] for _ in range(6)]
      unit.evals += 1
      r = bad(fl, B)
      if r:
        return dict(function=name, **r)
    return None
  return prove, concrete, name


# -- composition ------------------------------------------------------------------

CLASSES = {
    ("lazy", "xyzz"): "MSMPippenger", ("rns", "xyzz"): "MSMPippenger",
    ("lazy", "twisted"): "MSMPippengerTwisted",
    ("rns", "twisted"): "MSMPippengerTwisted",
    ("lazy", "signed"): "MSMPippengerTwistedSigned",
}


def compose(enc, kind, s, n, par=1):
  """All sequences of n digits (one window each) through host code,
  accumulation, reduction, batch summation and merge: the result is the
  weighted sum of the points with exactly the scalars as weights."""
  def prove(ob):
    D = 1 << s
    seqs = list(itertools.product(range(D), repeat=n))
    W = len(seqs) + (kind == "signed")
    ks = [sum(q[i] << (s * w) for w, q in enumerate(seqs)) for i in range(n)]
    names = [f"P{i}" for i in range(n)]
    want = {names[i]: ks[i] for i in range(n) if ks[i]}
    if kind == "xyzz":
      o = host(enc, "MSMPippenger", s, W, scalars=ks)
      dom = domain(enc, "xyzz")
      z, _, idx = o.construct_ba_zero_states_and_selection()
      br = br_flags(enc, z[-1], D)
      t = tag(enc, "xyzz")
      bk = np.zeros((4, W, D, dom.L), U16)
      pts = np.stack([dom.point(x) for x in names])
      bk = ghost.run(member(enc, "bucket_accumulation_index_scan_algorithm"),
                     [bk, (pts, U16), np.array(idx, np.uint32),
                      np.array(z, np.uint8)[:n]], dom, t, msm_length=n)
      blank = np.zeros((4, W, dom.L), U16)
      ws = ghost.run(member(enc, "bucket_reduction_scan_algorithm"),
                     [(bk, U16), blank, blank] + br, dom, t,
                     bucket_num_in_window=D)
      r = ghost.run(member(enc, "window_merge_scan_algorithm"), [(ws, U16)],
                    dom, t, slice_length=s)
    else:
      cls = CLASSES[enc, kind]
      o = host(enc, cls, s, W, par=par, scalars=ks)
      dom = domain(enc, "twisted")
      t = tag(enc, "twisted")
      B = D - 1 if kind == "twisted" else D // 2
      if kind == "twisted":
        lists = [np.array(o.construct_ba_selection()).astype(np.uint32)]
        fn = "bucket_accumulation_index_scan_parallel_algorithm_twisted"
      else:
        a, b = o.construct_ba_selection_with_sign()
        lists = [np.array(a).astype(np.uint32), np.array(b, dtype=np.uint8)]
        fn = ("bucket_accumulation_signed_index_scan_parallel_"
              "algorithm_twisted")
      lists = [x.reshape(-1, W * par) for x in lists]
      bk = np.broadcast_to(dom.identity[:, None, None, :],
                           (4, W * par, B, dom.L)).astype(U16)
      pts = np.stack([dom.point(x) for x in names])
      pts = pts.reshape(-1, par, 4, dom.L).transpose(0, 2, 1, 3)
      bk = ghost.run(member(enc, fn), [bk, (pts, U16)] + lists, dom, t,
                     msm_length=n // par)
      blank = stack([dom.identity] * (W * par)).astype(U16)
      ws = ghost.run(member(enc, "bucket_reduction_scan_algorithm_twisted"),
                     [(bk, U16), blank, blank], dom, t,
                     bucket_num_in_window=B)
      blank = stack([dom.identity] * W).astype(U16)
      ws = ghost.run(member(enc, "batch_window_summation_algorithm_twisted"),
                     [blank, (ws, U16)], dom, t, point_parallel=par)
      r = ghost.run(member(enc, "window_merge_scan_algorithm_twisted"),
                    [(ws, U16)], dom, t, slice_length=s)
    g = dom.read(r)
    ob.true("sum of every scalar times its point", g.kind == "pt" and
            g.lin == want, f"is {str(g)[:300]}", "formal-sum")
  return prove, whole(enc, kind, s, par)


def whole(enc, kind, s, par=1, scan=True):
  """The real class from integers to result, over the stand-in group."""
  gk = "xyzz" if kind == "xyzz" else "twisted"

  def concrete(unit, rng, k, hints):
    del hints
    g = group(enc)
    pp = module(enc)
    for _ in range(max(1, min(4, k // 40))):
      n = rng.choice((1, 2, 3)) * par
      ks = some_scalars(rng, n, s)
      els = [g.random(rng, gk) for _ in range(n)]
      pts = [g.ints(e, gk) for e in els]
      o = member(enc, CLASSES[enc, kind])(*((s,) if kind == "xyzz"
                                            else (s, par)))
      f = lambda nm, **kw: functools.partial(getattr(pp, nm), **kw)
      sc = "_scan" if scan else ""
      o.initialize(list(ks), [list(p) for p in pts])
      if kind == "xyzz":
        o.bucket_accumulation(f(f"bucket_accumulation_index{sc}_algorithm",
                                msm_length=n))
        o.bucket_reduction(f(f"bucket_reduction{sc}_algorithm",
                             bucket_num_in_window=1 << s))
        r = o.window_merge(f(f"window_merge{sc}_algorithm", slice_length=s))
      else:
        fn = ("bucket_accumulation_index_scan_parallel_algorithm_twisted"
              if kind == "twisted" else "bucket_accumulation_signed_index_"
              "scan_parallel_algorithm_twisted")
        o.bucket_accumulation(f(fn, msm_length=n // par))
        B = (1 << s) - 1 if kind == "twisted" else 1 << (s - 1)
        o.bucket_reduction(f("bucket_reduction_scan_algorithm_twisted",
                             bucket_num_in_window=B))
        o.batch_window_summation(f("batch_window_summation_algorithm_twisted",
                                   point_parallel=par))
        r = o.window_merge(f("window_merge_scan_algorithm_twisted",
                             slice_length=s))
      unit.evals += 1
      want = g.combo(gk, list(zip(ks, els)))
      if not g.same(gk, r, want):
        return dict(cls=CLASSES[enc, kind], scalars=ks, points=pts,
                    slice_length=s, parallel=par, got=np.asarray(r),
                    expected=want)
    return None
  return concrete


def glue(enc, kind, s, par=1):
  """Layout of the arrays the class hands to the algorithms: every word of the
  points carries its own label, so their places show in the result."""
  def prove(ob):
    g = group(enc)
    gk = "xyzz" if kind == "xyzz" else "twisted"
    for n in (par, 3 * par):
      c = member(enc, CLASSES[enc, kind])
      o = c(s) if kind == "xyzz" else c(s, par)
      els = []
      for i in range(n):
        e = np.array([[(1 + i * 101 + cc * 1009 + l * 13) % int(g.m[l])
                       for l in range(g.L)] for cc in range(4)])
        if gk == "xyzz":
          e[2:] = g.one
        els.append(e)
      W = -(-BITS // s)
      B = {"xyzz": 1 << s, "twisted": (1 << s) - 1,
           "signed": 1 << (s - 1)}[kind]
      ks = [(0x9E3779B97F4A7C15F39CC0605CEDC835 * (i + 3) ** 7) % ORDER
            for i in range(n)]
      t = f"{n} points"
      ob.true(f"{t}: windows cover the scalars", o.window_num * s >= BITS - 1
              and o.window_num == W)
      got = {}
      o.initialize(list(ks), [g.ints(e, gk) for e in els])

      def grab(key, ret):
        def f(*a):
          got[key] = [np.asarray(x) for x in a]
          return ret
        return f
      o.bucket_accumulation(grab("ba", "BUCKETS"))
      ob.true(f"{t}: accumulated buckets are kept", o.all_buckets == "BUCKETS")
      blank = g.zero(gk)
      lab = (np.arange(4 * W * par * B * g.L).reshape(4, W * par, B, g.L)
             % 65521).astype(U16)
      o.all_buckets = jnp.asarray(lab)
      wl = (np.arange(4 * W * par * g.L).reshape(4, W * par, g.L) % 65519
            ).astype(U16)
      o.bucket_reduction(grab("br", wl))
      if kind != "xyzz":
        wl2 = wl[:, :W] + 1
        o.batch_window_summation(grab("bw", wl2))
      else:
        wl2 = wl
      r = o.window_merge(grab("wm", "RESULT"))
      ob.true(f"{t}: the merge result is returned", r == "RESULT" and
              o.result == "RESULT")
      ba, br = got["ba"], got["br"]
      ob.true(f"{t}: buckets start at zero", ba[0].shape == lab.shape and
              (ba[0] == blank[:, None, None, :]).all())
      idx = [[digit(k, s, w) for w in range(W)] for k in ks]
      if kind == "xyzz":
        ob.true(f"{t}: points in order", (ba[1] == np.stack(els)).all())
        fl, _, ii = zero_state_spec(ks, s, W)
        ob.true(f"{t}: bucket indices", (ba[2] == np.array(ii)).all())
        ob.true(f"{t}: zero flags", ba[3].shape[0] == n and
                (ba[3] == np.array(fl)[:n]).all())
        b, tt, ww = br_flags(enc, fl[-1], B)
        ob.true(f"{t}: reduction flags", all(
            x.shape == y.shape and (x == y).all()
            for x, y in zip(br[3:], (b, tt, ww))))
        sel = np.asarray(o.selection_list)
        ob.true(f"{t}: selection masks", sel.shape == (n, W * B) and
                (sel == np.array([[int(v == d) for d in r for v in range(B)]
                                  for r in idx])).all())
      else:
        p = np.stack(els).reshape(-1, par, 4, g.L).transpose(0, 2, 1, 3)
        ob.true(f"{t}: points by step and lane", ba[1].shape == p.shape and
                (ba[1] == p).all())
        if kind == "twisted":
          rows = [[(d - 1) % (1 << 32) for d in r] for r in idx]
        else:
          rows, sg = [], []
          for r in idx:
            cy, a, b = 0, [], []
            for d in r:
              d += cy
              cy = int(d >= (1 << (s - 1)))
              a.append((abs(d - (cy << s)) - 1) % (1 << 32))
              b.append(cy)
            rows.append(a)
            sg.append(b)
          ob.true(f"{t}: signs by step and lane",
                  (ba[3] == np.array(sg).reshape(-1, par * W)).all())
        ob.true(f"{t}: bucket indices by step and lane",
                ba[2].shape == (n // par, par * W) and
                (ba[2] == np.array(rows, dtype=np.uint64).reshape(
                    -1, par * W)).all())
        bw = got["bw"]
        ob.true(f"{t}: batch summation gets the window sums",
                bw[0].shape == (4, W, g.L) and
                (bw[0] == blank[:, None, :]).all() and
                bw[1].shape == wl.shape and (bw[1] == wl).all())
      ob.true(f"{t}: reduction gets the buckets and blank sums",
              (br[0] == lab).all() and all(
                  x.shape == (4, W * par, g.L) and
                  (x == blank[:, None, :]).all() for x in br[1:3]))
      ob.true(f"{t}: the merge gets the window sums",
              got["wm"][0].shape == wl2.shape and (got["wm"][0] == wl2).all())
  return prove, whole(enc, kind, s, par)


# -- the zero block under the real doubling --------------------------------------


class Unknown:
  """A word nothing is known of."""


UNK = Unknown()


class ZeroDom(jx.IntDom):
  """Words that are known, and words nothing is known of."""

  def is_sym(self, x):
    return isinstance(x, Unknown) or super().is_sym(x)

  def op(self, name, dt, xs, params=None):
    if not any(isinstance(x, Unknown) for x in xs):
      return super().op(name, dt, xs, params)
    if name in ("mul", "and") and any(
        not isinstance(x, Unknown) and x == 0 for x in xs):
      return 0
    if name == "select" and not isinstance(xs[0], Unknown):
      return xs[1 + int(xs[0])]
    if name == "select" and all(
        not isinstance(x, Unknown) and x == xs[1] for x in xs[1:]):
      return xs[1]
    return UNK

  def convert(self, x, src, dst):
    return x if isinstance(x, Unknown) else super().convert(x, src, dst)

  def total(self, xs, dt):
    if any(isinstance(x, Unknown) for x in xs):
      return UNK
    return super().total(xs, dt)

  def dot(self, xs, ys, dt):
    zs = [(x, y) for x, y in zip(xs, ys)
          if not any(not isinstance(v, Unknown) and v == 0 for v in (x, y))]
    if any(isinstance(v, Unknown) for p in zs for v in p):
      return UNK
    return super().dot([x for x, _ in zs], [y for _, y in zs], dt)

  def all_of(self, xs):
    if any(not isinstance(x, Unknown) and not x for x in xs):
      return 0
    return UNK if any(isinstance(x, Unknown) for x in xs) else 1

  def any_of(self, xs):
    if any(not isinstance(x, Unknown) and x for x in xs):
      return 1
    return UNK if any(isinstance(x, Unknown) for x in xs) else 0

  def bytes_of(self, x, bits, lane):
    if isinstance(x, Unknown):
      return [UNK] * (bits // lane)
    return super().bytes_of(x, bits, lane)

  def join(self, lanes, lane):
    if any(isinstance(x, Unknown) for x in lanes):
      return UNK
    return super().join(lanes, lane)


def widen(interp, eqn, cc, bc, carry):
  """Any number of iterations: words the body may change become unknown."""
  del cc
  body = eqn.params["body_jaxpr"]
  while True:
    new = interp.eval(body.jaxpr, body.consts, list(bc) + list(carry))
    out, stable = [], True
    for a, b in zip(carry, new):
      a, b = jx.to_obj(a), jx.to_obj(b)
      o = np.empty(a.shape, dtype=object)
      for ix in np.ndindex(*a.shape):
        x, y = a[ix], b[ix]
        if isinstance(x, Unknown):
          o[ix] = x
        elif not isinstance(y, Unknown) and x == y:
          o[ix] = x
        else:
          o[ix], stable = UNK, False
      out.append(o)
    if stable:
      return out
    carry = out


def zero_double(enc):
  fn_path = f"jaxite.jaxite_ec.elliptic_curve:pdul_{enc}_xyzz_pack"

  def prove(ob):
    L = group(enc).L
    a = np.full((4, 1, L), UNK, dtype=object)
    a[2] = 0
    flat, _, _ = jx.run_sym(repo(fn_path), [(a, U16)], ZeroDom(),
                            while_rule=widen)
    out = np.asarray(flat[0])
    ob.true("zz of the double of a block with zz = 0 is 0",
            out.shape == (4, 1, L) and all(
                not isinstance(x, Unknown) and x == 0
                for x in out[2].ravel()), str(out[2].ravel()[:4]),
            "formal-sum")

  def concrete(unit, rng, k, hints):
    del hints
    g = group(enc)
    for _ in range(max(1, min(20, k // 10))):
      a = np.array([[rng.randrange(int(x)) for x in g.m] for _ in range(4)],
                   dtype=U16).reshape(4, 1, g.L)
      a[2] = 0
      if rng.random() < .3:
        a[:] = 0
      for _ in range(3):
        a = np.asarray(repo(fn_path)(jnp.asarray(a)))
        unit.evals += 1
        if a[2].any():
          return dict(function=fn_path, got=a)
    return None
  return prove, concrete, fn_path


def long_flags(B):
  """Zero flags of many buckets: none, a pattern, few points, only one."""
  return [(0,) * B, tuple((i * i + i // 3) % 3 % 2 for i in range(B)),
          tuple(int(i not in (1, B // 2, B - 1)) for i in range(B)),
          tuple(int(i != B - 1) for i in range(B))]


def units(tier):
  out = []

  def unit(name, fns, pc, bounded=None, assumes=(), cross=40):
    prove, concrete = pc[0], pc[1]
    u = Unit(name, fns, prove, None, bounded=bounded, cross=cross,
             search=120, assumes=list(assumes) + [
                 "point operations act through their contracts (C19): they "
                 "implement the group law on the operands that arise; XYZZ "
                 "addition is used only on distinct points that are neither "
                 "zero nor inverse"])
    u.concrete = functools.partial(concrete, u)
    out.append(u)

  deep = tier == "thorough"
  for enc in ("lazy", "rns"):
    f = lambda n, enc=enc: path(enc, n)
    pats = lambda B: list(itertools.product((0, 1), repeat=B))
    for nm in ("bucket_accumulation_index_algorithm",
               "bucket_accumulation_index_scan_algorithm"):
      unit(f"{enc}:{nm}:one point", [f(nm), f("padd_with_zero_alter")],
           ba_index(enc, nm, 1, 4, [((i,), p) for i in range(4)
                                    for p in pats(4)]))
      unit(f"{enc}:{nm}:two points", [f(nm), f("padd_with_zero_alter")],
           ba_index(enc, nm, 2, 4, [((i, j), p) for i in range(4)
                                    for j in range(4) for p in pats(4)]))
    for nm in ("bucket_accumulation_algorithm",
               "bucket_accumulation_scan_algorithm"):
      unit(f"{enc}:{nm}", [f(nm), f("selective_padd_with_zero")],
           ba_select(enc, nm, 3, [(ss, z) for ss in pats(3) for z in (0, 1)]))
    for nm in ("bucket_reduction_algorithm",
               "bucket_reduction_scan_algorithm"):
      fs = [f(nm), f("padd_with_zero"), f("padd_with_zero_and_pdul_check"),
            f("MSMPippenger.construct_br_zero_states")]
      unit(f"{enc}:{nm}:4 buckets", fs, br_xyzz(enc, nm, 4, pats(4)))
      unit(f"{enc}:{nm}:8 buckets", fs, br_xyzz(enc, nm, 8, pats(8)))
      unit(f"{enc}:{nm}:any step", fs[:3], br_step(enc, nm))
      for B in (16, 64, 256):
        unit(f"{enc}:{nm}:{B} buckets", fs, br_xyzz(enc, nm, B, long_flags(B)))
    for nm in ("bucket_accumulation_index_algorithm",
               "bucket_accumulation_index_scan_algorithm"):
      fs = [f(nm), f("padd_with_zero_alter")]
      for B in (32, 256):
        unit(f"{enc}:{nm}:{B} buckets", fs, ba_index(enc, nm, 4, B, [
            (ix, fl) for ix in ((0, 1, B - 1, B - 1), (B // 2, B - 2, 0, 5))
            for fl in long_flags(B)[:2]]))
      unit(f"{enc}:{nm}:24 points", fs, ba_index(enc, nm, 24, 4, [
          (tuple((i * i * a + i // b) % 4 for i in range(24)), fl)
          for a, b in ((1, 2), (3, 5), (0, 9)) for fl in long_flags(4)[:2]]))
    cf = [(W, s, z) for W in (1, 2, 3, 4) for s in (1, 2, 3)
          for z in pats(W)] + [(127, 2, (0,) * 127), (32, 8, (0, 1) * 16)]
    for nm in ("window_merge_algorithm", "window_merge_scan_algorithm"):
      unit(f"{enc}:{nm}", [f(nm), f("padd_with_zero")],
           merge(enc, nm, "xyzz", cf))
    nm = "bucket_accumulation_index_scan_parallel_algorithm_twisted"
    for par in (1, 2, 4):
      unit(f"{enc}:{nm}:{par} lanes", [f(nm), f("padd")],
           ba_twisted(enc, nm, 2, par, 3,
                      list(itertools.product(range(-1, 3), repeat=2))))
    nm = "bucket_reduction_scan_algorithm_twisted"
    fs = [f(nm), f("padd"), f("padd_with_pdul_check")]
    unit(f"{enc}:{nm}:3 buckets", fs, br_twisted(enc, nm, 3, pats(3)))
    unit(f"{enc}:{nm}:7 buckets", fs, br_twisted(enc, nm, 7, pats(7)))
    for B in (15, 128, 255):
      unit(f"{enc}:{nm}:{B} buckets", fs, br_twisted(enc, nm, B,
                                                     long_flags(B)))
    nm = "bucket_accumulation_index_scan_parallel_algorithm_twisted"
    unit(f"{enc}:{nm}:255 buckets", [f(nm), f("padd")], ba_twisted(
        enc, nm, 4, 1, 255, [(0, 254, 254, -1), (128, -1, 127, 1)]))
    unit(f"{enc}:{nm}:20 steps", [f(nm), f("padd")], ba_twisted(
        enc, nm, 20, 2, 3, [tuple((i * i * a + i // b) % 4 - 1 for i in
                                  range(21)) for a, b in ((1, 2), (3, 5))]))
    nm = "batch_window_summation_algorithm_twisted"
    unit(f"{enc}:{nm}", [f(nm), f("padd")], batch_sum(enc, nm))
    nm = "window_merge_scan_algorithm_twisted"
    unit(f"{enc}:{nm}", [f(nm)], merge(enc, nm, "twisted", cf))
    p, c, nm = slicing(enc)
    unit(f"{enc}:{nm}", [f(nm)], (p, c))
    p, c, nm = zero_double(enc)
    unit(f"{enc}:the double of the zero point is the zero point", [nm],
         (p, c))
    p, c, nm = zero_states(enc)
    unit(f"{enc}:{nm}", [f(nm)], (p, c))
    p, c, nm = br_states(enc)
    unit(f"{enc}:{nm}", [f(nm)], (p, c))
    for s, n in ((2, 2), (2, 3), (3, 2)):
      unit(f"{enc}:whole xyzz, slice {s}, {n} points",
           [f("MSMPippenger")], compose(enc, "xyzz", s, n))
      unit(f"{enc}:whole twisted, slice {s}, {n} points",
           [f("MSMPippengerTwisted")], compose(enc, "twisted", s, n))
    unit(f"{enc}:whole twisted, slice 2, 4 points on 2 lanes",
         [f("MSMPippengerTwisted")], compose(enc, "twisted", 2, 4, 2))
    for s in (2, 3, 4, 5, 8, 9) + ((10,) if deep else ()):
      unit(f"{enc}:MSMPippenger glue, slice {s}", [
          f("MSMPippenger." + m) for m in (
              "__init__", "initialize", "bucket_accumulation",
              "bucket_reduction", "window_merge")], glue(enc, "xyzz", s))
      unit(f"{enc}:MSMPippengerTwisted glue, slice {s}", [
          f("MSMPippengerTwisted." + m) for m in (
              "__init__", "initialize", "bucket_accumulation",
              "bucket_reduction", "batch_window_summation", "window_merge")],
           glue(enc, "twisted", s, {2: 1, 3: 2, 4: 4}.get(s, 2)))
  f = lambda n: path("lazy", n)
  nm = "bucket_accumulation_signed_index_scan_parallel_algorithm_twisted"
  ds = list(itertools.product([(d, g) for d in range(-1, 2) for g in (0, 1)],
                              repeat=2))
  for par in (1, 2, 4):
    unit(f"lazy:{nm}:{par} lanes", [f(nm), f("padd_with_sign")],
         ba_twisted("lazy", nm, 2, par, 2, ds, signed=True))
  p, p2, c, nm = signed_slicing()
  unit(f"lazy:{nm}:all paths, up to 3 windows", [f(nm)], (p, c))
  unit(f"lazy:{nm}:real number of windows", [f(nm)], (p2, c), assumes=[
      "the two branches of the sign decision are executed on the same state "
      "and their results selected (mechanical rewriting of the if statement); "
      "the assertion is replaced by the invariant that implies it"])
  for s, n, par in ((2, 2, 1), (2, 3, 1), (3, 2, 1), (2, 4, 2)):
    unit(f"lazy:whole signed, slice {s}, {n} points, {par} lanes",
         [f("MSMPippengerTwistedSigned")],
         compose("lazy", "signed", s, n, par))
  for s in (2, 3, 4, 5, 8, 9):
    unit(f"lazy:MSMPippengerTwistedSigned glue, slice {s}", [
        f("MSMPippengerTwistedSigned." + m) for m in (
            "__init__", "initialize", "bucket_accumulation",
            "bucket_reduction", "batch_window_summation", "window_merge")],
         glue("lazy", "signed", s, {2: 1, 3: 2, 4: 4}.get(s, 2)))
  return out
