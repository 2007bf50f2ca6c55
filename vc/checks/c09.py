"""C09: CKKS modular kernels return the canonical residue."""

import math

import numpy as np

from vc import ckks, jx, pysym
from vc.ckks import C, U32, U64, primes, rand_res
from vc.harness import Unit, repo
from vc.jx import IntDom, sym_array
from vc.poly import Unsupported
from vc.pysym import val

X64 = True
B = C + "barrett"
# moduli whose 2^(2k)/q is so close to an integer that floating-point division
# cannot tell them apart, and other boundary values
HARD = [536903681, 934988071, 1000636849, 1574487853, 1281845531, 134201345,
        118441921, 245532353, 152094785, 315129233, 299369019, 428782399,
        536838145, 1066164409, 567167999, 1424109705, 1835742905,
        2, 3, 5, 17, 97, 193, 257, 65537, 786433, (1 << 31) - 1,
        (1 << 30) + 1, (1 << 30) - 35, 1 << 30, 1 << 16, (1 << 16) - 15]


class Log2:
  """math.log2 of a symbolic int: only its ceiling and floor are used."""

  def __init__(self, x):
    self.x = x

  def ceil(self):
    return (self.x - 1).bit_length()

  def floor(self):
    return self.x.bit_length() - 1


class MathProxy:
  def log2(self, x):
    return Log2(x) if isinstance(x, pysym.S) else math.log2(x)

  def ceil(self, x):
    if isinstance(x, Log2):
      return x.ceil()
    return x if isinstance(x, pysym.S) else math.ceil(x)

  def floor(self, x):
    if isinstance(x, Log2):
      return x.floor()
    return x if isinstance(x, pysym.S) else math.floor(x)

  def __getattr__(self, n):
    return getattr(math, n)


class ArrProxy:
  """jnp for host code: array() of symbolic ints keeps them."""

  def __init__(self, real):
    self._real = real
    self.made = []

  def array(self, x, dtype=None, **kw):
    if any(isinstance(t, pysym.S) for t in np.ravel(np.array(x, object))):
      self.made.append(dtype)
      return np.array(x, object)
    return self._real.array(x, dtype=dtype, **kw)

  asarray = array

  def __getattr__(self, n):
    return getattr(self._real, n)


def constants_unit():
  def prove(ob):
    Bm = repo(B)
    # math.log2 is trusted to be monotone; its ceiling is checked where it can
    # change
    for k in range(1, 32):
      for d in (-1, 0, 1):
        q = (1 << k) + d
        if 2 <= q < 1 << 31:
          ob.true(f"ceil(log2({q}))", math.ceil(math.log2(q)) ==
                  (q - 1).bit_length())

    def go(e):
      q = e.var("q", 2, (1 << 31) - 1)
      k = Bm.precompute_barrett_constants([q, 17])
      return q, k
    import jax.numpy as jnp
    ps = pysym.explore(go, [Bm], extra=dict(math=MathProxy(),
                                            jnp=ArrProxy(jnp)))
    ob.true("has paths", len(ps) > 0)
    for i, p in enumerate(ps):
      t = f"path {i}"
      ob.true(f"{t}: does not raise", p.raised is None, repr(p.raised))
      if p.raised is not None:
        continue
      c = p.c
      q, k = p.result
      q = val(q)
      m, mo, w, sw = [np.asarray(x) for x in (k.m, k.moduli, k.w, k.s_w)]
      ob.eq(f"{t}: modulus kept", c, val(mo[0]), q)
      ob.true(f"{t}: shifts are concrete", not isinstance(w[0], pysym.S)
              and not isinstance(sw[0], pysym.S))
      w0, sw0 = int(w[0]), int(sw[0])
      s = w0 + sw0
      ob.true(f"{t}: w is 32, or the whole shift", w0 == 32 or
              (sw0 == 0 and w0 < 32), str((w0, sw0)))
      hi = c.pbounds(c.poly(q))[1]
      ob.true(f"{t}: 2^s covers the square of every modulus on the path",
              hi is not None and (hi - 1) ** 2 < 1 << s, f"{hi} {s}")
      # m is the floor of 2^s / q
      r = c.sub(1 << s, c.mul(val(m[0]), q))
      ob.ge(f"{t}: m q <= 2^s", c, r, 0)
      ob.ge(f"{t}: 2^s < (m + 1) q", c, c.sub(q, 1), r)
      lo = c.pbounds(c.poly(q))[0]
      ob.ge(f"{t}: m fits 32 bits", c, 1 << 32, val(m[0]),
            hyps=[("ge0", c.mul(val(m[0]), c.sub(q, lo)))])
      ob.true(f"{t}: another modulus beside it", ckks.valid_barrett(
          17, int(m[1]), int(w[1]), int(sw[1])))

  def run(rng, cnt, hints):
    return reduce_search(run, rng, cnt, hints)
  u = Unit("precompute_barrett_constants for every modulus below 2^31",
           [B + ".precompute_barrett_constants"], prove=prove, concrete=run,
           cross=200, search=4000, assumes=[
               "math.log2 is monotone (its ceiling is evaluated at 2^k-1, 2^k "
               "and 2^k+1 for every k)"])
  run.unit = u
  return u


def pick_q(rng, bits=None):
  if bits is None and rng.random() < 0.4:
    return rng.choice(HARD)
  k = bits or rng.randint(2, 31)
  lo, hi = (1 << (k - 1)) + 1, min(1 << k, (1 << 31) - 1)
  return rng.choice([lo, hi, rng.randint(lo, hi), rng.randint(lo, hi),
                     rng.randint(lo, hi) | 1])


def pick_z(rng, q):
  top = (q - 1) ** 2
  j = rng.randint(0, q)
  return min(top, max(0, rng.choice([
      0, top, top - 1, q, q - 1, j * q - 1, j * q, (q - 2) * q - 1,
      (q - 2) * q, rng.randint(0, top), rng.randint(0, top),
      rng.randint(0, q - 1) * rng.randint(0, q - 1)])))


def reduce_search(run, rng, cnt, hints, bits=None):
  Bm = repo(B)
  left = cnt
  first = list(HARD) if bits is None else []
  first = [int(h["q"]) for h in hints if str(h.get("q", "")).isdigit()] + first
  while left > 0:
    n = 20  # one shape, one compilation
    qs = [first.pop() if first else pick_q(rng, bits) for _ in range(n)]
    k = Bm.precompute_barrett_constants(qs)
    for _ in range(12):
      z = [pick_z(rng, q) for q in qs]
      run.unit.evals += 1
      run.unit.last_inputs = dict(z=z, moduli=qs)
      r = np.asarray(Bm.modular_reduction(np.array(z, U64), k))
      left -= 1
      for i in range(n):
        if int(r[i]) != z[i] % qs[i]:
          return dict(function="modular_reduction with "
                      "precompute_barrett_constants", modulus=qs[i], z=z[i],
                      got=int(r[i]), want=z[i] % qs[i])
  return None


def reduction_unit(k):
  """All moduli of one bit length at once: q, m and z symbolic."""
  lo, hi = (1 << (k - 1)) + 1, min(1 << k, (1 << 31) - 1)
  lo = max(lo, 2)

  def prove(ob):
    Bm = repo(B)
    ks = [Bm.precompute_barrett_constants([x]) for x in {lo, hi}]
    ws = {(int(x.w[0]), int(x.s_w[0])) for x in ks}
    ob.true("one shift pair for the bit length", len(ws) == 1, str(ws))
    w0, sw0 = ws.pop()
    s = w0 + sw0
    d = IntDom()
    c = d.c
    q = d.input("q", U32, lo, hi)
    m = d.input("m", U64, (1 << s) // hi, (1 << s) // lo)
    z = d.input("z", U64, 0, (1 << s) - 1)

    def f(z, m, q):
      return Bm.modular_reduction(z, Bm.BarrettConstants(
          m=m, moduli=q, w=ks[0].w, s_w=ks[0].s_w))
    one = lambda x: np.array([x], object)
    flat, _, _ = jx.run_sym(f, [(one(z), U64), (one(m), U64), (one(q), U32)],
                            d)
    r = jx.to_obj(flat[0]).ravel()
    ob.true("one word", len(r) == 1)
    r = r[0]
    # t = floor(z m / 2^s); y = z - t q; the contract's products
    t = c.fdiv(c.mul(z, m), 1 << s)
    gap = c.sub(1 << s, c.mul(m, q))  # in [0, q - 1]
    zm = c.mul(z, m)
    rem = c.sub(zm, c.mul(t, 1 << s))
    y = c.sub(z, c.mul(t, q))
    hy = [("ge0", gap), ("ge0", c.sub(c.sub(q, 1), gap)),
          ("ge0", c.mul(q, rem)),
          ("ge0", c.mul(q, c.sub((1 << s) - 1, rem))),
          ("ge0", c.mul(z, gap)),
          ("ge0", c.mul(z, c.sub(c.sub(q, 1), gap))),
          ("ge0", c.mul(c.sub((1 << s) - 1, z), c.sub(q, 1)))]
    ob.ge("lemma: t q <= z", c, y, 0, hyps=hy, timeout_ms=60000)
    ob.ge("lemma: z - t q < 2 q", c, c.sub(c.mul(2, q), 1), y, hyps=hy,
          timeout_ms=60000)
    hy2 = [("ge0", y), ("ge0", c.sub(c.sub(c.mul(2, q), 1), y))]
    b = c.ge0(c.sub(y, q))
    ob.eq("result is z - floor(z/q) q", c, r,
          c.sub(y, c.ite(b, q, 0)), hyps=hy2, timeout_ms=60000)
    ob.ge("result is not negative", c, r, 0, hyps=hy2, timeout_ms=60000)
    ob.ge("result is below the modulus", c, c.sub(q, 1), r, hyps=hy2,
          timeout_ms=60000)

  def run(rng, cnt, hints):
    return reduce_search(run, rng, cnt, hints, k if k > 2 else None)
  u = Unit(f"modular_reduction, every {k}-bit modulus", [
      B + ".modular_reduction"], prove=prove, concrete=run, cross=24,
      search=3000)
  run.unit = u
  return u


SETS = [[17, 19], [2, 3, 97], [65537, 786433, 524353],
        [335552513, 335546369], [1073741441, 1073740609, 536903681],
        [2147483489, 2147482817, 1073741827, 12289]]


def add_unit(kind, qs):
  A = C + "add"
  n = len(qs)

  def kernel():
    if kind == "barrett":
      k = repo(A + ":AddModularBarrett")(
          repo(B + ":precompute_barrett_constants")(qs))
    elif kind == "subtract":
      k = repo(A + ":AddModularSubtract")(qs)
    else:
      k = repo(A + ":AddSimple")()
    return k

  def variants():
    import jax
    k = kernel()
    yield "kernel", k
    leaves, tree = jax.tree_util.tree_flatten(k)
    yield "kernel after a pytree round trip", jax.tree_util.tree_unflatten(
        tree, leaves)

  def prove(ob):
    if kind == "barrett":
      # operands that are not reduced: any whose sum is below the square
      for tag, k in variants():
        d = ckks.dom()
        c = d.c
        top = [(q * q - 1) // 2 + 1 for q in qs]
        a, b = [ckks.residues(d, t, (2, n), top, U64) for t in "ab"]
        (r,), _ = ckks.run(k.add, [(a, U64), (b, U64)], d, ob)
        for ix in np.ndindex(2, n):
          ckks.eq_mod(ob, c, f"{tag} unreduced {ix}", r[ix], c.add(
              a[ix], b[ix]), qs[ix[-1]])
    for shape in [(2, 3, n), (n,)]:
      for tag, k in variants():
        d = ckks.dom()
        c = d.c
        a = ckks.residues(d, "a", shape, qs)
        b = ckks.residues(d, "b", shape, qs)
        (r,), _ = ckks.run(k.add, [(a, U32), (b, U32)], d, ob)
        ob.true(f"{tag} {shape}: shape", r.shape == shape)
        for ix in np.ndindex(*shape):
          s = c.add(a[ix], b[ix])
          if kind == "simple":
            ob.eq(f"{tag} {shape} {ix}: exact sum", c, r[ix], s)
          else:
            ckks.eq_mod(ob, c, f"{tag} {shape} {ix}: sum", r[ix], s,
                        qs[ix[-1]])

  def run(rng, cnt, hints):
    ks = list(variants())
    for _ in range(cnt):
      shape = rng.choice([(2, 3, n), (n,)])
      a, b = rand_res(rng, shape, qs), rand_res(rng, shape, qs)
      if kind == "barrett" and rng.random() < .4:
        top = [(q * q - 1) // 2 + 1 for q in qs]
        a, b = [rand_res(rng, shape, top, np.uint64) for _ in "ab"]
      for tag, k in ks:
        run.unit.evals += 1
        run.unit.last_inputs = dict(a=a, b=b, moduli=qs)
        r = np.asarray(k.add(a, b)).astype(object)
        w = a.astype(object) + b.astype(object)
        if kind != "simple":
          w = w % np.array(qs, object)
        if r.shape != shape or (r != w).any():
          return dict(function=f"add kernel {kind} ({tag})", a=a, b=b,
                      moduli=qs, got=r, want=w)
    return None
  cl = dict(barrett="AddModularBarrett", subtract="AddModularSubtract",
            simple="AddSimple")[kind]
  u = Unit(f"{cl} moduli {qs}", [f"{A}.{cl}.add"], prove=prove, concrete=run,
           search=400)
  run.unit = u
  return u


def mulpt_unit(kind, qs):
  M = C + "mul"
  n = len(qs)

  def kernel():
    if kind == "barrett":
      return repo(M + ":MulPlaintextCiphertextBarrett")(
          repo(B + ":precompute_barrett_constants")(qs))
    return repo(M + ":MulPlaintextCiphertextSimple")()

  def call(k, x, y, watch=False):
    T = repo(C + "types")
    mo = np.array(qs, U32)
    o = [T.Ciphertext(data=x, moduli=mo), T.Plaintext(data=y, moduli=mo)]
    keep = ckks.Keep()
    if watch:
      o = [keep(t) for t in o]
    r = k.mul(*o)
    call.moduli = np.asarray(r.moduli).tolist()
    call.changed = keep.changed()
    return r.data

  def prove(ob):
    k = kernel()
    for deg in (1, 3):
      d = ckks.dom()
      c = d.c
      shape = (2, deg, n)
      a = ckks.residues(d, "a", shape, qs)
      b = ckks.residues(d, "b", shape[1:], qs)
      in_t = U32 if kind == "barrett" else U64
      (r,), _ = ckks.run(lambda x, y: call(k, x, y), [(a, in_t), (b, in_t)],
                         d, ob)
      ob.true(f"degree {deg}: shape", r.shape == shape)
      ob.true(f"degree {deg}: moduli", call.moduli == list(qs))
      for ix in np.ndindex(*shape):
        w = c.mul(a[ix], b[ix[1:]])
        if kind == "simple":
          ob.eq(f"degree {deg} {ix}: exact product", c, r[ix], w)
        else:
          ckks.eq_mod(ob, c, f"degree {deg} {ix}: product", r[ix], w,
                      qs[ix[-1]])

  def run(rng, cnt, hints):
    k = kernel()
    for _ in range(cnt):
      shape = (2, rng.choice([1, 3]), n)
      dt = np.uint32 if kind == "barrett" else np.uint64
      a, b = rand_res(rng, shape, qs, dt), rand_res(rng, shape[1:], qs, dt)
      run.unit.evals += 1
      run.unit.last_inputs = dict(a=a, b=b, moduli=qs)
      import jax.numpy as jnp
      r = np.asarray(call(k, jnp.array(a), jnp.array(b), True)).astype(object)
      if call.changed:
        return dict(function=f"plaintext multiplication kernel {kind}", a=a,
                    b=b, moduli=qs, what=call.changed)
      w = a.astype(object) * b.astype(object)
      if kind != "simple":
        w = w % np.array(qs, object)
      if r.shape != shape or (r != w).any():
        return dict(function=f"plaintext multiplication kernel {kind}", a=a,
                    b=b, moduli=qs, got=r, want=w)
    return None
  cl = ("MulPlaintextCiphertextBarrett" if kind == "barrett" else
        "MulPlaintextCiphertextSimple")
  u = Unit(f"{cl} moduli {qs}", [f"{M}.{cl}.mul"], prove=prove, concrete=run,
           search=400)
  run.unit = u
  return u


def slices(n):
  return [slice(0, 1), slice(1, n), slice(0, n), slice(n - 1, n),
          slice(None, None, 2), np.array([n - 1, 0])]


def slice_unit(qs):
  """Sliced Barrett constants belong to the sliced moduli."""
  def prove(ob):
    Bm = repo(B)
    k = Bm.precompute_barrett_constants(qs)
    n = len(qs)
    for sl in slices(n):
      x = k.slice(sl)
      want = list(np.array(qs, object)[sl])
      got = [ckks.valid_barrett(int(q), int(m), int(w), int(s)) for q, m, w, s
             in zip(x.moduli, x.m, x.w, x.s_w)]
      ob.true(f"slice {sl}: constants of its own moduli",
              [int(q) for q in x.moduli] == want and all(got) and
              len(x.m) == len(x.w) == len(x.s_w) == len(want))

  def run(rng, cnt, hints):
    Bm = repo(B)
    k = Bm.precompute_barrett_constants(qs)
    for _ in range(cnt):
      sl = rng.choice(slices(len(qs)))
      want = [int(q) for q in np.array(qs, object)[sl]]
      z = [pick_z(rng, q) for q in want]
      run.unit.evals += 1
      run.unit.last_inputs = dict(z=z, moduli=qs, slice=str(sl))
      r = np.asarray(Bm.modular_reduction(np.array(z, U64), k.slice(sl)))
      if r.tolist() != [a % q for a, q in zip(z, want)]:
        return dict(function="modular_reduction with sliced constants",
                    moduli=qs, slice=str(sl), z=z, got=r)
    return None
  u = Unit(f"BarrettConstants.slice moduli {qs}",
           [B + ".BarrettConstants.slice"], prove=prove, concrete=run,
           cross=20, search=200)
  run.unit = u
  return u


def units(tier):
  us = [constants_unit()]
  us += [reduction_unit(k) for k in range(1, 32)]
  for qs in SETS:
    us += [add_unit(k, qs) for k in ("barrett", "subtract", "simple")]
    us += [mulpt_unit(k, qs) for k in ("barrett", "simple")]
    us.append(slice_unit(qs))
  return us
