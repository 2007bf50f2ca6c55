"""C18: residue-number-system field arithmetic is exact modulo the prime."""

import math

import numpy as np

from vc import jx, limbs, nparr, pysym, rns
from vc.harness import Unit, repo
from vc.limbs import FF, Q, UT, run
from vc.poly import V
from vc.pysym import val
from vc.rns import system

X64 = True
U8, U16, U32 = np.uint8, np.uint16, np.uint32


def fn(name):
  return repo(FF + name)


def dom():
  return limbs.dom()


def words(d, name, shape, hi=65535, dtype=U16):
  return jx.sym_array(d, name, shape, dtype, 0, hi)


def congruent(ob, c, what, got, want):
  s = system()
  ob.true(f"{what}: shape", got.shape == want.shape, f"{got.shape}")
  if got.shape != want.shape:
    return
  for ix in np.ndindex(*got.shape):
    ob.zero_mod(f"{what} {ix}", c, c.sub(got[ix], want[ix]), s.m[ix[-1]])


def word_rows(rng, shape, hi=65535):
  """Words with many zeros, extremes and multiples of the moduli."""
  s = system()
  out = np.zeros(shape, object)
  for ix in np.ndindex(*shape):
    m = s.m[ix[-1] % s.n]
    out[ix] = rng.choice([0, hi, m % (hi + 1), (m - 1) % (hi + 1),
                          rng.randint(0, hi), rng.randint(0, hi),
                          rng.randint(0, hi), (2 * m) % (hi + 1),
                          (65536 - rng.randint(0, 255)) % (hi + 1)])
  return out


def elementwise_unit(name, call, his, dts, spec, functions=None, rows=1,
                     hi_out=65535):
  """out[j] is congruent to spec(a[j], b[j], ..) modulo the j-th modulus."""
  def prove(ob):
    s = system()
    d = dom()
    c = d.c
    xs = [words(d, "abcdef"[k], (rows, s.n), h, dts[k])
          for k, h in enumerate(his)]
    (o,), _ = run(call(), [(x, dt) for x, dt in zip(xs, dts)], d, ob)
    want = np.empty((rows, s.n), object)
    for ix in np.ndindex(*want.shape):
      want[ix] = spec(c, s, ix[-1], *[x[ix] for x in xs])
    congruent(ob, c, "residue", o, want)
    for ix in np.ndindex(*o.shape):
      ob.ge(f"range {ix}", c, hi_out, o[ix])

  def concrete(rng, count, hints):
    s = system()
    f = call()
    for _ in range(max(2, count // 8)):
      R = 4
      xs = [word_rows(rng, (R, s.n), h) for h in his]
      g = np.asarray(f(*[x.astype(dt) for x, dt in zip(xs, dts)]))
      u.evals += 1
      for ix in np.ndindex(R, s.n):
        a = [int(x[ix]) for x in xs]
        w = spec(limbs_py, s, ix[-1], *a)
        if (int(g[ix]) - w) % s.m[ix[-1]] or int(g[ix]) > hi_out:
          return dict(unit=name, modulus=s.m[ix[-1]], words=a,
                      got=int(g[ix]), want=f"{w} modulo {s.m[ix[-1]]}")
    return None

  u = Unit(name, functions or [FF + name], prove, concrete)
  return u


class limbs_py:
  add = staticmethod(lambda a, b: a + b)
  sub = staticmethod(lambda a, b: a - b)
  mul = staticmethod(lambda a, b: a * b)


def constants_unit():
  def facts():
    t = repo(UT)
    s = rns.Sys(t)
    yield "matrix shapes", s.shape_ok
    yield "moduli count", s.n == t.NUM_MODULI == len(s.t)
    yield "moduli pairwise coprime", all(
        math.gcd(a, b) == 1 for i, a in enumerate(s.m) for b in s.m[:i])
    yield "2^16 = t modulo each modulus", all(
        ((1 << 16) - t_) % m == 0 and 0 <= t_ < 255 for m, t_ in zip(s.m, s.t))
    yield "residues fit 16 bits", all(m <= 1 << 16 for m in s.m)
    yield "negation constant is a multiple of the prime", s.K % Q == 0
    yield "negation constant covers a product", s.K >= s.ymax
    yield "twist constant", len(t.TWIST_D_RNS) == s.n and all(
        (int(x) - t.TWIST_D_INT) % m == 0 and 0 <= int(x) < 1 << 16
        for x, m in zip(t.TWIST_D_RNS, s.m))
    for b, (g, ch) in enumerate(zip(s.g, s.chunk)):
      yield f"matrix row {b} stands for its factor modulo q", (g - ch) % Q == 0
      yield f"quotient estimate {b} not low", (s.sqe[b] * s.M
                                               >= s.chunk[b] << 16)
    yield "correction row", (s.w + s.M) % Q == 0
    yield "reduced values are represented", s.ymax < s.M
    # What the point formulas rely on: sums of up to four reduced values and
    # negations may be multiplied with one another.
    yield "products of sums are represented", (
        (4 * s.ymax + s.K) * (s.ymax + s.K) <= s.xmax and
        (s.ymax + 3 * s.K) ** 2 <= s.xmax)

  def prove(ob):
    for n, ok in facts():
      ob.true(n, bool(ok))

  def concrete(rng, n, hints):
    for name, ok in facts():
      u.evals += 1
      if not ok and not name.startswith(("products", "reduced", "negation c",
                                         "matrix shapes")):
        return dict(constant=name)
    return None

  u = Unit("precomputed RNS constants", [UT], prove, concrete)
  return u


def red_spec_obligations(ob, c, s, cin, out, tag, q=Q):
  """Contract of the reduction for one row.

  cin: residue words of an integer x <= xmax; out represents an integer
  y <= ymax with y = x modulo q.
  """
  by = []
  for e in cin:
    hi = c.fdiv(e, 256)
    lo = c.sub(e, c.mul(hi, 256))
    for v in (lo, hi):
      if isinstance(v, V):
        v = V(v.p, 0, 255)
      by.append(v)
  qe = c.dot(by, s.sqe)
  kq = c.fdiv(qe, 1 << s.prec)
  for j in range(s.n):
    m = s.m[j]
    y = c.add(c.dot(by, [g % m for g in s.g]), c.mul(kq, s.w % m))
    ob.zero_mod(f"{tag} residue {j}", c, c.sub(out[j], y), m)
    ob.ge(f"{tag} residue {j} range", c, 65535, out[j])
  # quotient estimate: M qe - 2^16 S lies in [0, err_max]
  e = c.dot(by, [q * s.M - (ch << 16) for q, ch in zip(s.sqe, s.chunk)])
  ob.ge(f"{tag} estimate not low", c, e, 0)
  ob.ge(f"{tag} estimate not high", c, s.err_max, e)
  # S = k M + x with x <= xmax, and 2^16 k' <= qe < 2^16 (k' + 1): k' = k
  c2 = limbs.Ctx()
  k, x = c2.var("k", 0, None), c2.var("x", 0, s.xmax)
  qv, ev = c2.var("qe", 0, None), c2.var("e", 0, s.err_max)
  S = c2.add(c2.mul(k, s.M), x)
  c2.facts.append(("eq0", c2.sub(c2.mul(qv, s.M),
                                 c2.add(c2.mul(S, 1 << 16), ev))))
  ob.eq(f"{tag} quotient", c2, c2.fdiv(qv, 1 << s.prec), k)
  y = c.add(c.dot(by, s.g), c.mul(kq, s.w))
  ob.ge(f"{tag} size", c, s.ymax, y)
  ob.ge(f"{tag} not negative", c, y, 0)
  # x = S modulo M by interpolation, so y = S - k M = x modulo q
  for b, (g, ch) in enumerate(zip(s.g, s.chunk)):
    ob.true(f"{tag} row {b}", (g - ch) % q == 0)
  ob.true(f"{tag} correction", (s.w + s.M) % q == 0)
  for i in range(s.n):
    f = s.chunk[2 * i]
    ob.true(f"{tag} interpolation {i}", f % s.m[i] == 1 and
            f % (s.M // s.m[i]) == 0 and
            (s.chunk[2 * i + 1] - 256 * f) % s.M == 0)


def reduction_unit():
  def prove(ob):
    s = system()
    d = dom()
    c = d.c
    x = words(d, "c", (2, s.n))
    (o,), _ = run(fn("mod_red_rns_2u16"), [(x, U16)], d, ob)
    ob.true("shape", o.shape == (2, s.n), str(o.shape))
    for r in range(2):
      red_spec_obligations(ob, c, s, list(x[r]), list(o[r]), f"row {r}")

  def concrete(rng, count, hints):
    s = system()
    f = fn("mod_red_rns_2u16")
    for _ in range(max(4, count // 2)):
      xs = [rand_x(rng, s, s.xmax) for _ in range(8)]
      g = s.lift(f(np.stack([s.enc(x, rng) for x in xs])))
      u.evals += len(xs)
      for x, y in zip(xs, g):
        if (x - y) % Q or y > s.ymax:
          return dict(function="mod_red_rns_2u16", x=hex(x), got=hex(int(y)),
                      want=f"{hex(x % Q)} modulo q, at most {hex(s.ymax)}")
    return None

  u = Unit("mod_red_rns_2u16", [FF + "mod_red_rns_2u16",
                                FF + "moduli_rns_red_internal_2u16"],
           prove, concrete)
  return u


def rand_x(rng, s, hi):
  k = rng.randrange(6)
  if k == 0:
    return rng.randint(0, hi)
  if k == 1:
    return hi - rng.getrandbits(rng.randrange(1, hi.bit_length()))
  if k == 2:
    return rng.getrandbits(rng.randrange(1, hi.bit_length()))
  if k == 3:  # some residues zero
    p = math.prod(rng.sample(s.m, rng.randrange(1, 20)))
    return p * rng.randint(0, hi // p)
  if k == 4:
    return rng.choice([0, 1, hi, Q, Q - 1, s.m[3]])
  return Q * rng.randint(0, hi // Q)


def mul_unit():
  """mod_mul = reduction of the residue-wise product."""
  def prove(ob):
    s = system()
    d = dom()
    c = d.c
    a, b = words(d, "a", (1, s.n)), words(d, "b", (1, s.n))
    seen = []

    def red(interp, closed, ins):
      if not ins or to_shape(ins[0]) != (1, s.n):
        return None
      if any(not jx.is_concrete(i) for i in ins[1:]):
        return None
      o = words(d, "o", (1, s.n))
      seen.append((jx.to_obj(ins[0]), o))
      return [o]

    (o,), _ = run(fn("mod_mul_rns_2u16"), [(a, U16), (b, U16)], d, ob,
                  contracts={"mod_red_rns_2u16": red})
    if len(seen) != 1:  # no call to the reduction: prove the body as a whole
      raise limbs.Unsupported("reduction not called")
    arg, res = seen[0]
    for j in range(s.n):
      ob.zero_mod(f"product residue {j}", c,
                  c.sub(arg[0, j], c.mul(a[0, j], b[0, j])), s.m[j])
      ob.ge(f"product residue {j} range", c, 65535, arg[0, j])
      ob.ge(f"product residue {j} range", c, arg[0, j], 0)
      ob.eq(f"result is the reduction {j}", c, o[0, j], res[0, j])

  def concrete(rng, count, hints):
    s = system()
    f = fn("mod_mul_rns_2u16")
    for _ in range(max(4, count // 2)):
      xs, ys = [], []
      for _ in range(8):
        a = rand_x(rng, s, s.ymax + 3 * s.K)
        b = rand_x(rng, s, s.xmax // max(a, 1) if rng.random() < .3 else
                   min(s.ymax + 3 * s.K, s.xmax // max(a, 1)))
        xs.append(a)
        ys.append(b)
      g = s.lift(f(np.stack([s.enc(x, rng) for x in xs]),
                   np.stack([s.enc(x, rng) for x in ys])))
      u.evals += len(xs)
      for x, y, v in zip(xs, ys, g):
        if (x * y - v) % Q or v > s.ymax:
          return dict(function="mod_mul_rns_2u16", a=hex(x), b=hex(y),
                      got=hex(int(v)), want=hex(x * y % Q) + " modulo q")
    return None

  u = Unit("mod_mul_rns_2u16", [FF + "mod_mul_rns_2u16",
                                FF + "mul_unreduced_rns_2u16"], prove,
           concrete)
  return u


def to_shape(x):
  return tuple(np.asarray(x, dtype=object).shape)


def negate_unit(name):
  """Represents -a modulo q, not negative, for every a up to the constant K."""
  def prove(ob):
    s = system()
    d = dom()
    c = d.c
    # zero_check may return 0 for the integer 0: two cases
    cases = [("general", None)]
    for j0 in range(s.n) if "zero" in name else ():
      cases.append((f"residue {j0} not zero", j0))
    if "zero" in name:
      cases = cases[1:]
      o = np.asarray(fn(name)(np.zeros((1, s.n), U16)))
      ob.true("zero stays a multiple of q",
              s.crt(o[0].astype(object)) % Q == 0)
    ob.true("constant is a multiple of q", s.K % Q == 0)
    for label, j0 in cases:
      d = dom()
      c = d.c
      a = words(d, "a", (1, s.n))
      if j0 is not None:
        a[0, j0] = d.input("nz", U16, 1, 65535)
      (o,), _ = run(fn(name), [(a, U16)], d, ob)
      for j in range(s.n):
        ob.zero_mod(f"{label}: residue {j}", c,
                    c.sub(o[0, j], c.sub(s.K % s.m[j], a[0, j])), s.m[j])
        ob.ge(f"{label}: range {j}", c, (1 << 17) - 1, o[0, j])

  def concrete(rng, count, hints):
    s = system()
    f, add = fn(name), fn("add_sub_rns_var")
    for _ in range(max(4, count // 4)):
      xs = [rand_x(rng, s, s.K) for _ in range(8)]
      v = f(np.stack([s.enc(x, rng) for x in xs]))
      g = s.lift(np.asarray(add(v)))
      u.evals += len(xs)
      for x, y in zip(xs, g):
        if (x + y) % Q or y > s.K:
          return dict(function=name, a=hex(x), got=hex(int(y)),
                      zero_residues=[m for m in s.m if x % m == 0],
                      want=hex(-x % Q) + " modulo q")
    return None

  u = Unit(name, [FF + name], prove, concrete)
  return u


def sum_unit(k, neg):
  """add_sub_rns_var of k words, the last `neg` of them negations."""
  def call():
    return lambda *a: fn("add_sub_rns_var")(*a)

  def spec(c, s, j, *a):
    t = a[0]
    for x in a[1:]:
      t = c.add(t, x)
    return t
  his = [65535] * (k - neg) + [(1 << 17) - 1] * neg
  dts = [U16] * (k - neg) + [U32] * neg
  return elementwise_unit(f"add_sub_rns_var {k} values, {neg} negated", call,
                          his, dts, spec, [FF + "add_sub_rns_var"])


def conversions(out):
  mods = lambda: [repo(UT)]

  def explore(f):
    import jax.numpy as jnp
    return pysym.explore(f, mods(), limit=40, extra=nparr.proxies(jnp))

  def prove(ob):
    t = repo(UT)
    s = system()

    def go(e):
      x = e.var("x", 0, s.M - 1)
      r = t.int_to_array_rns(x)
      return x, r, t.array_rns_to_int(r), t.to_rns(x, s.m)

    for i, p in enumerate(explore(go)):
      if p.raised is not None:
        ob.true(f"path {i} does not raise", False, repr(p.raised))
        continue
      x, r, y, r2 = p.result
      c = p.c
      for j, m in enumerate(s.m):
        for nm, rr in (("int_to_array_rns", r), ("to_rns", r2)):
          ob.zero_mod(f"path {i} {nm} residue {j}", c,
                      c.sub(val(rr[j]), val(x)), m)
          ob.ge(f"path {i} {nm} residue {j} canonical", c, m - 1, val(rr[j]))
          ob.ge(f"path {i} {nm} residue {j} canonical", c, val(rr[j]), 0)
      ob.zero_mod(f"path {i} round trip", c, c.sub(val(y), val(x)), s.M)
      ob.ge(f"path {i} round trip range", c, s.M - 1, val(y))
      ob.ge(f"path {i} round trip range", c, val(y), 0)

    def back(e):
      rs = [e.var(f"r{j}", 0, 65535) for j in range(s.n)]
      return rs, t.array_rns_to_int(rs)

    for i, p in enumerate(explore(back)):
      if p.raised is not None:
        ob.true(f"back path {i} does not raise", False, repr(p.raised))
        continue
      rs, y = p.result
      c = p.c
      for j, m in enumerate(s.m):
        ob.zero_mod(f"path {i} reconstruct {j}", c,
                    c.sub(val(y), val(rs[j])), m)
      ob.ge(f"path {i} range", c, s.M - 1, val(y))
      ob.ge(f"path {i} range", c, val(y), 0)

  def concrete(rng, count, hints):
    t = repo(UT)
    s = system()
    for _ in range(max(4, min(count, 40))):
      x = rand_x(rng, s, s.M - 1)
      r = t.int_to_array_rns(x)
      u.evals += 1
      if len(r) != s.n or any((int(v) - x) % m or not 0 <= v < m
                              for v, m in zip(r, s.m)):
        return dict(function="int_to_array_rns", x=hex(x))
      if t.array_rns_to_int(r) != x:
        return dict(function="array_rns_to_int", x=hex(x))
      k = rng.choice([1, 2, 3])
      ps = [[rand_x(rng, s, s.M - 1) for _ in range(4)] for _ in range(k)]
      a = np.asarray(t.int_point_batch_to_jax_rns_point_pack(ps))
      if a.shape != (4, k, s.n) or [
          list(z) for z in s.lift(a).transpose(1, 0)] != ps:
        return dict(function="int_point_batch_to_jax_rns_point_pack",
                    points=[[hex(z) for z in p] for p in ps])
      if [list(z) for z in
          t.jax_rns_point_pack_to_int_point_batch(a)] != ps:
        return dict(function="jax_rns_point_pack_to_int_point_batch",
                    points=[[hex(z) for z in p] for p in ps])
      a = t.int_point_to_jax_rns_point_pack(ps[0])
      if list(s.lift(a)) != ps[0] or list(
          t.jax_rns_point_pack_to_int_point(a)) != ps[0]:
        return dict(function="int_point_to_jax_rns_point_pack",
                    point=[hex(z) for z in ps[0]])
      a = t.int_list_to_array_rns(ps[0])
      if list(s.lift(a)) != ps[0] or list(
          t.array_rns_to_int_list(a)) != ps[0]:
        return dict(function="int_list_to_array_rns",
                    xs=[hex(z) for z in ps[0]])
    return None

  u = Unit("integer and residue conversions",
           [UT + ":" + f for f in (
               "int_to_array_rns", "array_rns_to_int", "to_rns",
               "rns_precompute", "rns_reconstruct", "total_modulus")],
           prove, concrete)
  out.append(u)

  def prove2(ob):
    t = repo(UT)
    s = system()
    for k in (1, 2):
      def go(e, k=k):
        xs = [[e.var(f"x{i}{j}", 0, s.M - 1) for j in range(2)]
              for i in range(k)]
        pk = t.int_point_batch_to_jax_rns_point_pack(xs)
        return xs, pk, t.jax_rns_point_pack_to_int_point_batch(pk)
      for i, p in enumerate(explore(go)):
        if p.raised is not None:
          ob.true(f"path {i}: does not raise", False, repr(p.raised))
          continue
        xs, pk, back = p.result
        c = p.c
        pk = np.asarray(pk, dtype=object)
        ob.true("shape", pk.shape == (2, k, s.n), str(pk.shape))
        for a in range(k):
          for b in range(2):
            for j, m in enumerate(s.m):
              v = pk[b, a, j]
              ob.zero_mod(f"point {a} coordinate {b} residue {j}", c,
                          c.sub(val(v), val(xs[a][b])), m)
            ob.zero_mod(f"point {a} coordinate {b} back", c,
                        c.sub(val(back[a][b]), val(xs[a][b])), s.M)

  u2 = Unit("lists and packs of residues",
            [UT + ":" + f for f in (
                "int_list_to_array_rns", "array_rns_to_int_list",
                "int_point_to_jax_rns_point_pack",
                "jax_rns_point_pack_to_int_point",
                "int_point_batch_to_jax_rns_point_pack",
                "jax_rns_point_pack_to_int_point_batch")], prove2,
            lambda rng, n, h: u.concrete(rng, n, h))
  out.append(u2)


def precompute_unit(qs, tag):
  """construct_rns_matrix(q) has the meaning the reduction relies on."""
  def check(q):
    t = repo(UT)
    s = system()
    mat, cor = t.construct_rns_matrix(q)

    class T:
      pass
    for k in ("MODULI", "RNS_MODULI_T", "RNS_PRECISION", "MODULI_SUB"):
      setattr(T, k, getattr(t, k))
    T.RNS_MAT = (mat, cor)
    z = rns.Sys(T)
    yield "shape", z.shape_ok
    for b, (g, ch) in enumerate(zip(z.g, z.chunk)):
      yield f"row {b}", (g - ch) % q == 0
      yield f"estimate {b}", z.sqe[b] * z.M >= ch << 16
    yield "correction", (z.w + z.M) % q == 0
    yield "rows small", z.ymax <= (255 * 100 * 2 + 2) * q
    yield "room", (z.ymax) ** 2 <= z.xmax or q > Q

  def prove(ob):
    for q in qs:
      for n, ok in check(q):
        ob.true(f"q of {q.bit_length()} bits: {n}", ok)

  def concrete(rng, n, hints):
    for q in qs:
      for name, ok in check(q):
        u.evals += 1
        if not ok and name.startswith(("row ", "correction")):
          return dict(function="construct_rns_matrix", q=hex(q), fact=name)
    return None

  u = Unit(f"construct_rns_matrix {tag}",
           [UT + ":construct_rns_matrix", UT + ":rns_coefficients_precompute",
            UT + ":rns_icrt_factors_compute"], prove, concrete,
           assumes=["moduli sampled: " + ", ".join(
               f"{q.bit_length()} bits" for q in qs)])
  return u


def find_moduli_unit():
  cfg = [(Q * Q * 256 * 256 * 50 * 50 * 8, 16), (1 << 100, 16), (1 << 20, 16),
         (1 << 100, 12), (1 << 64, 10), (1 << 200, 16), (1 << 780, 16)]

  def bad(total, prec):
    ms, ts = repo(UT + ":find_moduli")(total, prec)
    if len(ms) != len(ts):
      return "lengths"
    if any(math.gcd(a, b) != 1 for i, a in enumerate(ms) for b in ms[:i]):
      return "not coprime"
    if any(((1 << prec) - t) % m for m, t in zip(ms, ts)):
      return "offset"
    if any(not 0 <= t < 1 << (prec // 2 + 1) for t in ts):
      return "offset size"
    if math.prod(ms) <= total:
      return "too small"
    return None

  def concrete(rng, n, hints):
    for t, p in cfg:
      u.evals += 1
      b = bad(t, p)
      if b:
        return dict(function="find_moduli", total=hex(t), precision=p,
                    problem=b)
    return None

  def prove(ob):
    for t, p in cfg:
      ob.true(f"find_moduli({t.bit_length()} bits, {p})", bad(t, p) is None,
              str(bad(t, p)))

  u = Unit("find_moduli", [UT + ":find_moduli"], prove, concrete,
           assumes=["the configurations listed in the check"])
  return u


def rns_constant_unit():
  cs = [0, 1, 2, 3, 255, 256, 257, 16383, 16384 - 127, 12345]

  def concrete(rng, n, hints):
    s = system()
    for c in cs + [rng.randrange(1 << 14) for _ in range(4)]:
      g = np.asarray(fn("rns_constant")(c))
      u.evals += 1
      if g.shape != (s.n,) or s.crt(g) != c:
        return dict(function="rns_constant", c=c, got=g.tolist())
    return None

  u = Unit("rns_constant", [FF + "rns_constant"], None, concrete,
           bounded="14 constants below 2^14")
  return u


def units(tier):
  us = [constants_unit()]
  us.append(elementwise_unit(
      "moduli_rns_red_internal_2u16", lambda: fn(
          "moduli_rns_red_internal_2u16"), [(1 << 32) - 1], [U32],
      lambda c, s, j, a: a))
  us.append(elementwise_unit(
      "mul_unreduced_rns_2u16", lambda: fn("mul_unreduced_rns_2u16"),
      [65535] * 2, [U16] * 2, lambda c, s, j, a, b: c.mul(a, b)))
  us.append(elementwise_unit(
      "add_rns_2u16", lambda: fn("add_rns_2u16"), [65535] * 2, [U16] * 2,
      lambda c, s, j, a, b: c.add(a, b)))
  us.append(elementwise_unit(
      "add_rns_3u16", lambda: fn("add_rns_3u16"), [65535] * 3, [U16] * 3,
      lambda c, s, j, a, b, d: c.add(c.add(a, b), d)))
  for k, neg in ((1, 0), (1, 1), (2, 1), (2, 2), (3, 1), (3, 2), (4, 1),
                 (4, 3), (5, 1)):
    us.append(sum_unit(k, neg))
  us.append(reduction_unit())
  us.append(mul_unit())
  us.append(negate_unit("negate_rns_for_var_add"))
  us.append(negate_unit("negate_rns_for_var_add_zero_check"))
  conversions(us)
  us.append(precompute_unit([Q], "curve prime"))
  us.append(precompute_unit([(1 << 255) - 19, (1 << 376) - 57, 65537],
                            "other moduli"))
  us.append(find_moduli_unit())
  us.append(rns_constant_unit())
  return us
