"""C17: limb-vector field arithmetic is exact."""

import numpy as np

from vc import limbs, nparr, pysym
from vc.harness import Unit, repo
from vc.limbs import FF, MU, Q, UT, dec, dom, enc, ints, run, value, vec
from vc.poly import V
from vc.pysym import val

X64 = True
U8, U16, U32 = np.uint8, np.uint16, np.uint32
QS = Q << 16  # the modulus multiple of the 25-limb (lazy) representation
LAZY = (1 << 384) + 52 * 255 * Q  # largest value lazy reduction returns


def fn(name):
  return repo(FF + name)


def nasty(rng, hi, lo=0, near=()):
  """Integers of [lo, hi] with long carry chains and boundary values."""
  k = rng.randrange(9)
  n = max(1, hi.bit_length())
  if k == 0:
    x = rng.randint(lo, hi)
  elif k == 1:
    x = rng.choice([lo, hi, hi - 1, lo + 1, lo + 2])
  elif k == 2:  # runs of equal limbs
    w = rng.choice([8, 16, 32])
    x = 0
    for i in range(n // w + 1):
      x |= rng.choice([0, (1 << w) - 1, (1 << w) - 1, 1, 1 << (w - 1),
                       rng.getrandbits(w)]) << (w * i)
  elif k == 3:
    x = (1 << rng.randrange(1, n + 1)) - rng.randrange(0, 3)
  elif k == 4:
    x = Q * rng.randint(0, max(1, hi // Q)) + rng.randint(-2, 2)
  elif k == 5:
    x = (1 << (16 * rng.randrange(0, n // 16 + 1))) * rng.getrandbits(16)
  elif k == 6 and near:
    x = rng.choice(list(near)) + rng.randint(-2, 2)
  elif k == 7:
    x = hi - rng.getrandbits(rng.randrange(1, n))
  else:
    x = (1 << n) - 1 - (rng.getrandbits(16) << (16 * rng.randrange(
        0, n // 16 + 1)))
  return min(max(x, lo), hi) if not lo <= x <= hi else x


def check_rows(u, inputs, got, want, what, n, w=16, extra=None):
  """Compares one batch of limb vectors with the integers wanted."""
  got = np.asarray(got)
  if got.shape[-1] != n:
    return dict(what=what, problem="limb count", got=int(got.shape[-1]),
                want=n)
  vals = dec(got, w).reshape(-1)
  for i, (v, x) in enumerate(zip(vals, want)):
    if v != x:
      return dict(what=what, inputs=[hex(int(a[i])) for a in inputs],
                  got=hex(int(v)), want=hex(int(x)), **(extra or {}))
  return None


BATCH = 16


def binary_unit(name, call, spec, n, his, shape, nout=None, fact=None,
                out_w=16, cases=None, functions=None, kw=None, limb=None,
                near=(), bound=None, mod=None, near_pairs=False):
  """Contract: value(call(a, b, ..)) == spec(a, b, ..) on the given ranges.

  cases: list of (label, facts(c, xs)); together they must cover all inputs,
    which is an obligation of its own.
  mod: equality is a congruence modulo this number.
  """
  nout = nout or n
  ns = limb or [n] * len(his)

  def f(*a):
    return fn(call)(*a, **(kw() if kw else {}))

  def prove(ob):
    for label, facts in (cases or [("", None)]):
      d = dom()
      c = d.c
      xs = [ints(c, "abc"[k], shape[:-1] or (1,), his[k])
            for k in range(len(his))]
      for ix in np.ndindex(*xs[0].shape):
        args = [x[ix] for x in xs]
        if fact is not None:
          c.facts.append(("ge0", fact(c, *args)))
        if facts is not None:
          c.facts.append(("ge0", facts(c, *args)))
      arrs = []
      for k, x in enumerate(xs):
        v = vec(c, x, ns[k])
        arrs.append((v if shape[:-1] else v[0], U16))
      (o,), _ = run(f, arrs, d, ob)
      ob.true(f"{label} output limbs", o.shape[-1] == nout, str(o.shape))
      got = value(c, o, out_w)
      got = got.reshape(xs[0].shape)
      for ix in np.ndindex(*got.shape):
        want = spec(c, *[x[ix] for x in xs])
        if mod:
          ob.zero_mod(f"{label} congruent {ix}", c, c.sub(got[ix], want), mod)
        else:
          ob.eq(f"{label} value {ix}", c, got[ix], want)
        if bound is not None:
          ob.ge(f"{label} bound {ix}", c, bound, got[ix])
    if cases:  # one of the cases applies to every input
      d = dom()
      c = d.c
      xs = [c.var("abc"[k], 0, his[k]) for k in range(len(his))]
      if fact is not None:
        c.facts.append(("ge0", fact(c, *xs)))
      first, second = [facts(c, *xs) for _, facts in cases]
      ob.ge("the cases cover all inputs", c, second, 0,
            hyps=[("ge0", c.sub(-1, first))])

  def concrete(rng, count, hints):
    b = shape[0] if shape[:-1] else 1
    for _ in range(max(1, count // 4)):
      rows = []
      B = BATCH if shape[:-1] else 1
      while len(rows) < B:
        r = [nasty(rng, h, near=near) for h in his]
        if near_pairs and len(r) > 1 and rng.random() < .4:
          r[1] = min(max(0, r[0] + rng.choice([-1, 0, 1, 1 << 16, -(1 << 16),
                                               rng.getrandbits(40)])), his[1])
        if fact is not None and fact(PyC, *r) < 0:
          continue
        rows.append(r)
      cols = list(zip(*rows))
      arrs = [enc(list(x) if shape[:-1] else x[0], ns[k])
              for k, x in enumerate(cols)]
      got = f(*arrs)
      want = [spec(PyC, *r) for r in rows]
      u.evals += len(rows)
      g = np.asarray(got)
      vals = dec(g, out_w).reshape(-1)
      if g.shape[-1] != nout:
        return dict(what=call, problem="limb count", got=g.shape[-1],
                    want=nout)
      for r, v, w in zip(rows, vals, want):
        bad = (v - w) % mod if mod else v != w
        if bad or (bound is not None and v > bound):
          return dict(function=call, inputs=[hex(x) for x in r],
                      got=hex(int(v)),
                      want=hex(int(w)) + (" modulo q" if mod else ""))
    return None

  u = Unit(name, functions or [FF + call], prove, concrete)
  return u


class PyC:
  """The specification's algebra on Python integers."""
  add = staticmethod(lambda a, b: a + b)
  sub = staticmethod(lambda a, b: a - b)
  mul = staticmethod(lambda a, b: a * b)
  fdiv = staticmethod(lambda a, b: a // b)
  ge0 = staticmethod(lambda a: int(a >= 0))
  ite = staticmethod(lambda p, a, b: a if p else b)


def cond_sub_spec(m):
  def spec(c, a, *_):
    return c.ite(c.ge0(c.sub(a, m)), c.sub(a, m), a)
  return spec


def cond_sub2_spec(m):
  def spec(c, a, b):
    return c.ite(c.ge0(c.sub(a, b)), c.sub(a, b), c.sub(c.add(a, m), b))
  return spec


def compare_unit(n, rows):
  def prove(ob):
    d = limbs.dom(prove=False)
    c = d.c
    a = limbs.jx.sym_array(d, "a", (rows, n), U16)
    b = limbs.jx.sym_array(d, "b", (rows, n), U16)
    (o,), _ = run(lambda x, y: fn("compare_u16")(x, y, chunk_num_u16=n),
                  [(a, U16), (b, U16)], d, ob)
    ob.true("one result per row", o.shape == (rows,), str(o.shape))
    for r in range(rows):
      own = {}
      for i in range(n):
        for x in (a[r, i], b[r, i]):
          own[next(iter(x.p.t))[0]] = i
      limb_of = {}

      def where(i):
        at = c.atoms[i]
        if i in own:
          return {own[i]}
        if at.kind not in ("bool", "quot"):
          return {-1}
        p = at.defn[1] if at.kind == "bool" else at.defn[0]
        s = set()
        for m in p.t:
          for j in m:
            s |= where(j)
        return s

      parts = [{} for _ in range(n)]
      ok = True
      for m, k in c.poly(o[r]).t.items():
        s = set()
        for i in m:
          s |= where(i)
        if len(s) > 1 or -1 in s:
          ok = False
          break
        parts[s.pop() if s else 0][m] = k
      if not ok:
        ob.undecided("comparison", "result is not a sum over limbs")
        continue
      # Induction on the number of limbs taken into account: the partial sum
      # has the sign of the comparison of the lower limbs.
      lo = hi = 0
      for i in range(n):
        term = c.mk(limbs.P(dict(parts[i])), None, None) if parts[i] else 0
        if i == 0:
          s, dd = 0, 0
          hyps = []
        else:
          s = c.var(f"s{i}", lo, hi)
          m = (1 << (16 * i)) - 1
          dd = c.var(f"d{i}", -m, m)
          hyps = [("eq0", c.sub(c.ge0(c.sub(s, 1)), c.ge0(c.sub(dd, 1)))),
                  ("eq0", c.sub(c.ge0(c.sub(-1, s)), c.ge0(c.sub(-1, dd))))]
        s2 = c.add(s, term)
        d2 = c.add(dd, c.mul(c.sub(a[r, i], b[r, i]), 1 << (16 * i)))
        ob.eq(f"row {r} limb {i}: greater", c, c.ge0(c.sub(s2, 1)),
              c.ge0(c.sub(d2, 1)), hyps=hyps)
        ob.eq(f"row {r} limb {i}: less", c, c.ge0(c.sub(-1, s2)),
              c.ge0(c.sub(-1, d2)), hyps=hyps)
        tl, th = c.rng(term)
        lo, hi = lo + tl, hi + th
      ob.true(f"row {r}: no wrap", hi < 1 << 31 and lo >= -(1 << 31))

  def concrete(rng, count, hints):
    hi = (1 << (16 * n)) - 1
    for _ in range(max(1, count // 4)):
      rws = []
      for _ in range(BATCH):
        x = nasty(rng, hi)
        y = nasty(rng, hi, near=(x,)) if rng.random() < .5 else min(max(
            0, x + (rng.choice([-1, 1]) << rng.randrange(0, 16 * n))), hi)
        rws.append((x, y))
      g = np.asarray(fn("compare_u16")(
          enc([x for x, _ in rws], n), enc([y for _, y in rws], n),
          chunk_num_u16=n))
      u.evals += len(rws)
      for (x, y), s in zip(rws, g):
        if np.sign(int(s)) != (x > y) - (x < y):
          return dict(function="compare_u16", a=hex(x), b=hex(y), got=int(s))
    return None

  u = Unit(f"compare_u16 n={n}", [FF + "compare_u16"], prove, concrete)
  return u


def reduction_spec(c, x, m=Q):
  """x mod q for 0 <= x < 2^760: the Barrett quotient is at most one short."""
  dq = c.fdiv(c.mul(x, MU), 1 << 760)
  z = c.sub(x, c.mul(dq, m))
  return c.ite(c.ge0(c.sub(z, m)), c.sub(z, m), z), z


def barrett_unit(name, call, his, prod):
  """Result is the canonical residue of the product (or of the input)."""
  def prove(ob):
    for case in ("below", "above"):
      d = dom()
      c = d.c
      xs = [c.var("ab"[k], 0, h) for k, h in enumerate(his)]
      x = c.mul(*xs) if prod else xs[0]
      want, z = reduction_spec(c, x)
      c.facts.append(("ge0", c.sub(Q - 1, z) if case == "below"
                      else c.sub(z, Q)))
      arrs = [(vec(c, [v], 24 if prod else 48), U16) for v in xs]
      (o,), _ = run(fn(call), arrs, d, ob)
      ob.true(f"{case} output limbs", o.shape == (1, 24), str(o.shape))
      got = value(c, o)[0]
      ob.eq(f"{case} value", c, got, z if case == "below" else c.sub(z, Q))
      ob.ge(f"{case} canonical", c, Q - 1, got)
      ob.ge(f"{case} not negative", c, got, 0)
      ob.zero_mod(f"{case} congruent", c, c.sub(got, x), Q)

  def concrete(rng, count, hints):
    for _ in range(max(1, count // 4)):
      rows = [[nasty(rng, h, near=(Q, 2 * Q)) for h in his]
              for _ in range(BATCH)]
      if not prod:
        for r in rows:
          if rng.random() < .3:
            r[0] = min(Q * rng.randint(0, his[0] // Q) + rng.randint(0, 1),
                       his[0])
      elif rng.random() < .5:
        rows[0] = [Q, rng.randint(0, his[1])]
        rows[1] = [his[0], his[1]]
      g = fn(call)(*[enc([r[k] for r in rows], 24 if prod else 48)
                     for k in range(len(his))])
      u.evals += len(rows)
      for r, v in zip(rows, dec(g)):
        w = (r[0] * r[1] if prod else r[0]) % Q
        if v != w:
          return dict(function=call, inputs=[hex(x) for x in r],
                      got=hex(int(v)), want=hex(w))
    return None

  u = Unit(name, [FF + call], prove, concrete)
  return u


def constants_unit():
  """The precomputed constants are the ones the contracts are about."""
  def facts():
    t = repo(UT)
    ar = lambda x, w: sum(int(v) << (w * i) for i, v in enumerate(x))
    yield "modulus", t.MODULUS_377_INT == Q, hex(t.MODULUS_377_INT)
    yield "modulus limbs", ar(t.MODULUS_377_INT_CHUNK, 16) == Q, ""
    yield "modulus limb count", len(t.MODULUS_377_INT_CHUNK) == 24, ""
    yield "shifted modulus limbs", ar(
        t.MODULUS_377_S16_INT_CHUNK, 16) == QS, ""
    yield "lazy matrix", all(
        (ar(r, 8) - (1 << (8 * (48 + i)))) % Q == 0 and
        len(r) == 48 and all(0 <= int(x) < 256 for x in r)
        for i, r in enumerate(t.MODULUS_377_LAZY_MAT)), ""

  def prove(ob):
    for n, ok, detail in facts():
      ob.true(n, ok, detail)

  def concrete(rng, n, hints):
    u.evals += 1
    for name, ok, detail in facts():
      if not ok and name != "lazy matrix":
        return dict(constant=name, detail=detail)
    return None

  u = Unit("precomputed limb constants", [UT], prove, concrete)
  return u


def lazy_matrix_unit():
  """construct_lazy_matrix: row i is congruent to 256^(48+i), in bytes."""
  def rows(p, nb):
    m = repo(UT + ":construct_lazy_matrix")(p, chunk_num_u8=nb)
    for i, r in enumerate(m):
      yield i, sum(int(v) << (8 * k) for k, v in enumerate(r)), r

  def prove(ob):
    for p, nb in ((Q, 48), ((1 << 255) - 19, 32)):
      seen = 0
      for i, v, r in rows(p, nb):
        seen += 1
        ob.true(f"row {i} of {p.bit_length()} bits congruent",
                (v - (1 << (8 * (nb + i)))) % p == 0)
        ob.true(f"row {i} of {p.bit_length()} bits are bytes",
                len(r) == nb and all(0 <= int(x) < 256 for x in r))
      ob.true("rows for every high byte of a product", seen >= nb + 4,
              str(seen))

  def concrete(rng, n, hints):
    for p, nb in ((Q, 48), ((1 << 255) - 19, 32)):
      for i, v, r in rows(p, nb):
        u.evals += 1
        if (v - (1 << (8 * (nb + i)))) % p:
          return dict(function="construct_lazy_matrix", p=hex(p), row=i)
    return None

  u = Unit("construct_lazy_matrix", [UT + ":construct_lazy_matrix"], prove,
           concrete, bounded=None)
  return u


def conv_units(out):
  """Integer <-> limb conversions are inverse to one another."""
  mods = lambda: [repo(UT)]

  def explore(f):
    import jax.numpy as jnp
    ex = nparr.proxies(jnp)
    return pysym.explore(f, mods(), limit=200, extra=ex)

  def flat(x):
    return [val(v) if not isinstance(v, (int, np.integer)) else int(v)
            for v in np.asarray(x, dtype=object).ravel()]

  def int_to(name, n, base, kw):
    def prove(ob):
      f = repo(UT + ":" + name)
      back = repo(UT + ":array_to_int")

      def go(e):
        x = e.var("x", 0, (1 << (base * n)) - 1)
        a = f(x, base, array_size=n, **kw)
        return x, a, back(a, base)
      ps = explore(go)
      ob.true("paths", len(ps) >= 1)
      for i, p in enumerate(ps):
        if p.raised is not None:
          ob.true(f"path {i}: does not raise", False, repr(p.raised))
          continue
        x, a, y = p.result
        fl = flat(a)
        ob.true(f"path {i}: {n} limbs", len(fl) == n, str(len(fl)))
        c = p.c
        v = c.total([c.mul(l, 1 << (base * k)) for k, l in enumerate(fl)])
        ob.eq(f"path {i}: value", c, v, val(x), hyps=p.hyps
              if hasattr(p, "hyps") else ())
        for k, l in enumerate(fl):
          ob.ge(f"path {i}: limb {k}", c, (1 << base) - 1, l)
          ob.ge(f"path {i}: limb {k}", c, l, 0)
        ob.eq(f"path {i}: round trip", c, val(y), val(x))

    def concrete(rng, count, hints):
      f = repo(UT + ":" + name)
      back = repo(UT + ":array_to_int")
      for _ in range(max(4, min(count, 60))):
        x = nasty(rng, (1 << (base * n)) - 1)
        a = np.asarray(f(x, base, array_size=n, **kw))
        u.evals += 1
        if a.shape != (n,) or dec(a, base) != x:
          return dict(function=name, x=hex(x), got=a.tolist())
        if back(a, base) != x:
          return dict(function="array_to_int", x=hex(x),
                      got=hex(int(back(a, base))))
      return None

    u = Unit(f"{name} base {base} size {n}",
             [UT + ":" + name, UT + ":array_to_int"], prove, concrete)
    out.append(u)

  for n, base in ((24, 16), (25, 16)):
    int_to("int_to_array", n, base, {})
    int_to("int_to_precomputed_array", n, base, {})
  int_to("int_to_array", 48, 8, dict(dtype=np.uint8))
  int_to("int_to_precomputed_array", 48, 8, {})

  def packs():
    def concrete(rng, count, hints):
      t = repo(UT)
      for _ in range(max(2, min(count, 12))):
        for n in (24, 25):
          hi = (1 << (16 * n)) - 1
          xs = [nasty(rng, hi) for _ in range(rng.choice([1, 2, 3, 4]))]
          u.evals += 1
          a = t.int_list_to_array(xs, 16, n)
          if list(dec(a)) != xs or list(t.array_to_int_list(a, 16)) != xs:
            return dict(function="int_list_to_array", xs=[hex(x) for x in xs])
          a = t.int_point_to_jax_point_pack(xs, 16, n)
          if list(dec(a)) != xs or list(
              t.jax_point_pack_to_int_point(a)) != xs:
            return dict(function="int_point_to_jax_point_pack",
                        xs=[hex(x) for x in xs])
          k = rng.choice([1, 2, 3])
          ps = [[nasty(rng, hi) for _ in range(4)] for _ in range(k)]
          a = np.asarray(t.int_point_batch_to_jax_point_pack(ps, 16, n))
          if a.shape != (4, k, n) or [
              list(r) for r in dec(a).transpose(1, 0)] != ps:
            return dict(function="int_point_batch_to_jax_point_pack",
                        points=[[hex(x) for x in p] for p in ps])
          if [list(r) for r in t.jax_point_pack_to_int_point_batch(a)] != ps:
            return dict(function="jax_point_pack_to_int_point_batch",
                        points=[[hex(x) for x in p] for p in ps])
      return None

    def prove(ob):
      # Lists and packs only rearrange: on symbolic integers, every limb of
      # the packed array is the limb of the coordinate it stands for.
      t = repo(UT)
      for k in (1, 2):
        def go(e, k=k):
          # a path per limb count and integer: keep the integers full length
          xs = [[e.var(f"x{i}{j}", 1 << 368, (1 << 384) - 1)
                 for j in range(2)] for i in range(k)]
          pk = t.int_point_batch_to_jax_point_pack(xs)
          return xs, pk, t.jax_point_pack_to_int_point_batch(pk)
        for i, p in enumerate(explore(go)):
          if p.raised is not None:
            ob.true(f"path {i}: does not raise", False, repr(p.raised))
            continue
          xs, pk, back = p.result
          c = p.c
          pk = np.asarray(pk, dtype=object)
          ob.true("shape", pk.shape == (2, k, 24), str(pk.shape))
          for a in range(k):
            for b in range(2):
              v = c.total([c.mul(l, 1 << (16 * m)) for m, l in
                           enumerate(flat(pk[b, a]))])
              ob.eq(f"point {a} coordinate {b}", c, v, val(xs[a][b]))
              ob.eq(f"point {a} coordinate {b} back", c, val(back[a][b]),
                    val(xs[a][b]))

    u = Unit("lists and packs of limb vectors",
             [UT + ":" + f for f in (
                 "int_list_to_array", "array_to_int_list",
                 "int_point_to_jax_point_pack", "jax_point_pack_to_int_point",
                 "int_point_batch_to_jax_point_pack",
                 "jax_point_pack_to_int_point_batch")], prove, concrete)
    out.append(u)
  packs()


def carry_add_unit():
  def concrete(rng, count, hints):
    f = fn("carry_add")
    for _ in range(max(2, count // 4)):
      a, b = [nasty(rng, (1 << 383) - 1) for _ in range(2)]
      u.evals += 1
      g = f(enc(a, 24).astype(U32) + enc(b, 24).astype(U32))
      if dec(g) != a + b:
        return dict(function="carry_add", a=hex(a), b=hex(b),
                    got=hex(int(dec(g))))
    return None
  u = Unit("carry_add", [FF + "carry_add"], None, concrete,
           bounded="sums of two 383-bit integers, sampled", search=2000,
           cross=200)
  return u


def units(tier):
  us = []
  B2 = (2, 24)
  add = lambda c, a, b: c.add(a, b)
  add3 = lambda c, a, b, d: c.add(c.add(a, b), d)
  sub = lambda c, a, b: c.sub(a, b)
  mul = lambda c, a, b: c.mul(a, b)
  half = (1 << 383) - 1
  third = ((1 << 384) - 1) // 3
  hx, tx = (1 << 399) - 1, ((1 << 400) - 1) // 3
  us.append(binary_unit("add_2u16", "add_2u16", add, 24, [half, half], B2))
  us.append(binary_unit("add_2u16 ext", "add_2u16", add, 25, [hx, hx],
                        (2, 25)))
  us.append(binary_unit("add_2u16 one vector", "add_2u16", add, 24,
                        [half, half], (24,)))
  us.append(binary_unit("add_3u16", "add_3u16", add3, 24, [third] * 3, B2))
  us.append(binary_unit("add_3u16 ext", "add_3u16", add3, 25, [tx] * 3,
                        (2, 25)))
  for n in (24, 25, 48):
    h = (1 << (16 * n - 1)) - 1
    us.append(binary_unit(
        f"sub_2u16 n={n}", "sub_2u16", sub, n, [h, h], (2, n),
        fact=lambda c, a, b: c.sub(a, b),
        kw=lambda n=n: dict(chunk_num_u16=n), near_pairs=True))
  us.append(binary_unit("sub_2u16 one vector", "sub_2u16", sub, 24,
                        [half, half], (24,), fact=lambda c, a, b: c.sub(a, b),
                        near_pairs=True))
  us.append(compare_unit(24, 2))
  us.append(compare_unit(25, 1))
  for n, m, kw in ((24, Q, None), (25, QS, lambda: dict(
      modulus_377_int_chunk=repo(UT).MODULUS_377_S16_INT_CHUNK,
      chunk_num_u16=25))):
    h = (1 << (16 * n - 1)) - 1
    us.append(binary_unit(
        f"cond_sub_mod_u16 n={n}", "cond_sub_mod_u16", cond_sub_spec(m), n,
        [h], (1, n), kw=kw, near=(m, 2 * m),
        cases=[("a >= m", lambda c, a, m=m: c.sub(a, m)),
               ("a < m", lambda c, a, m=m: c.sub(m - 1, a))]))
    us.append(binary_unit(
        f"cond_sub_2u16 n={n}", "cond_sub_2u16", cond_sub2_spec(m), n,
        [h // 2, m], (1, n), kw=kw, near=(m, 2 * m), near_pairs=True,
        cases=[("a >= b", lambda c, a, b: c.sub(a, b)),
               ("a < b", lambda c, a, b: c.sub(c.sub(b, a), 1))]))
  full = (1 << 384) - 1
  us.append(binary_unit("mul_2u16", "mul_2u16", mul, 24, [full, full],
                        (1, 24), nout=48))
  us.append(binary_unit("mul_2u16 batch", "mul_2u16", mul, 24, [full, full],
                        (2, 24), nout=48))
  us.append(binary_unit(
      "mul_2u16 ext to bytes", "mul_2u16", mul, 25,
      [(1 << 400) - 1, (1 << 400) - 1], (1, 25), nout=100, out_w=8,
      kw=lambda: dict(chunk_num_u16=25, output_dtype=repo(UT).jnp.uint8)))
  us.append(shift_unit())
  us.append(barrett_unit("mod_mul_barrett_2u16", "mod_mul_barrett_2u16",
                         [8 * Q, 8 * Q], True))
  us.append(barrett_unit("barrett_reduction_u16x2", "barrett_reduction_u16x2",
                         [(1 << 760) - 1], False))
  us.append(binary_unit(
      "mod_mul_lazy_2u16", "mod_mul_lazy_2u16", mul, 25,
      [(1 << 400) - 1, (1 << 400) - 1], (1, 25), mod=Q, bound=LAZY))
  us.append(binary_unit(
      "mod_mul_lazy_2u16 batch", "mod_mul_lazy_2u16", mul, 25,
      [(1 << 400) - 1, (1 << 400) - 1], (2, 25), mod=Q, bound=LAZY))
  us.append(constants_unit())
  us.append(lazy_matrix_unit())
  conv_units(us)
  us.append(carry_add_unit())
  return us


def shift_unit():
  """mul_shift_2u16x2x1(x, mu) = floor(x mu / 2^760) for x < 2^760."""
  hi = (1 << 760) - 1

  def prove(ob):
    t = repo(UT)
    mu = np.array(t.MU_377_INT_CHUNK, dtype=object)
    m = sum(int(v) << (16 * i) for i, v in enumerate(mu))
    d = dom()
    c = d.c
    x = c.var("x", 0, hi)
    (o,), _ = run(lambda a: fn("mul_shift_2u16x2x1")(
        a, np.array(t.MU_377_INT_CHUNK, U16)), [(vec(c, [x], 48), U16)], d, ob)
    ob.true("output limbs", o.shape == (1, 24), str(o.shape))
    ob.eq("value", c, value(c, o)[0], c.fdiv(c.mul(x, m), 1 << 760))

  def concrete(rng, count, hints):
    t = repo(UT)
    mu = np.array(t.MU_377_INT_CHUNK, U16)
    m = sum(int(v) << (16 * i) for i, v in enumerate(mu))
    for _ in range(max(1, count // 4)):
      xs = [nasty(rng, hi) for _ in range(BATCH)]
      g = dec(fn("mul_shift_2u16x2x1")(enc(xs, 48), mu))
      u.evals += len(xs)
      for x, v in zip(xs, g):
        if v != (x * m) >> 760:
          return dict(function="mul_shift_2u16x2x1", x=hex(x),
                      got=hex(int(v)))
    return None

  u = Unit("mul_shift_2u16x2x1", [FF + "mul_shift_2u16x2x1"], prove, concrete)
  return u
