"""C11: RNS polynomials form the exact quotient ring; CRT is exact."""

import itertools

import numpy as np

from vc import ckks, nparr, pysym, ring
from vc.ckks import C, bitrev, primes
from vc.harness import Unit, at_scale, repo
from vc.pysym import val

X64 = True
R, RU = C + "rns", C + "rns_utils"


def mods():
  return [repo(R), repo(RU)]


def poly(T, e, name, n, qs, is_ntt=False):
  return T.RnsPolynomial(n, list(qs), [
      [e.var(f"{name}{i}_{j}", 0, q - 1) for j in range(n)]
      for i, q in enumerate(qs)], is_ntt)


def vals(p):
  return [[val(x) for x in row] for row in p.coeffs]


def rand_poly(T, rng, n, qs, is_ntt=False):
  return T.RnsPolynomial(n, list(qs), [
      [rng.choice([0, q - 1, rng.randrange(q), rng.randrange(q)])
       for _ in range(n)] if rng.random() < .7 else ckks.special(rng, n, q)
      for q in qs], is_ntt)


def owned(*ps):
  """No two coefficient lists of these polynomials are one object."""
  rows = [r for p in ps for r in (p.coeffs if hasattr(p, "coeffs") else [p])]
  return len({id(r) for r in rows}) == len(rows)


def same(ps, name, ob):
  ob.true(f"{name}: has paths", len(ps) > 0)
  for i, p in enumerate(ps):
    ob.true(f"{name} path {i}: does not raise", p.raised is None,
            repr(p.raised))
  return [p for p in ps if p.raised is None]


def ring_unit(qs, n):
  def prove(ob):
    T = repo(R)
    nt = T.RnsParams(n, list(qs)).ntt_params

    for is_ntt in (False, True):
      def lin(e, is_ntt=is_ntt):
        e.residues = True
        a, b = poly(T, e, "a", n, qs, is_ntt), poly(T, e, "b", n, qs, is_ntt)
        va, vb = vals(a), vals(b)
        return va, vb, a + b, a - b, -a, a, b
      t = "evaluation form" if is_ntt else "coefficient form"
      for p in same(pysym.explore(lin, mods()), t, ob):
        va, vb, s, d, ng, a, b = p.result
        c = p.c
        ob.true(f"{t}: operands unchanged", all(
            c.poly(x).t == c.poly(y).t for u, w in ((va, vals(a)),
                                                   (vb, vals(b)))
            for r1, r2 in zip(u, w) for x, y in zip(r1, r2)))
        ob.true(f"{t}: results and operands share no storage",
                owned(a, b, s, d, ng))
        for o in (s, d, ng):
          ob.true(f"{t}: form and moduli kept", o.is_ntt == is_ntt and
                  list(o.moduli) == list(qs) and o.degree == n and
                  [len(x) for x in o.coeffs] == [n] * len(qs))
        for i, q in enumerate(qs):
          for j in range(n):
            ckks.eq_mod(ob, c, f"{t} sum {i},{j}", val(s.coeffs[i][j]),
                        c.add(va[i][j], vb[i][j]), q)
            ckks.eq_mod(ob, c, f"{t} difference {i},{j}", val(d.coeffs[i][j]),
                        c.sub(va[i][j], vb[i][j]), q)
            ckks.eq_mod(ob, c, f"{t} negation {i},{j}", val(ng.coeffs[i][j]),
                        c.neg(va[i][j]), q)

    def mul(e):
      e.residues = True
      a, b = poly(T, e, "a", n, qs), poly(T, e, "b", n, qs)
      va, vb = vals(a), vals(b)
      a.to_ntt_form(nt)
      b.to_ntt_form(nt)
      a.to_ntt_form(nt)  # idempotent
      ab = a * b
      f = ab.is_ntt
      ab.to_coeffs_form(nt)
      a.to_coeffs_form(nt)
      a.to_coeffs_form(nt)
      return va, vb, ab, a, f
    for p in same(pysym.explore(mul, mods()), "product", ob):
      va, vb, ab, a, f = p.result
      c = p.c
      ob.true("product of evaluation forms is in evaluation form", f is True)
      ob.true("product converts to coefficient form", ab.is_ntt is False)
      for i, q in enumerate(qs):
        w = ring.negacyclic(c, va[i], vb[i])
        for j in range(n):
          ckks.eq_mod(ob, c, f"product {i},{j}", val(ab.coeffs[i][j]), w[j], q)
          ckks.eq_mod(ob, c, f"conversion round trip {i},{j}",
                      val(a.coeffs[i][j]), va[i][j], q)

    def gen(e):
      big = 1
      for q in qs:
        big *= q
      xs = [e.var(f"x{j}", -big, 2 * big) for j in range(n)]
      g = T.gen_rns_polynomial(n, list(xs), list(qs))
      cr = repo(RU).reconstruct_crt(g.coeffs, list(qs))
      return xs, g, cr
    big = 1
    for q in qs:
      big *= q
    for p in same(pysym.explore(gen, mods()), "generation", ob):
      xs, g, cr = p.result
      c = p.c
      ob.true("every limb has its own storage", owned(g, xs))
      ob.true("generated in coefficient form", g.is_ntt is False and
              g.degree == n and list(g.moduli) == list(qs))
      for j in range(n):
        for i, q in enumerate(qs):
          v = val(g.coeffs[i][j])
          ckks.eq_mod(ob, c, f"residue {i},{j}", v, val(xs[j]), q)
        ckks.eq_mod(ob, c, f"reconstruction {j} modulo the product",
                    val(cr[j]), val(xs[j]), big) if len(qs) == 1 else None
        for i, q in enumerate(qs):
          ob.zero_mod(f"reconstruction {j} modulo {q}", c,
                      c.sub(val(cr[j]), val(xs[j])), q)
        ob.ge(f"reconstruction {j} not negative", c, val(cr[j]), 0)
        ob.ge(f"reconstruction {j} below the product", c, big - 1, val(cr[j]))

  def run(rng, cnt, hints):
    T = repo(R)
    nt = T.RnsParams(n, list(qs)).ntt_params
    big = 1
    for q in qs:
      big *= q
    import copy
    for _ in range(cnt):
      a, b = rand_poly(T, rng, n, qs), rand_poly(T, rng, n, qs)
      run.unit.evals += 1
      inp = dict(a=a.coeffs, b=b.coeffs, moduli=qs, degree=n)
      run.unit.last_inputs = copy.deepcopy(inp)
      inp = run.unit.last_inputs
      want = dict(add=[[(x + y) % q for x, y in zip(r, s)] for q, r, s in
                       zip(qs, a.coeffs, b.coeffs)],
                  sub=[[(x - y) % q for x, y in zip(r, s)] for q, r, s in
                       zip(qs, a.coeffs, b.coeffs)],
                  neg=[[-x % q for x in r] for q, r in zip(qs, a.coeffs)],
                  mul=[[x % q for x in ring.negacyclic_int(r, s)]
                       for q, r, s in zip(qs, a.coeffs, b.coeffs)])
      got = dict(add=(a + b).coeffs, sub=(a - b).coeffs, neg=(-a).coeffs)
      for x in (a, b):
        x.to_ntt_form(nt)
      e = {}
      e["add"], e["sub"], e["neg"], e["mul"] = a + b, a - b, -a, a * b
      for k, o in e.items():
        o.to_coeffs_form(nt)
        if o.coeffs != want[k]:
          return dict(inp, function=f"RnsPolynomial {k} in evaluation form",
                      got=o.coeffs, want=want[k])
      for k, o in got.items():
        if o != want[k]:
          return dict(inp, function=f"RnsPolynomial {k} in coefficient form",
                      got=o, want=want[k])
      for op in ("__add__", "__sub__", "__mul__"):
        x = rand_poly(T, rng, n, qs)
        for y, z in ((a, x), (x, a)):
          try:
            getattr(y, op)(z)
          except ValueError:
            continue
          return dict(inp, function=f"RnsPolynomial.{op} of mixed forms did "
                      "not raise")
      ys = rand_poly(T, rng, n, qs, True)
      y0 = copy.deepcopy(ys.coeffs)
      ys.to_coeffs_form(nt)
      ys.to_ntt_form(nt)
      if ys.coeffs != y0:
        return dict(function="RnsPolynomial.to_ntt_form of to_coeffs_form",
                    values=y0, moduli=qs, got=ys.coeffs)
      # small integers: equal residues in every limb, converted limb by limb
      sm = [rng.randrange(min(qs)) for _ in range(n)]
      keep = list(sm)
      g = T.gen_rns_polynomial(n, sm, list(qs))
      g.to_ntt_form(nt)
      g2 = T.RnsPolynomial(n, list(qs), [list(keep) for _ in qs], False)
      g2.to_ntt_form(nt)
      if g.coeffs != g2.coeffs or sm != keep:
        return dict(function="gen_rns_polynomial then to_ntt_form",
                    coeffs=keep, moduli=qs, got=g.coeffs, want=g2.coeffs,
                    argument_afterwards=sm)
      xs = [rng.randrange(-big, 2 * big) for _ in range(n)]
      g = T.gen_rns_polynomial(n, list(xs), list(qs))
      if g.coeffs != [[x % q for x in xs] for q in qs]:
        return dict(function="gen_rns_polynomial", coeffs=xs, moduli=qs,
                    got=g.coeffs)
      cr = repo(RU).reconstruct_crt(g.coeffs, list(qs))
      if [int(x) for x in cr] != [x % big for x in xs]:
        return dict(function="reconstruct_crt", residues=g.coeffs, moduli=qs,
                    got=cr, want=[x % big for x in xs])
      if max(qs) < 1 << 63:
        j = T.gen_rns_polynomial_from_jnp_array(n, g.to_jnp_array(), list(qs),
                                                is_ntt=True)
        if j.coeffs != g.coeffs or not j.is_ntt or j.degree != n:
          return dict(function="gen_rns_polynomial_from_jnp_array of "
                      "to_jnp_array", coeffs=g.coeffs, got=j.coeffs)
    return None
  u = Unit(f"RnsPolynomial degree {n} moduli {qs}", [R + "." + f for f in [
      "RnsPolynomial.__add__", "RnsPolynomial.__sub__",
      "RnsPolynomial.__neg__", "RnsPolynomial.__mul__",
      "RnsPolynomial.to_ntt_form", "RnsPolynomial.to_coeffs_form",
      "gen_rns_polynomial", "RnsParams.__post_init__"]] + [
          RU + ".reconstruct_crt"], prove=prove, concrete=run, cross=5,
      search=200)
  run.unit = u
  return u


def mixed_unit(qs, n):
  """Operands of different form, degree or basis are refused."""
  def prove(ob):
    T = repo(R)
    import random
    rng = random.Random(7)
    for op in ("__add__", "__sub__", "__mul__"):
      cases = dict(
          form=(rand_poly(T, rng, n, qs), rand_poly(T, rng, n, qs, True)),
          form2=(rand_poly(T, rng, n, qs, True), rand_poly(T, rng, n, qs)),
          degree=(rand_poly(T, rng, n, qs, True),
                  rand_poly(T, rng, 2 * n, qs, True)),
          limbs=(rand_poly(T, rng, n, qs, True),
                 rand_poly(T, rng, n, qs[:-1], True)),
          order=(rand_poly(T, rng, n, qs, True),
                 rand_poly(T, rng, n, qs[::-1], True)))
      for i in range(len(qs)):
        for f in (True, False):
          other = [q if j != i else primes(29, 2 * n, 1)[0]
                   for j, q in enumerate(qs)]
          cases[f"modulus {i}, evaluation form {f}"] = (
              rand_poly(T, rng, n, qs, f), rand_poly(T, rng, n, other, f))
      if op == "__mul__":
        cases["coefficient forms"] = (rand_poly(T, rng, n, qs),
                                      rand_poly(T, rng, n, qs))
      for k, (a, b) in cases.items():
        try:
          getattr(a, op)(b)
          r = False
        except ValueError:
          r = True
        ob.true(f"{op}: {k} mismatch refused", r, hard=True)
  return Unit(f"RnsPolynomial operand checks moduli {qs}",
              [R + ".RnsPolynomial._check_compatible"], prove=prove)


def crt_unit(qs, m):
  """reconstruct_crt of m integers, residues symbolic."""
  big = 1
  for q in qs:
    big *= q

  def prove(ob):
    def go(e):
      res = [[e.var(f"r{i}_{j}", 0, q - 1) for j in range(m)]
             for i, q in enumerate(qs)]
      return res, repo(RU).reconstruct_crt([list(r) for r in res], list(qs))
    for p in same(pysym.explore(go, mods()), "crt", ob):
      res, o = p.result
      c = p.c
      ob.true("length", len(o) == m)
      for j in range(m):
        ob.ge(f"{j}: not negative", c, val(o[j]), 0)
        ob.ge(f"{j}: below the product", c, big - 1, val(o[j]))
        for i, q in enumerate(qs):
          ob.zero_mod(f"{j}: residue modulo {q}", c,
                      c.sub(val(o[j]), val(res[i][j])), q)

  def run(rng, cnt, hints):
    for _ in range(cnt):
      xs = [rng.choice([rng.randrange(big), big - 1, 0, big // 2])
            for _ in range(m)]
      run.unit.evals += 1
      o = repo(RU).reconstruct_crt([[x % q for x in xs] for q in qs], list(qs))
      if [int(x) for x in o] != xs:
        return dict(function="reconstruct_crt", integers=xs, moduli=qs, got=o)
    return None
  u = Unit(f"reconstruct_crt {m} integers moduli {qs}",
           [RU + ".reconstruct_crt", RU + ".compute_q_hat_inv_mod_q"],
           prove=prove, concrete=run, search=500)
  run.unit = u
  return u


def const_unit(k, t):
  """CRT constants for every list of k moduli and t targets (symbolic)."""
  def prove(ob):
    U = repo(RU)

    def go(e):
      qs = [e.var(f"q{i}", 2, (1 << 62)) for i in range(k)]
      ps = [e.var(f"p{i}", 2, (1 << 62)) for i in range(t)]
      inv = U.compute_q_hat_inv_mod_q(list(qs))
      hat = U.compute_q_hat_mod_p(list(qs), list(ps))
      return qs, ps, inv, hat
    for p in same(pysym.explore(go, mods()), "constants", ob):
      qs, ps, inv, hat = p.result
      c, e = p.c, p.e
      ob.true("lengths", len(inv) == k and len(hat) == k and
              all(len(h) == t for h in hat))
      for i in range(k):
        prod = 1
        for j in range(k):
          if j != i:
            prod = c.mul(prod, val(qs[j]))
        key = c.poly(val(inv[i])).key()
        hit = [x for x in e.inverses if x[0] == key]
        # (pow of the constant 1 is evaluated, not recorded)
        if k == 1:
          ob.true("single modulus: inverse of the empty product",
                  not isinstance(inv[i], pysym.S) and int(inv[i]) == 1 or
                  bool(hit))
        else:
          ob.true(f"constant {i} is the inverse of the product of the others "
                  f"modulo its own modulus", len(hit) == 1 and
                  hit[0][1].t == c.poly(prod).t and
                  hit[0][2].t == c.poly(val(qs[i])).t)
        for j in range(t):
          h = val(hat[i][j])
          # h = prod - p * s for an integer s, and 0 <= h < p
          d = c.sub(prod, h)
          ok = p.e.exact(d, val(ps[j])) if isinstance(
              d, pysym.V) else (0 if d == 0 else None)
          ob.true(f"hat {i},{j} is congruent to the product of the others",
                  ok is not None)
          ob.ge(f"hat {i},{j} not negative", c, h, 0)
          ob.ge(f"hat {i},{j} below its target", c, c.sub(val(ps[j]), 1), h)

  def run(rng, cnt, hints):
    U = repo(RU)
    pool = primes(31, 2, 12) + primes(20, 2, 8) + [3, 5, 7, 11, 13, 17]
    pool += primes(60, 2, 3)
    for _ in range(cnt):
      qs = rng.sample(pool, k)
      ps = rng.sample(pool, t)
      run.unit.evals += 1
      run.unit.last_inputs = dict(moduli=qs, targets=ps)
      inv = U.compute_q_hat_inv_mod_q(list(qs))
      hat = U.compute_q_hat_mod_p(list(qs), list(ps))
      for i, q in enumerate(qs):
        h = 1
        for j in range(k):
          h *= qs[j] if j != i else 1
        if not 0 <= inv[i] < q or inv[i] * h % q != 1 % q:
          return dict(function="compute_q_hat_inv_mod_q", moduli=qs, got=inv,
                      index=i)
        if [int(x) for x in hat[i]] != [h % x for x in ps]:
          return dict(function="compute_q_hat_mod_p", moduli=qs, targets=ps,
                      got=hat, index=i)
    return None
  u = Unit(f"CRT constants for every {k} moduli and {t} targets", [
      RU + ".compute_q_hat_inv_mod_q", RU + ".compute_q_hat_mod_p",
      RU + ".inverse_mod"], prove=prove, concrete=run, cross=50, search=1000,
      assumes=["builtin pow(x, -1, m) returns the inverse of x modulo m"])
  run.unit = u
  return u


def bits_unit(w):
  def prove(ob):
    U = repo(RU)

    def go(e):
      x = e.var("x", 0, (1 << w) - 1)
      y = U.bit_reversal(x, w)
      return x, y, U.bit_reversal(y, w)
    for p in same(pysym.explore(go, mods()), "bit_reversal", ob):
      x, y, z = p.result
      c = p.c
      for i in range(w):
        ob.eq(f"bit {i} becomes bit {w-1-i}", c,
              c.mod(c.fdiv(val(y), 1 << (w - 1 - i)), 2),
              c.mod(c.fdiv(val(x), 1 << i), 2))
      ob.ge("result has the same width", c, (1 << w) - 1, val(y))
      ob.eq("involution", c, val(z), val(x))
    n = 1 << w
    xs = list(range(n))
    U.bit_reversal_array(xs)
    ob.true("array reordered", xs == [bitrev(i, w) for i in range(n)],
            hard=True)
    ob.true("num_bits", U.num_bits(n) == w)
    for x in range(-3, 70):
      ob.true(f"is_power_of_two({x})", bool(U.is_power_of_two(x)) ==
              (x > 0 and bin(x).count("1") == 1), hard=True)

  def run(rng, cnt, hints):
    U = repo(RU)
    for x in range(1 << w):
      run.unit.evals += 1
      if U.bit_reversal(x, w) != bitrev(x, w):
        return dict(function="bit_reversal", x=x, width=w,
                    got=U.bit_reversal(x, w))
    return None
  u = Unit(f"bit reversal width {w}", [
      RU + ".bit_reversal", RU + ".bit_reversal_array", RU + ".num_bits",
      RU + ".is_power_of_two"], prove=prove, concrete=run)
  run.unit = u
  return u


def units(tier):
  P = primes
  us = []
  for n in (2, 4, 8):
    us.append(ring_unit([P(31, 2 * n, 1)[0], P(30, 2 * n, 1)[0]], n))
    us.append(ring_unit([P(60, 2 * n, 1)[0]], n))
  us.append(ring_unit([97, 193, 257], 16))
  us.append(ring_unit(P(31, 8, 4), 4))
  if tier == "thorough":
    us.append(ring_unit(P(31, 32, 2), 16))
    us.append(ring_unit(P(31, 64, 2), 32))
  us += [mixed_unit(P(31, 8, 2), 4), mixed_unit(P(31, 8, 4), 4)]
  for qs in ([17], [3, 5], [17, 19, 23], P(31, 8, 2), P(31, 8, 5),
             P(60, 8, 2) + [97], [2, 3, 5, 7, 11, 13]):
    for m in (1, 3):
      us.append(crt_unit(qs, m))
  for k in (1, 2, 3, 4, 5):
    for t in (1, 3):
      us.append(const_unit(k, t))
  us += [bits_unit(w) for w in (0, 1, 2, 3, 4, 6)]
  us += [at_scale(ring_unit(P(31, 2048, 3), 1024)),
         at_scale(ring_unit(P(31, 512, 20), 256)),
         at_scale(crt_unit(P(31, 8, 30), 2))]
  return us
