"""C05: gadget decomposition recomposes to the nearest representable value."""

import numpy as np
import z3

from vc import elem, jx
from vc.bv import BVDom
from vc.harness import Unit, repo

D = "jaxite.jaxite_cggi.decomposition"


def combos(tier):
  out = []
  for total in ((32, 26, 16) if tier == "quick" else range(2, 33)):
    for b in range(1, min(total, 16 if tier == "quick" else 31) + 1):
      for lv in range(1, total // b + 1):
        if tier == "quick" and b not in (2, 4, 8, 3, 5, 6, 7, 16) and (
            lv not in (1, total // b)):
          continue
        if tier == "quick" and b == 1 and lv not in (1, 2, total):
          continue
        out.append((total, b, lv))
  return out


def word(dom, name="x"):
  return elem.scal(name, 32, dom)


def run1(dom, fn, args):
  flat, _, _ = jx.run_sym(fn, args, dom)
  return [elem.bvof(e) for e in jx.to_obj(flat[0]).ravel()]


def tail_bound(b, total, lv):
  """Largest magnitude of the dropped balanced digits plus dropped bits."""
  n = total // b
  rem = total % b
  w = 1 << rem
  t = 0
  for _ in range(n - lv):
    t += (1 << (b - 1)) * w
    w <<= b
  return t + (1 << rem) - 1


def prove_group(cs):
  def prove(ob):
    sd = repo(D + ":signed_decomposition")
    de = repo(D + ":decompose")
    rc = repo(D + ":recompose")
    rs = repo(D + ":recomposition_summands")
    for total, b, lv in cs:
      tag = f"total={total} base=2^{b} levels={lv}"
      ob.info = dict(c=(total, b, lv))
      mask = z3.BitVecVal((1 << total) - 1, 32)
      dom = BVDom()
      x, ax = word(dom)
      pre = x & ~mask == 0
      # signed digits
      ds = run1(dom, lambda v: sd(v, b, lv, total), [(ax, np.uint32)])
      ob.true(f"{tag}: signed digit count", len(ds) == lv)
      half = 1 << (b - 1)
      for i, d in enumerate(ds):
        ob.bv(f"{tag}: signed digit {i} in [-B/2, B/2)", dom, z3.And(
            d >= z3.BitVecVal(-half, 32), d < z3.BitVecVal(half, 32))
              if b < 32 else z3.BoolVal(True), [pre])
      rec = z3.BitVecVal(0, 32)
      for i, d in enumerate(ds):
        rec = rec + (d << (total - (i + 1) * b))
      diff = (rec - x) << (32 - total)  # signed difference modulo 2^total
      bound = tail_bound(b, total, lv) << (32 - total)
      ob.bv(f"{tag}: signed digits recompose to the rounded value", dom,
            z3.And(diff <= bound, diff >= -bound) if bound < 2**31
            else z3.BoolVal(True), [pre])
      # unsigned digits
      du = run1(dom, lambda v: de(v, b, lv, total), [(ax, np.uint32)])
      keep = total - b * lv
      for i, d in enumerate(du):
        ob.bv(f"{tag}: digit {i} is the block it names", dom,
              d == z3.LShR(x, total - (i + 1) * b) & ((1 << b) - 1), [pre])
      dd = np.empty((lv,), object)
      for i, d in enumerate(du):
        dd[i] = z3.simplify(d)
      back = run1(dom, lambda v: rc(v, b, total), [(dd, np.uint32)])
      ob.bv(f"{tag}: recompose(decompose(x)) keeps exactly the high bits", dom,
            back[0] == z3.LShR(x, keep) << keep if keep < 32 else back[0] == 0,
            [pre])
      sm = run1(dom, lambda v: rs(v, b, lv, total), [(ax, np.uint32)])
      for i, s in enumerate(sm):
        ob.bv(f"{tag}: summand {i} is x scaled by its digit weight", dom,
              s == x << (total - (i + 1) * b))
  return prove


def spec_signed(x, total, b, lv):
  n = total // b
  rem = total % b
  v = x >> rem
  digs = []
  for _ in range(n):
    d = v % (1 << b)
    if d >= 1 << (b - 1):
      d -= 1 << b
    v = (v - d) >> b
    digs.append(d)
  return digs[::-1][:lv]


def concrete(cs):
  def run(rng, n, hints):
    import jax.numpy as jnp
    M = repo(D)
    hints = [h for h in hints if "x" in h]
    for k in range(n):
      h = hints[k] if k < len(hints) else {}
      total, b, lv = tuple(h.get("c") or rng.choice(cs))
      x = h["x"] % (1 << total) if "x" in h else rng.choice(
          [rng.randrange(1 << total), (1 << total) - 1,
           rng.getrandbits(total) & rng.getrandbits(total),
           rng.getrandbits(total) | rng.getrandbits(total),
           (1 << rng.randrange(total)) - 1])
      run.unit.evals += 1
      run.unit.last_inputs = dict(total=total, base_log=b, levels=lv, x=x)
      got = [int(v) for v in np.asarray(
          M.signed_decomposition(jnp.uint32(x), b, lv, total)).astype(np.int32)]
      dif = sum(d << (total - (i + 1) * b) for i, d in enumerate(got)) - x
      dif = (dif + (1 << total - 1)) % (1 << total) - (1 << total - 1)
      if any(not -(1 << b - 1) <= d < 1 << b - 1 for d in got) or (
          len(got) != lv) or (
          tail_bound(b, total, lv) < 1 << total - 1
          and abs(dif) > tail_bound(b, total, lv)):
        return dict(function="signed_decomposition", total=total, base_log=b,
                    levels=lv, x=x, got=got,
                    want=spec_signed(x, total, b, lv))
      du = [int(v) for v in np.asarray(M.decompose(jnp.uint32(x), b, lv,
                                                   total))]
      want = [(x >> (total - (i + 1) * b)) % (1 << b) for i in range(lv)]
      if du != want:
        return dict(function="decompose", total=total, base_log=b, levels=lv,
                    x=x, got=du, want=want)
      r = int(M.recompose(jnp.asarray(du, jnp.uint32), b, total))
      w = sum(d << (total - (i + 1) * b) for i, d in enumerate(want)) % 2**32
      if r != w:
        return dict(function="recompose", total=total, base_log=b, levels=lv,
                    x=x, got=r, want=w)
      s = [int(v) for v in np.asarray(
          M.recomposition_summands(jnp.uint32(x), b, lv, total))]
      w = [(x << (total - (i + 1) * b)) % 2**32 for i in range(lv)]
      if s != w:
        return dict(function="recomposition_summands", total=total,
                    base_log=b, levels=lv, x=x, got=s, want=w)
    return None
  return run


def rlwe_unit(k1, N, total, b, lv):
  def prove(ob):
    M = repo(D)
    p = M.DecompositionParameters(log_base=b, level_count=lv,
                                  total_bit_length=total)
    dom = BVDom()
    xs = jx.sym_array(dom, "x", (k1, N), np.uint32)
    flat, _, _ = jx.run_sym(
        lambda c: M.decompose_rlwe_ciphertext(c, p), [(xs, np.uint32)], dom)
    out = jx.to_obj(flat[0])
    ob.true("shape", out.shape == (k1 * lv, N), str(out.shape))
    for i in range(k1):
      for j in range(N):
        a = np.empty((), object)
        a[()] = xs[i, j]
        one = run1(dom, lambda v: M.signed_decomposition(v, b, lv, total),
                   [(a, np.uint32)])
        for l in range(lv):
          ob.bv(f"row ({i},{l}) coefficient {j}", dom,
                elem.bvof(out[i * lv + l, j]) == one[l])

  def run(rng, n, hints):
    import jax.numpy as jnp
    M = repo(D)
    for _ in range(n):
      kk, NN = rng.choice([(k1, N), (3, 64)])
      p = M.DecompositionParameters(log_base=b, level_count=lv,
                                    total_bit_length=total)
      x = np.array([[rng.randrange(1 << total) for _ in range(NN)]
                    for _ in range(kk)], np.uint32)
      run.unit.evals += 1
      got = np.asarray(M.decompose_rlwe_ciphertext(jnp.asarray(x), p))
      if got.shape != (kk * lv, NN):
        return dict(function="decompose_rlwe_ciphertext", base_log=b,
                    levels=lv, got_shape=got.shape)
      g = got.astype(np.int32).astype(object).reshape(kk, lv, NN)
      bound = tail_bound(b, total, lv)
      for i in range(kk):
        for j in range(NN):
          ds = [int(d) for d in g[i, :, j]]
          dif = sum(d << (total - (l + 1) * b) for l, d in enumerate(ds)
                    ) - int(x[i, j])
          dif = (dif + (1 << total - 1)) % (1 << total) - (1 << total - 1)
          if any(not -(1 << b - 1) <= d < 1 << b - 1 for d in ds) or (
              bound < 1 << total - 1 and abs(dif) > bound):
            return dict(function="decompose_rlwe_ciphertext", base_log=b,
                        levels=lv, at=[i, j], x=int(x[i, j]), got=ds)
    return None
  u = Unit(f"decompose_rlwe_ciphertext k+1={k1} N={N} base=2^{b} levels={lv}"
           + (f" words of {total} bits" if total != 32 else ""),
           [D + ".decompose_rlwe_ciphertext",
            D + ".signed_decomposition_polynomial_list"],
           prove=prove, concrete=run, cross=2, search=20)
  run.unit = u
  return u


def gadget_unit():
  """gadget_matrix is float host code: exact powers of two, compared exactly."""
  def run(rng, n, hints):
    M = repo(D)
    for b in range(1, 9):
      for lv in range(1, 32 // b + 1):
        for vl in (1, 2, 3):
          run.unit.evals += 1
          p = M.DecompositionParameters(log_base=b, level_count=lv)
          g = np.asarray(M.gadget_matrix(p, vl), np.float64)
          want = np.zeros((vl, vl * lv))
          for i in range(vl):
            for l in range(lv):
              want[i, i * lv + l] = 2.0 ** (-b * (l + 1))
          if g.shape != want.shape or not np.array_equal(g, want):
            return dict(function="gadget_matrix", base_log=b, levels=lv,
                        vector_length=vl)
    # inverse_gadget on exactly representable torus elements in [-1/2, 1/2)
    for _ in range(20):
      total = rng.choice([32, 32, 24, 16])
      b = rng.choice([1, 2, 3, 4, 5, 8])
      lv = rng.randrange(1, total // b + 1)
      p = M.DecompositionParameters(log_base=b, level_count=lv)
      top = min(total, 24)
      v = [rng.choice([-(1 << top - 1), rng.randrange(-(1 << top - 1),
                                                      1 << top - 1)])
           for _ in range(3)]
      run.unit.evals += 1
      got = [int(x) for x in np.asarray(M.inverse_gadget(
          np.array([x / 2.0 ** top for x in v], np.float32), p, total))]
      want = []
      for x in v:
        w = (x << (total - top)) % (1 << total)
        want += [(w >> (total - b * (i + 1))) % (1 << b) for i in range(lv)]
      if got != want:
        return dict(function="inverse_gadget", base_log=b, levels=lv,
                    total_bit_length=total, v=[x / 2.0 ** top for x in v],
                    got=got, want=want)
      G = np.asarray(M.gadget_matrix(p, 3, total), np.float64)
      for i, x in enumerate(v):
        d = (float(np.dot(G[i], np.array(got, np.float64)))
             - x / 2.0 ** top + .5) % 1 - .5
        if not -2.0 ** (-b * lv) < d <= 1e-9:
          return dict(function="gadget of inverse_gadget", base_log=b,
                      levels=lv, total_bit_length=total, entry=x / 2.0 ** top,
                      error=d)
    return None
  u = Unit("gadget_matrix / inverse_gadget", [D + ".gadget_matrix",
                                              D + ".inverse_gadget"],
           concrete=run, cross=1,
           bounded="floating-point host code: every base up to 2^8 and every "
                   "level count, vector length up to 3; inverse_gadget on "
                   "sampled torus elements, compared exactly")
  run.unit = u
  return u


def units(tier):
  cs = combos(tier)
  us = []
  g = 21
  # Spread heavy choices (many digits) evenly.
  cs.sort(key=lambda c: -(c[0] // c[1]) * 40 - c[2])
  for i in range(g):
    sub = cs[i::g]
    run = concrete(sub)
    u = Unit(f"decomposition parameters {i+1}/{g} ({len(sub)} choices)",
             [f"{D}.{f}" for f in ("signed_decomposition", "decompose",
                                   "recompose", "recomposition_summands")],
             prove=prove_group(sub), concrete=run, cross=3, search=400)
    run.unit = u
    us.append(u)
  us.append(rlwe_unit(3, 4, 32, 4, 6))
  us.append(rlwe_unit(2, 3, 32, 8, 4))
  us.append(rlwe_unit(2, 5, 32, 5, 3))
  us += [rlwe_unit(2, 3, 16, 4, 3), rlwe_unit(2, 3, 26, 6, 4),
         rlwe_unit(3, 2, 31, 8, 2)]
  us.append(gadget_unit())
  return us
