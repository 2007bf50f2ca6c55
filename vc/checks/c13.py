"""C13: rescaling divides by the dropped modulus, rounded to nearest."""

import numpy as np

from vc import ckks
from vc.ckks import C, U32, primes, rand_res
from vc.harness import Unit, at_scale, repo

X64 = True
RS = C + "rescale"


def kernel(qs, num, r, c, variant):
  import jax
  k = repo(RS + ":Rescale")()
  if variant == "again":
    k.precompute_constants(list(reversed(qs)), 1, r, c)
  k.precompute_constants(iter(qs) if variant == "iterator" else list(qs), num,
                         r, c)
  if variant == "pytree":
    leaves, tree = jax.tree_util.tree_flatten(k)
    k = jax.tree_util.tree_unflatten(tree, leaves)
  return k


def unit(qs, num, r, c, comps=2, variant="plain"):
  n, M = r * c, len(qs)
  shape = (comps, n, M)

  def call(k, data):
    T = repo(C + "types:Ciphertext")
    ct = T(data=data, moduli=np.array(qs, np.uint64))
    k.rescale(ct)
    return ct

  def prove(ob):
    k = kernel(qs, num, r, c, variant)
    d = ckks.dom()
    cx = d.c
    y = ckks.residues(d, "y", shape, qs)

    def fn(data):
      ct = call(k, data)
      return ct.data, ct.moduli
    (o, mo), _ = ckks.run(fn, [(y, U32)], d, ob)
    left = qs[:M - num]
    ob.true("remaining moduli", [int(x) for x in mo] == left, str(mo))
    ob.true("shape", o.shape == (comps, n, len(left)), str(o.shape))
    for e in range(comps):
      cur = {m: list(y[e, :, m]) for m in range(M)}
      for it in range(num):
        L = M - 1 - it
        qL = qs[L]
        last = ckks.spec_intt(cx, cur[L], qL)
        # nearest multiple: the representative in (-qL/2, qL/2)
        cen = [cx.sub(x, cx.mul(qL, cx.le((qL + 1) // 2, x))) for x in last]
        for m in range(L):
          q = qs[m]
          ev = [cx.total([cx.mul(cen[i], pow(x, i, q)) for i in range(n)])
                for x in ckks.points(n, q)]
          inv = pow(qL, -1, q)
          cur[m] = [cx.residue(cx.mul(cx.sub(cur[m][i], ev[i]), inv), q)
                    for i in range(n)]
      for m in range(len(left)):
        for i in range(n):
          ckks.eq_mod(ob, cx, f"component {e} value {i} limb {m}", o[e, i, m],
                      cur[m][i], qs[m])

  def run(rng, cnt, hints):
    import jax.numpy as jnp
    k = kernel(qs, num, r, c, variant)
    Q = 1
    for q in qs:
      Q *= q
    for _ in range(cnt):
      # coefficients near rounding boundaries as well as random ones
      div = 1
      for q in qs[M - num:]:
        div *= q
      co = []
      for e in range(comps):
        row = []
        for i in range(n):
          x = rng.randrange(Q)
          b = rng.randrange(5)
          if b == 1:
            x = x // div * div + div // 2 + rng.choice([0, 1])
          elif b == 2:
            x = x // div * div - rng.choice([0, 1])
          elif b == 3:
            x = rng.choice([0, Q - 1, Q // 2])
          elif b == 4:
            qL = qs[-1]
            x = x // qL * qL + qL // 2 + rng.choice([0, 1])
          row.append(x % Q)
        co.append(row)
      y = np.zeros(shape, U32)
      for e in range(comps):
        for m, q in enumerate(qs):
          y[e, :, m] = ckks.int_ntt([x % q for x in co[e]], q)
      run.unit.evals += 1
      run.unit.last_inputs = dict(coefficients=co, moduli=qs, rescales=num)
      ct = call(k, jnp.array(y))
      o = np.asarray(ct.data).astype(object)
      left = qs[:M - num]
      if [int(x) for x in np.asarray(ct.moduli)] != left:
        return dict(function="Rescale.rescale", moduli=qs, got_moduli=str(
            ct.moduli))
      w = np.zeros((comps, n, len(left)), object)
      for e in range(comps):
        v = list(co[e])
        for it in range(num):
          qL = qs[M - 1 - it]
          v = [(x + qL // 2) // qL for x in v]
        for m, q in enumerate(left):
          w[e, :, m] = ckks.int_ntt([x % q for x in v], q)
      if o.shape != w.shape or (o != w).any():
        return dict(function="Rescale.rescale", coefficients=co, moduli=qs,
                    rescales=num, got=o, want=w)
    return None
  u = Unit(f"rescale by {num} {variant} r={r} c={c} components {comps} moduli "
           f"{qs}", [RS + ".Rescale.precompute_constants",
                     RS + ".Rescale.rescale", RS + "._gamma_beta_calculation",
                     C + "ntt.NTTBarrett.ntt", C + "ntt.NTTBarrett.intt",
                     C + "ntt.NTTBarrettConstants.slice_moduli"],
           prove=prove, concrete=run, cross=3, search=150,
           assumes=["barrett.modular_reduction by its contract (C09)"])
  run.unit = u
  return u


def units(tier):
  P31, P28, P20 = primes(31, 16, 4), primes(28, 16, 3), primes(20, 16, 2)
  us = [
      unit(P31[:2], 1, 2, 2), unit(P31[:3], 1, 2, 2),
      unit(P31[:3], 2, 2, 2), unit(P31[:4], 3, 2, 2, 1),
      unit([P31[0]] + P28, 1, 2, 4), unit([P31[0]] + P28, 2, 4, 2, 3),
      # the dropped modulus is the largest by far
      unit([P20[0], P28[0], P31[0]], 1, 2, 2),
      unit([97, 193, P31[0], P20[0]], 2, 2, 2),
      unit([P20[0], 97, 257, P31[0]], 3, 2, 2, 1),
      unit([97, 193, 257], 1, 4, 4, 1), unit([97, 193, 257], 2, 4, 4, 1),
      unit([P31[0], 97], 1, 2, 2), unit([97, P31[0]], 1, 2, 2),
      unit(P31[:3], 2, 2, 2, 2, "pytree"), unit(P31[:3], 1, 2, 2, 2, "again"),
      unit(P31[:3], 2, 1, 4, 2, "iterator"), unit(P31[:3], 1, 4, 1, 1),
  ]
  if tier == "thorough":
    us += [unit(primes(31, 64, 4), 2, 4, 8), unit(primes(28, 64, 5), 3, 8, 4)]
  us += [at_scale(unit(primes(28, 512, 12), 2, 16, 16)),
         at_scale(unit(primes(31, 512, 6), 1, 8, 32, 1))]
  return us
