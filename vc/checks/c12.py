"""C12: basis conversion returns the CRT lift up to a small multiple."""

import math

import numpy as np

from vc import ckks
from vc.ckks import C, U32, U64, primes, rand_res
from vc.harness import Unit, at_scale, repo

X64 = True
BC, RU = C + "basis_conversion", C + "rns_utils"


def converter(chain, controls, variant="plain"):
  import jax
  k = repo(BC + ":BasisConversionBarrett")()
  if variant == "again":
    # constants of an earlier set-up must not survive
    k.precompute_constants(list(reversed(chain)), [([0], [1]), ([1], [0])])
  if variant == "iterators":
    k.precompute_constants(iter(chain), iter(
        [(tuple(a), tuple(b)) for a, b in controls]))
  else:
    k.precompute_constants(list(chain), [(list(a), list(b))
                                         for a, b in controls])
  if variant == "pytree":
    leaves, tree = jax.tree_util.tree_flatten(k)
    k = jax.tree_util.tree_unflatten(tree, leaves)
  return k


def unit(chain, controls, variant="plain", batch=(2,), dtype=U32,
         default=False):
  def prove(ob):
    k = converter(chain, controls, variant)
    for ci, (src, dst) in enumerate(controls):
      if default and ci:
        continue
      qs, ps = [chain[i] for i in src], [chain[i] for i in dst]
      Q = math.prod(qs)
      d = ckks.dom()
      c = d.c
      x = ckks.residues(d, "x", batch + (len(qs),), qs, dtype)
      f = (lambda v: k.basis_change(v)) if default else (
          lambda v: k.basis_change(v, control_index=ci))
      (o,), calls = ckks.run(f, [(x, dtype)], d, ob)
      t = f"conversion {ci}"
      ob.true(f"{t}: shape", o.shape == batch + (len(ps),), str(o.shape))
      for b in np.ndindex(*batch):
        terms = []
        for i, q in enumerate(qs):
          hat = Q // q
          terms.append(c.mul(c.residue(c.mul(x[b + (i,)], pow(hat, -1, q)), q),
                             hat))
        lift = c.total(terms)
        ob.ge(f"{t} {b}: lift not negative", c, lift, 0)
        ob.ge(f"{t} {b}: lift below {len(qs)} source moduli", c,
              len(qs) * Q - 1, lift)
        for i, q in enumerate(qs):
          ob.zero_mod(f"{t} {b}: lift represents the input modulo {q}", c,
                      c.sub(lift, x[b + (i,)]), q)
        for j, p in enumerate(ps):
          ckks.eq_mod(ob, c, f"{t} {b} target {p}", o[b + (j,)], lift, p)

  def run(rng, cnt, hints):
    import jax.numpy as jnp
    k = converter(chain, controls, variant)
    for _ in range(cnt):
      ci = 0 if default else rng.randrange(len(controls))
      src, dst = controls[ci]
      qs, ps = [chain[i] for i in src], [chain[i] for i in dst]
      Q = math.prod(qs)
      x = rand_res(rng, batch + (len(qs),), qs)
      run.unit.evals += 1
      run.unit.last_inputs = dict(x=x, chain=chain, control=controls[ci])
      a = jnp.array(x.astype(dtype))
      o = k.basis_change(a) if default else k.basis_change(a, control_index=ci)
      o = np.asarray(o).astype(object)
      w = np.zeros(batch + (len(ps),), object)
      for b in np.ndindex(*batch):
        lift = sum(int(x[b + (i,)]) * pow(Q // q, -1, q) % q * (Q // q)
                   for i, q in enumerate(qs))
        for j, p in enumerate(ps):
          w[b + (j,)] = lift % p
      if o.shape != w.shape or (o != w).any():
        return dict(function="BasisConversionBarrett.basis_change", x=x,
                    source=qs, target=ps, control_index=ci, got=o, want=w)
    return None
  u = Unit(f"basis change {variant} {np.dtype(dtype)} chain {chain} "
           f"{controls} batch {batch}" + (" default" if default else ""), [
               BC + ".BasisConversionBarrett.precompute_constants",
               BC + ".BasisConversionBarrett.basis_change",
               RU + ".compute_q_hat_inv_mod_q", RU + ".compute_q_hat_mod_p",
               C + "bat_utils.matmul_bat_einsum",
               C + "bat_utils.basis_aligned_transformation",
               C + "barrett.precompute_barrett_constants"],
           prove=prove, concrete=run, cross=4, search=300,
           assumes=["barrett.modular_reduction by its contract (C09)"])
  run.unit = u
  return u


def units(tier):
  P31, P20 = primes(31, 16, 10), primes(20, 16, 4)
  small = [97, 193, 257, 353, 449, 577]
  mixed = [P31[0], 97, P20[0], P31[1], 193, primes(28, 16, 1)[0]]
  us = []
  for chain in (P31[:6], small, mixed):
    us.append(unit(chain, [([0, 1], [2, 3]), ([0, 1, 2], [3, 4, 5]),
                           ([5], [0, 1, 2, 3, 4]), ([4, 2], [0, 5, 1]),
                           ([0, 1, 2, 3, 4], [5])]))
  us.append(unit(P31[:4], [([0], [1]), ([1, 2], [3, 0])], "pytree"))
  us.append(unit(P31[:4], [([0, 3], [1]), ([1, 2], [3, 0])], "again"))
  us.append(unit(P31[:4], [([0, 3], [1]), ([1, 2], [3, 0])], "iterators"))
  us.append(unit(P31[:4], [([3, 1], [0, 2]), ([0], [1, 2, 3])], default=True))
  us.append(unit(P31[:3], [([0, 1], [2]), ([2], [0, 1])], batch=()))
  us.append(unit(P31[:3], [([0, 1], [2]), ([2], [0, 1])], batch=(2, 1, 2)))
  us.append(unit(P31[:3], [([0, 1], [2]), ([2], [0, 1])], dtype=U64))
  us.append(unit(P31[:10], [([0, 1, 2, 3, 4, 5, 6, 7], [8, 9]),
                            ([8, 9], [0, 1, 2, 3, 4, 5, 6, 7])], batch=(1,)))
  P = primes(31, 16, 34) if tier == "thorough" else primes(31, 16, 18)
  n = len(P) - 2
  us.append(unit(P, [(list(range(n)), [n, n + 1]),
                     ([n, n + 1], list(range(n)))], batch=(1,)))
  P = primes(31, 16, 40)
  us.append(at_scale(unit(P, [(list(range(30)), list(range(30, 40)))],
                          batch=(4,)), 3))
  return us
