"""C15: tensor product, relinearisation and key switching keep the phase."""

import math

import numpy as np

from vc import ckks
from vc.ckks import C, U32, U64, Ints, primes, rand_res
from vc.harness import Unit, at_scale, repo

X64 = True
MU, KS = C + "mul", C + "key_switching"
T = C + "types:"


def same(ob, c, what, got, want, moduli):
  ob.true(f"{what}: shape", got.shape == want.shape,
          f"{got.shape} {want.shape}")
  if got.shape != want.shape:
    return
  for ix in np.ndindex(*got.shape):
    ckks.eq_mod(ob, c, f"{what} {ix}", got[ix], want[ix], int(moduli[ix[-1]]))


def np_moduli(qs, dt=np.uint64):
  return np.array(qs, dt)


def obj(a):
  a = np.asarray(a)
  o = np.empty(a.shape, object)
  for ix in np.ndindex(*a.shape):
    o[ix] = int(a[ix])
  return o


def mul_kernel(qs, ps, dnum, r, c, variant="plain", comp=1):
  """Mul drops `comp` limbs of its original chain; qs are what it keeps."""
  import jax
  M = repo(MU + ":Mul")
  extra = [q for q in primes(29, 2 * r * c, 4)][:comp]
  orig = list(qs) + extra
  if variant == "injected":
    N, B = repo(C + "ntt:NTTBarrett"), repo(
        C + "basis_conversion:BasisConversionBarrett")
    k = M(bconv=B(), ntt_current=N(), ntt_extend=N(), ntt_factory=N)
  elif variant == "preset":  # injected transforms that served other moduli
    N = repo(C + "ntt:NTTBarrett")

    def used():
      t = N()
      t.precompute_constants(primes(30, 4 * r * c, 4)[1:], r, c)
      return t
    k = M(ntt_current=used(), ntt_extend=used(), ntt_factory=used,
          full_ntt=N())
  elif variant == "full":
    N = repo(C + "ntt:NTTBarrett")()
    N.precompute_constants(list(qs) + list(ps), r, c)
    k = M(full_ntt=N)
  else:
    k = M()
  if variant == "iterator":
    k.precompute_constants(iter(orig), iter(ps), dnum, r, c, comp)
  else:
    k.precompute_constants(orig, list(ps), dnum, r, c, comp)
  if variant == "pytree":
    leaves, tree = jax.tree_util.tree_flatten(k)
    k = jax.tree_util.tree_unflatten(tree, leaves)
  return k


def tensor_spec(c, x, y, qs):
  n, M = x.shape[1:]
  o = np.empty((3, n, M), object)
  for i in range(n):
    for m, q in enumerate(qs):
      o[0, i, m] = c.residue(c.mul(x[0, i, m], y[0, i, m]), q)
      o[1, i, m] = c.residue(c.add(c.mul(x[0, i, m], y[1, i, m]),
                                   c.mul(x[1, i, m], y[0, i, m])), q)
      o[2, i, m] = c.residue(c.mul(x[1, i, m], y[1, i, m]), q)
  return o


def tensor_unit(qs, n):
  M = len(qs)

  def kern():
    k = repo(MU + ":Mul")()
    k.is_initialized = True
    return k

  def prove(ob):
    k, CT = kern(), repo(T + "Ciphertext")
    d = ckks.dom()
    c = d.c
    x = ckks.residues(d, "x", (2, n, M), qs)
    y = ckks.residues(d, "y", (2, n, M), qs)

    def fn(a, b):
      p, t = CT(a, np_moduli(qs)), CT(b, np_moduli(qs))
      o = k.tensor_multiply(p, t)
      ob.true("operands left as they were", p.data is a and t.data is b and
              list(p.moduli) == qs and list(t.moduli) == qs)
      return o.data, o.moduli

    def square(a):
      p = CT(a, np_moduli(qs))
      return k.tensor_multiply(p, p).data
    (o, mo), _ = ckks.run(fn, [(x, U32), (y, U32)], d, ob)
    (sq,), _ = ckks.run(square, [(x, U32)], d, ob)
    same(ob, c, "square of one ciphertext object", sq,
         tensor_spec(c, x, x, qs), qs)
    ob.true("moduli", [int(t) for t in mo] == list(qs))
    same(ob, c, "tensor product", o, tensor_spec(c, x, y, qs), qs)
    # the phase of the product is the product of the phases
    s = ckks.residues(d, "s", (n, M), qs)
    for i in range(n):
      for m, q in enumerate(qs):
        ph = c.total([o[0, i, m], c.mul(o[1, i, m], s[i, m]),
                      c.mul(o[2, i, m], c.mul(s[i, m], s[i, m]))])
        w = c.mul(c.add(x[0, i, m], c.mul(x[1, i, m], s[i, m])),
                  c.add(y[0, i, m], c.mul(y[1, i, m], s[i, m])))
        ob.zero_mod(f"phase {i},{m}", c, c.sub(ph, w), q)

  def run(rng, cnt, hints):
    import jax.numpy as jnp
    k, CT = kern(), repo(T + "Ciphertext")
    for _ in range(cnt):
      x, y = [rand_res(rng, (2, n, M), qs) for _ in range(2)]
      run.unit.evals += 1
      run.unit.last_inputs = dict(x=x, y=y, moduli=qs)
      keep = ckks.Keep()
      p, t = [keep(CT(jnp.array(t), jnp.array(
          qs, rng.choice([jnp.uint32, jnp.uint64])))) for t in (x, y)]
      if rng.randrange(3) == 0:
        y, t = x, p
      o = k.tensor_multiply(p, t)
      if keep.changed():
        return dict(function="Mul.tensor_multiply", x=x, y=y, moduli=qs,
                    what=keep.changed())
      w = tensor_spec(Ints, obj(x), obj(y), qs)
      if np.shape(o.data) != w.shape or (obj(o.data) != w).any():
        return dict(function="Mul.tensor_multiply", x=x, y=y, moduli=qs,
                    got=obj(o.data), want=w)
    return None
  u = Unit(f"tensor product degree {n} moduli {qs}",
           [MU + ".Mul.tensor_multiply"], prove=prove, concrete=run, cross=5,
           search=300)
  run.unit = u
  return u


def relin_spec(c, ct, a, b, qs, ps, dnum):
  al = list(qs) + list(ps)
  M, P = len(qs), math.prod(ps)
  n = ct.shape[1]
  dg = ckks.spec_digits(c, ct[2], qs, ps, dnum)
  o = np.empty((2, n, M), object)
  aux = []
  for k, key in enumerate((b, a)):
    K = ckks.spec_inner(c, dg, key, al)
    cv = ckks.spec_convert(c, {p: [c.residue(K[i, M + j], p) for i in range(n)]
                               for j, p in enumerate(ps)}, ps, qs)
    aux.append((K, cv))
    for i in range(n):
      for m, q in enumerate(qs):
        t = c.mul(c.sub(K[i, m], cv[q][i]), pow(P, -1, q))
        o[k, i, m] = c.residue(c.add(ct[k, i, m], t), q)
  return o, dg, aux


def rlwe_key(d, al, qs, ps, dnum, n, src, s):
  """Symbolic key satisfying its equation: b = e - a s + P src on the part."""
  c = d.c
  P = math.prod(ps)
  bounds = ckks.part_bounds(len(qs), dnum)
  a = [ckks.residues(d, f"a{k}", (n, len(al)), al) for k in range(len(bounds))]
  e = [ckks.residues(d, f"e{k}", (n, len(al)), al) for k in range(len(bounds))]
  b = []
  for k, (lo, hi) in enumerate(bounds):
    t = np.empty((n, len(al)), object)
    for i in range(n):
      for m, q in enumerate(al):
        v = c.sub(e[k][i, m], c.mul(a[k][i, m], s[i, m]))
        if lo <= m < hi:
          v = c.add(v, c.mul(src[i, m], P))
        t[i, m] = c.residue(v, q)
    b.append(t)
  return a, b, e


def relin_unit(qs, ps, dnum, r, cc, variant="plain", comp=1, keydt=U64,
               batch=()):
  n, M = r * cc, len(qs)
  al = list(qs) + list(ps)
  P = math.prod(ps)
  nparts = len(ckks.part_bounds(M, dnum))

  def prove(ob):
    k, CT = mul_kernel(qs, ps, dnum, r, cc, variant, comp), repo(
        T + "Ciphertext")
    EK = repo(MU + ":EvaluationKeys")
    d = ckks.dom()
    c = d.c
    ct = ckks.residues(d, "ct", batch + (3, n, M), qs)
    a = [ckks.residues(d, f"a{i}", (n, len(al)), al, keydt)
         for i in range(nparts)]
    b = [ckks.residues(d, f"b{i}", (n, len(al)), al, keydt)
         for i in range(nparts)]

    def fn(x, ka, kb):
      p = CT(x, np_moduli(qs))
      o = k.relinearize(p, EK(ka, kb, np_moduli(al)))
      ob.true("argument left as it was", p.data is x and list(p.moduli) == qs)
      return o.data, o.moduli
    (o, mo), _ = ckks.run(fn, [(ct, U32), (np.stack(a), keydt),
                               (np.stack(b), keydt)], d, ob)
    ob.true("moduli", [int(t) for t in mo] == list(qs))
    ob.true("shape", o.shape == batch + (2, n, M), str(o.shape))
    for ix in np.ndindex(*batch):
      w = relin_spec(c, ct[ix], a, b, qs, ps, dnum)[0]
      same(ob, c, f"relinearised {ix if ix else ''}".strip(), o[ix], w, qs)
    # consequence for keys satisfying their equation (a fresh context: the
    # values are those of the specification just shown to be the code's)
    d2 = ckks.dom()
    c2 = d2.c
    ct2 = ckks.residues(d2, "ct", (3, n, M), qs)
    s = ckks.residues(d2, "s", (n, len(al)), al)
    s2 = np.empty((n, M), object)
    for ix in np.ndindex(n, M):
      s2[ix] = c2.mul(s[ix], s[ix])
    a2, b2, e2 = rlwe_key(d2, al, qs, ps, dnum, n, s2, s)
    w, dg, aux = relin_spec(c2, ct2, a2, b2, qs, ps, dnum)
    for i in range(n):
      for m, q in enumerate(qs):
        out = c2.mul(P, c2.add(w[0, i, m], c2.mul(w[1, i, m], s[i, m])))
        ph = c2.total([ct2[0, i, m], c2.mul(ct2[1, i, m], s[i, m]),
                       c2.mul(ct2[2, i, m], s2[i, m])])
        noise = c2.total([c2.mul(dg[t][i, m], e2[t][i, m])
                          for t in range(nparts)])
        lift = c2.add(aux[0][1][q][i], c2.mul(aux[1][1][q][i], s[i, m]))
        ob.zero_mod(f"phase {i},{m}: P out = P in + digit noise - lift", c2,
                    c2.total([out, c2.neg(c2.mul(P, ph)), c2.neg(noise),
                              lift]), q)

  def run(rng, cnt, hints):
    import jax.numpy as jnp
    k, CT = mul_kernel(qs, ps, dnum, r, cc, variant, comp), repo(
        T + "Ciphertext")
    EK = repo(MU + ":EvaluationKeys")
    for _ in range(cnt):
      x = rand_res(rng, batch + (3, n, M), qs)
      a, b = [rand_res(rng, (nparts, n, len(al)), al, np.uint64)
              for _ in range(2)]
      run.unit.evals += 1
      run.unit.last_inputs = dict(ct=x, a=a, b=b)
      keep = ckks.Keep()
      o = k.relinearize(keep(CT(jnp.array(x), jnp.array(qs, jnp.uint64))),
                        keep(EK(jnp.array(a.astype(keydt)),
                                jnp.array(b.astype(keydt)),
                                jnp.array(al, jnp.uint64))))
      if keep.changed():
        return dict(function="Mul.relinearize", ct=x, a=a, b=b, moduli=qs,
                    special=ps, dnum=dnum, r=r, c=cc, what=keep.changed())
      w = np.empty(batch + (2, n, M), object)
      for ix in np.ndindex(*batch):
        w[ix] = relin_spec(Ints, obj(x)[ix], obj(a), obj(b), qs, ps, dnum)[0]
      if np.shape(o.data) != w.shape or (obj(o.data) != w).any():
        return dict(function="Mul.relinearize", ct=x, a=a, b=b, moduli=qs,
                    special=ps, dnum=dnum, r=r, c=cc, got=obj(o.data), want=w)
    return None
  u = Unit(f"relinearize {variant} r={r} c={cc} moduli {qs} special {ps} "
           f"parts {dnum} dropped {comp} {np.dtype(keydt)}" + (
               f" batch {batch}" if batch else ""), [
               MU + ".Mul.precompute_constants",
               MU + ".Mul.compute_control_indices", MU + ".Mul.relinearize",
               C + "basis_conversion.BasisConversionBarrett.basis_change",
               C + "ntt.NTTBarrett.ntt", C + "ntt.NTTBarrett.intt"],
           prove=prove, concrete=run, cross=2, search=40,
           assumes=["barrett.modular_reduction by its contract (C09)"])
  run.unit = u
  return u


def switch_unit(qs, ps, dnum, r, cc, variant="plain", start=0, keydt=U64,
                pdt=np.uint64):
  n, M = r * cc, len(qs)
  al = list(qs) + list(ps)
  P = math.prod(ps)
  bounds = ckks.part_bounds(M, dnum)

  def setup():
    import jax
    k = repo(KS + ":KeySwitcher")()
    if variant == "again":
      k.precompute_constants(list(reversed(qs)), list(ps), 1, r, cc)
    k.precompute_constants(list(qs), list(ps), dnum, r, cc)
    if variant == "pytree":
      leaves, tree = jax.tree_util.tree_flatten(k)
      k = jax.tree_util.tree_unflatten(tree, leaves)
    b = repo(C + "basis_conversion:BasisConversionBarrett")()
    pairs = [([0], [len(al) - 1])] * start
    for lo, hi in bounds:
      pairs.append((list(range(lo, hi)),
                    [j for j in range(len(al)) if not lo <= j < hi]))
    b.precompute_constants(al, pairs)
    return k, b, repo(C + "barrett:precompute_barrett_constants")(al)

  def prove(ob):
    k, bc, con = setup()
    CT, EK = repo(T + "Ciphertext"), repo(T + "EvaluationKeys")
    d = ckks.dom()
    c = d.c
    ct = ckks.residues(d, "ct", (2, n, M), qs)
    a = [ckks.residues(d, f"a{i}", (n, len(al)), al, keydt) for i in
         range(len(bounds))]
    b = [ckks.residues(d, f"b{i}", (n, len(al)), al, keydt) for i in
         range(len(bounds))]

    def fn(x, ka, kb):
      import jax.numpy as jnp
      p, mq = CT(x, jnp.array(qs, pdt)), jnp.array(qs, pdt)
      p.moduli = mq
      o = k.key_switch(p, EK(ka, kb, np_moduli(al)),
                       jnp.array(ps, pdt), bc, ckks.MulContract(con), start)
      ob.true("argument left as it was", p.data is x and p.moduli is mq)
      return o.data, o.moduli
    (o, mo), _ = ckks.run(fn, [(ct, U32), (np.stack(a), keydt),
                               (np.stack(b), keydt)], d, ob)
    ob.true("moduli", [int(t) for t in mo] == al)
    w, dg = ckks.spec_key_switch(c, ct, a, b, qs, ps, dnum)
    same(ob, c, "switched", o, w, al)
    d2 = ckks.dom()
    c2 = d2.c
    ct2 = ckks.residues(d2, "ct", (2, n, M), qs)
    s = ckks.residues(d2, "s", (n, len(al)), al)
    src = ckks.residues(d2, "src", (n, M), qs)
    a2, b2, e2 = rlwe_key(d2, al, qs, ps, dnum, n, src, s)
    w, dg = ckks.spec_key_switch(c2, ct2, a2, b2, qs, ps, dnum)
    for i in range(n):
      for m, q in enumerate(al):
        out = c2.add(w[0, i, m], c2.mul(w[1, i, m], s[i, m]))
        ph = c2.add(ct2[0, i, m], c2.mul(ct2[1, i, m], src[i, m])) if (
            m < M) else 0
        noise = c2.total([c2.mul(dg[t][i, m], e2[t][i, m])
                          for t in range(len(bounds))])
        ob.zero_mod(f"phase {i},{m}: out = P in + digit noise", c2, c2.total(
            [out, c2.neg(c2.mul(P, ph)), c2.neg(noise)]), q)

  def run(rng, cnt, hints):
    import jax.numpy as jnp
    k, bc, con = setup()
    CT, EK = repo(T + "Ciphertext"), repo(T + "EvaluationKeys")
    mk = repo(MU + ":MulPlaintextCiphertextBarrett")(con)
    for _ in range(cnt):
      x = rand_res(rng, (2, n, M), qs)
      a, b = [rand_res(rng, (len(bounds), n, len(al)), al, np.uint64)
              for _ in range(2)]
      run.unit.evals += 1
      run.unit.last_inputs = dict(ct=x, a=a, b=b)
      keep = ckks.Keep()
      o = k.key_switch(keep(CT(jnp.array(x), jnp.array(qs, pdt))), keep(EK(
          jnp.array(a.astype(keydt)), jnp.array(b.astype(keydt)),
          jnp.array(al, jnp.uint64))), jnp.array(ps, pdt), bc, mk, start)
      if keep.changed():
        return dict(function="KeySwitcher.key_switch", ct=x, a=a, b=b,
                    moduli=qs, special=ps, dnum=dnum, what=keep.changed())
      w = ckks.spec_key_switch(Ints, obj(x), obj(a), obj(b), qs, ps, dnum)[0]
      if np.shape(o.data) != w.shape or (obj(o.data) != w).any():
        return dict(function="KeySwitcher.key_switch", ct=x, a=a, b=b,
                    moduli=qs, special=ps, dnum=dnum, got=obj(o.data), want=w)
    return None
  u = Unit(f"key switch {variant} r={r} c={cc} moduli {qs} special {ps} parts "
           f"{dnum} start {start} {np.dtype(keydt)} {np.dtype(pdt)}", [
               KS + ".KeySwitcher.precompute_constants",
               KS + ".KeySwitcher.key_switch",
               C + "basis_conversion.BasisConversionBarrett.basis_change",
               C + "ntt.NTTBarrett.ntt", C + "ntt.NTTBarrett.intt"],
           prove=prove, concrete=run, cross=2, search=40,
           assumes=["barrett.modular_reduction by its contract (C09)",
                    "MulPlaintextCiphertextBarrett.mul by its contract (C09)"])
  run.unit = u
  return u


def indices_unit():
  """compute_control_indices partitions the limbs for every shape."""
  def prove(ob):
    f = repo(MU + ":Mul").compute_control_indices
    for M in range(1, 9):
      for K in range(1, 4):
        for dnum in range(1, M + 1):
          o = f(list(range(M)), list(range(K)), dnum)
          w = [[list(range(M, M + K)), list(range(M))]]
          for lo, hi in ckks.part_bounds(M, dnum):
            w.append([list(range(lo, hi)),
                      [j for j in range(M + K) if not lo <= j < hi]])
          ob.true(f"{M} limbs {K} special {dnum} parts",
                  [[list(a), list(b)] for a, b in o] == w, str(o))
  return Unit("control indices", [MU + ".Mul.compute_control_indices"],
              prove=prove)


def units(tier):
  P = primes(31, 16, 9)
  us = []
  for qs, n in ((P[:1], 4), (P[:3], 2), ([P[0], 97, 193], 4),
                (primes(31, 16, 2, 1 << 31), 8)):
    us.append(tensor_unit(qs, n))
  us.append(indices_unit())
  mixed = [P[0], 97, primes(20, 16, 1)[0]]
  cfg = [(P[:1], P[1:2], 1, 2, 2), (P[:2], P[2:3], 1, 2, 2),
         (P[:2], P[2:3], 2, 2, 2), (P[:3], P[3:5], 2, 2, 2),
         (P[:3], P[3:4], 3, 2, 1), (P[:3], P[3:6], 1, 1, 2),
         (mixed, [P[1], 193], 2, 2, 2), ([97, 193], [257], 1, 2, 4),
         (P[:4], P[4:6], 2, 2, 1)]
  for q, p, dn, r, c in cfg:
    us.append(relin_unit(q, p, dn, r, c))
    us.append(switch_unit(q, p, dn, r, c))
  for v in ("pytree", "injected", "full", "iterator", "preset"):
    us.append(relin_unit(P[:3], P[3:4], 2, 2, 1, v))
  us.append(relin_unit(P[:3], P[3:4], 2, 2, 1, "plain", 2))
  us.append(relin_unit(P[:2], P[2:3], 2, 2, 1, "plain", 1, U32))
  us.append(relin_unit(P[:5], P[5:6], 4, 2, 1))
  us.append(relin_unit(P[:2], P[2:3], 2, 2, 1, batch=(2,)))
  us.append(relin_unit(P[:2], P[2:4], 1, 2, 1, batch=(2, 2)))
  us.append(relin_unit(P[:3], P[3:4], 2, 2, 1, "pytree", 2))
  us.append(relin_unit(P[:3], P[3:4], 2, 2, 1, "pytree", 3))
  R = primes(31, 16, 12)
  for dn in (5, 6, 8):
    us.append(relin_unit(R[:dn], R[dn:dn + 1], dn, 2, 1))
    us.append(switch_unit(R[:dn], R[dn:dn + 1], dn, 2, 1))
  us.append(switch_unit(P[:3], P[3:4], 2, 2, 1, "pytree"))
  us.append(switch_unit(P[:3], P[3:4], 2, 2, 1, "again"))
  us.append(switch_unit(P[:2], P[2:4], 2, 2, 1, start=1))
  us.append(switch_unit(P[:2], P[2:4], 2, 2, 1, keydt=U32, pdt=np.uint32))
  if tier == "thorough":
    us.append(relin_unit(primes(31, 32, 6)[:4], primes(31, 32, 6)[4:], 2, 4, 4))
    us.append(switch_unit(primes(31, 32, 6)[:4], primes(31, 32, 6)[4:], 2, 4,
                          4))
  Q = primes(31, 512, 12)
  us += [at_scale(tensor_unit(primes(31, 2048, 6), 1024)),
         at_scale(relin_unit(Q[:8], Q[8:], 4, 16, 16)),
         at_scale(switch_unit(Q[:8], Q[8:], 4, 16, 16))]
  return us
