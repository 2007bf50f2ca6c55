"""C10: number-theoretic transforms are exact negacyclic evaluations."""

import numpy as np

from vc import ckks, linq, nparr, paths, pysym, ring
from vc.ckks import C, U32, U64, bitrev, primes, rand_res
from vc.harness import Unit, repo
from vc.pysym import val

X64 = True
NT, CPU, RNS, MA = C + "ntt", C + "ntt_cpu", C + "rns", C + "math"


def root(n, q):
  return int(repo(MA + ":root_of_unity")(2 * n, q))


def points(n, q, psi):
  """Evaluation points in output order."""
  bits = n.bit_length() - 1
  return [pow(psi, 2 * bitrev(i, bits) + 1, q) for i in range(n)]


def root_ok(ob, n, q, psi, what):
  ob.true(f"{what}: primitive {2*n}-th root modulo {q}",
          pow(psi, n, q) == q - 1 and 0 < psi < q, str(psi), hard=True)


def spec_eval(c, v, pts, q):
  out = []
  for x in pts:
    out.append(c.total([c.mul(v[i], pow(x, i, q)) for i in range(len(v))]))
  return out


def kernel(qs, r, c, variant="plain"):
  import jax
  k = repo(NT + ":NTTBarrett")()
  if variant == "sliced":
    # constants sliced out of a longer chain, in another order
    extra = primes(29, 2 * r * c, 2)
    extra = [x for x in extra if x not in qs][:1]
    chain = list(reversed(qs)) + extra
    k.precompute_constants(chain, r, c)
    k2 = repo(NT + ":NTTBarrett")()
    k2.constants = k.constants.slice_moduli(
        np.array(list(reversed(range(len(qs))))))
    return k2
  k.precompute_constants(qs, r, c)
  if variant == "pytree":
    leaves, tree = jax.tree_util.tree_flatten(k)
    k = jax.tree_util.tree_unflatten(tree, leaves)
  return k


def ref_ntt(v, qs, inverse=False):
  """v (..., N, M) object ints."""
  v = np.asarray(v, object)
  n = v.shape[-2]
  out = np.zeros_like(v)
  for m, q in enumerate(qs):
    pts = points(n, q, root(n, q))
    if inverse:
      ni = pow(n, -1, q)
      for i in range(n):
        out[..., i, m] = sum(
            v[..., j, m] * pow(pts[j], -i, q) for j in range(n)) * ni % q
    else:
      for i in range(n):
        out[..., i, m] = sum(v[..., j, m] * pow(pts[i], j, q)
                             for j in range(n)) % q
  return out


def barrett_unit(qs, r, c, variant="plain", batch=()):
  n, M = r * c, len(qs)
  shape = batch + (r, c, M)

  def prove(ob):
    k = kernel(qs, r, c, variant)
    for m, q in enumerate(qs):
      root_ok(ob, n, q, root(n, q), "root")
    d = ckks.dom()
    cx = d.c
    v = ckks.residues(d, "v", shape, qs)
    (o,), calls = ckks.run(k.ntt, [(v, U32)], d, ob)
    ob.true("forward shape", o.shape == shape, str(o.shape))
    vf, of = v.reshape(batch + (n, M)), o.reshape(batch + (n, M))
    for b in np.ndindex(*batch):
      for m, q in enumerate(qs):
        w = spec_eval(cx, list(vf[b + (slice(None), m)]),
                      points(n, q, root(n, q)), q)
        for i in range(n):
          ckks.eq_mod(ob, cx, f"forward {b} value {i} limb {m}",
                      of[b + (i, m)], w[i], q)
    (x,), _ = ckks.run(k.intt, [(o, U32)], d, ob)
    ob.true("inverse shape", x.shape == shape, str(x.shape))
    for ix in np.ndindex(*shape):
      ckks.eq_mod(ob, cx, f"inverse of forward {ix}", x[ix], v[ix],
                  qs[ix[-1]])
    d = ckks.dom()
    cx = d.c
    v = ckks.residues(d, "y", shape, qs)
    (x,), _ = ckks.run(k.intt, [(v, U32)], d, ob)
    (o,), _ = ckks.run(k.ntt, [(x, U32)], d, ob)
    for ix in np.ndindex(*shape):
      ckks.eq_mod(ob, cx, f"forward of inverse {ix}", o[ix], v[ix],
                  qs[ix[-1]])

  def run(rng, cnt, hints):
    import jax.numpy as jnp
    k = kernel(qs, r, c, variant)
    for _ in range(cnt):
      v = rand_res(rng, shape, qs)
      run.unit.evals += 1
      run.unit.last_inputs = dict(v=v, moduli=qs, r=r, c=c)
      o = np.asarray(k.ntt(jnp.array(v))).astype(object)
      w = ref_ntt(v.reshape(batch + (n, M)), qs).reshape(shape)
      if (o != w).any():
        return dict(function="NTTBarrett.ntt", v=v, moduli=qs, r=r, c=c,
                    variant=variant, got=o, want=w)
      x = np.asarray(k.intt(jnp.array(v))).astype(object)
      w = ref_ntt(v.reshape(batch + (n, M)), qs, True).reshape(shape)
      if (x != w).any():
        return dict(function="NTTBarrett.intt", v=v, moduli=qs, r=r, c=c,
                    variant=variant, got=x, want=w)
    return None
  u = Unit(f"NTTBarrett {variant} r={r} c={c} batch={batch} moduli {qs}", [
      NT + ".NTTBarrett.precompute_constants", NT + ".NTTBarrett.ntt",
      NT + ".NTTBarrett.intt", NT + ".NTTBarrettConstants.slice_moduli",
      C + "bat_utils.matmul_bat_einsum",
      C + "bat_utils.basis_aligned_transformation",
      MA + ".gen_twiddle_matrix", MA + ".gen_twiddle_matrix_inv",
      MA + ".get_bit_reverse_perm", MA + ".root_of_unity"],
      prove=prove, concrete=run, cross=3, search=100,
      assumes=["barrett.modular_reduction by its contract (C09)"])
  run.unit = u
  return u


def cpu_unit(qs, n):
  M = len(qs)

  def prove(ob):
    T = repo(CPU)
    for q in qs:
      root_ok(ob, n, q, root(n, q), "root")

    def bound(ix):
      return 0, qs[ix[-1]] - 1

    def go(e):
      e.residues = True
      v = nparr.arr(e, "v", (n, M), bound)
      o = T.ntt_negacyclic_poly(v, list(qs))
      x = T.intt_negacyclic_poly(o, list(qs))
      y = nparr.arr(e, "y", (n, M), bound)
      z = T.intt_negacyclic_poly(y, list(qs))
      return v, o, x, y, z
    cache = dict(T._PERM_CACHE)
    try:
      ps = pysym.explore(go, [T], extra=nparr.proxies())
    finally:
      T._PERM_CACHE.clear()
      T._PERM_CACHE.update(cache)
    ob.true("has paths", len(ps) > 0)
    for p in ps:
      ob.true("does not raise", p.raised is None, repr(p.raised))
      if p.raised is not None:
        continue
      v, o, x, y, z = p.result
      c = p.c
      ob.true("shapes", o.shape == x.shape == z.shape == (n, M))
      for m, q in enumerate(qs):
        pts = points(n, q, root(n, q))
        w = spec_eval(c, [val(t) for t in v[:, m]], pts, q)
        ni = pow(n, -1, q)
        for i in range(n):
          ckks.eq_mod(ob, c, f"forward value {i} limb {m}", val(o[i, m]), w[i],
                      q)
          ckks.eq_mod(ob, c, f"inverse of forward {i} limb {m}",
                      val(x[i, m]), val(v[i, m]), q)
          wz = c.total([c.mul(val(y[j, m]), pow(pts[j], -i, q) * ni % q)
                        for j in range(n)])
          ckks.eq_mod(ob, c, f"inverse value {i} limb {m}", val(z[i, m]), wz,
                      q)

  def run(rng, cnt, hints):
    T = repo(CPU)
    for _ in range(cnt):
      v = rand_res(rng, (n, M), qs, np.uint64)
      run.unit.evals += 1
      run.unit.last_inputs = dict(v=v, moduli=qs)
      for f, inv in ((T.ntt_negacyclic_poly, False),
                     (T.intt_negacyclic_poly, True)):
        o = np.asarray(f(v.copy(), list(qs))).astype(object)
        w = ref_ntt(v, qs, inv)
        if o.shape != w.shape or (o != w).any():
          return dict(function=f.__name__, v=v, moduli=qs, got=o, want=w)
    return None
  fn = ["ntt_negacyclic_poly", "intt_negacyclic_poly",
        "ntt_negacyclic_bit_reverse", "intt_negacyclic_bit_reverse",
        "ntt_cyclic_bit_reverse", "intt_cyclic_bit_reverse", "_get_powers",
        "_get_bit_reversal_perm"]
  u = Unit(f"ntt_cpu degree {n} moduli {qs}", [CPU + "." + f for f in fn],
           prove=prove, concrete=run, cross=3, search=100)
  run.unit = u
  return u


def rns_root(T, n, q):
  return int(T._primitive_root(2 * n, q))


def rns_unit(q, n):
  def prove(ob):
    T = repo(RNS)
    k = T.Ntt(n, q)
    psi = rns_root(T, n, q)
    root_ok(ob, n, q, psi, "rns root")

    def go(e):
      e.residues = True
      v = [e.var(f"v{i}", 0, q - 1) for i in range(n)]
      o = list(v)
      k.forward(o)
      x = list(o)
      k.backward(x)
      return v, o, x
    for p in pysym.explore(go, [T]):
      ob.true("does not raise", p.raised is None, repr(p.raised))
      if p.raised is not None:
        continue
      v, o, x = p.result
      c = p.c
      w = spec_eval(c, [val(t) for t in v], points(n, q, psi), q)
      for i in range(n):
        ckks.eq_mod(ob, c, f"forward value {i}", val(o[i]), w[i], q)
        ckks.eq_mod(ob, c, f"backward of forward {i}", val(x[i]), val(v[i]), q)

  def run(rng, cnt, hints):
    T = repo(RNS)
    k = T.Ntt(n, q)
    for _ in range(cnt):
      v = [int(t) for t in rand_res(rng, (n, 1), [q]).ravel()]
      a = [int(t) for t in rand_res(rng, (n, 1), [q]).ravel()]
      run.unit.evals += 1
      run.unit.last_inputs = dict(v=v, q=q)
      # the transform is judged by what it must do: products become pointwise
      fv, fa = list(v), list(a)
      k.forward(fv)
      k.forward(fa)
      bv = list(fv)
      k.backward(bv)
      if bv != v:
        return dict(function="rns.Ntt.backward of forward", v=v, q=q, got=bv)
      pts = sorted(points(n, q, rns_root(T, n, q)))
      ev = sorted(sum(c * pow(x, i, q) for i, c in enumerate(v)) % q
                  for x in pts)
      if sorted(fv) != ev:
        return dict(function="rns.Ntt.forward", v=v, q=q, got=fv, want=ev)
      pr = [x * y % q for x, y in zip(fv, fa)]
      k.backward(pr)
      w = [t % q for t in ring.negacyclic_int(v, a)]
      if pr != w:
        return dict(function="product through rns.Ntt", a=v, b=a, q=q, got=pr,
                    want=w)
    return None
  u = Unit(f"rns.Ntt degree {n} modulus {q}", [
      RNS + ".Ntt.__post_init__", RNS + ".Ntt.forward", RNS + ".Ntt.backward",
      RNS + ".Ntt._iterative_cooley_tukey",
      RNS + ".Ntt._iterative_gentleman_sande", RNS + "._primitive_root",
      RNS + "._mod_exp", C + "rns_utils.bit_reversal_array"],
      prove=prove, concrete=run, cross=5, search=100)
  run.unit = u
  return u


def product_unit(kind, q, n, r=None):
  """inverse(forward(a) * forward(b)) is the negacyclic product."""
  def prove(ob):
    if kind == "barrett":
      k = kernel([q], r, n // r)
      d = ckks.dom()
      c = d.c
      a = ckks.residues(d, "a", (r, n // r, 1), [q])
      b = ckks.residues(d, "b", (r, n // r, 1), [q])
      (fa,), _ = ckks.run(k.ntt, [(a, U32)], d)
      (fb,), _ = ckks.run(k.ntt, [(b, U32)], d)
      pr = np.empty((r, n // r, 1), object)
      for ix in np.ndindex(*pr.shape):
        pr[ix] = c.residue(c.mul(fa[ix], fb[ix]), q)
      (o,), _ = ckks.run(k.intt, [(pr, U32)], d)
      res = [(c, list(a.ravel()), list(b.ravel()), list(o.ravel()))]
    else:
      T = repo(RNS)
      k = T.Ntt(n, q)

      def go(e):
        e.residues = True
        a = [e.var(f"a{i}", 0, q - 1) for i in range(n)]
        b = [e.var(f"b{i}", 0, q - 1) for i in range(n)]
        fa, fb = list(a), list(b)
        k.forward(fa)
        k.forward(fb)
        o = [x * y % q for x, y in zip(fa, fb)]
        k.backward(o)
        return a, b, o
      res = [(p.c,) + tuple([val(t) for t in z] for z in p.result)
             for p in pysym.explore(go, [T])]
    for c, a, b, o in res:
      for i in range(n):
        w = c.total([c.mul(c.mul(a[j], b[(i - j) % n]), 1 if j <= i else -1)
                     for j in range(n)])
        ckks.eq_mod(ob, c, f"coefficient {i}", o[i], w, q)

  def run(rng, cnt, hints):
    import jax.numpy as jnp
    k = kernel([q], r, n // r) if kind == "barrett" else repo(RNS).Ntt(n, q)
    for _ in range(cnt):
      a, b = [[int(t) for t in rand_res(rng, (n, 1), [q]).ravel()]
              for _ in range(2)]
      run.unit.evals += 1
      if kind == "barrett":
        sh = (r, n // r, 1)
        fa, fb = [np.asarray(k.ntt(jnp.array(np.array(x, U32).reshape(sh))))
                  .astype(object) for x in (a, b)]
        o = k.intt(jnp.array((fa * fb % q).astype(U32)))
        o = [int(x) for x in np.asarray(o).ravel()]
      else:
        fa, fb = list(a), list(b)
        k.forward(fa)
        k.forward(fb)
        o = [x * y % q for x, y in zip(fa, fb)]
        k.backward(o)
      w = [t % q for t in ring.negacyclic_int(a, b)]
      if o != w:
        return dict(function=f"product through {kind} transform", a=a, b=b,
                    modulus=q, got=o, want=w)
    return None
  u = Unit(f"negacyclic product through {kind} degree {n} modulus {q}",
           [NT + ".NTTBarrett" if kind == "barrett" else RNS + ".Ntt"],
           prove=prove, concrete=run, cross=5, search=100)
  run.unit = u
  return u


def bat_unit(qs, m, k, n):
  """basis_aligned_transformation + matmul_bat_einsum: an exact matrix product
  modulo each modulus, before reduction."""
  BT = C + "bat_utils"
  M = len(qs)

  def call(lhs, mat):
    T = repo(BT)
    raw = T.basis_aligned_transformation(mat, list(qs))
    return T.matmul_bat_einsum(lhs, raw.transpose(1, 0, 2, 4, 3),
                               "...rcmq,zqrpm->...zcmp")

  def prove(ob):
    d = ckks.dom()
    c = d.c
    lhs = ckks.residues(d, "x", (k, n, M), qs)
    mat = ckks.residues(d, "t", (m, k, M), qs)
    (o,), _ = ckks.run(call, [(lhs, U32), (mat, U64)], d)
    ob.true("shape", o.shape == (m, n, M), str(o.shape))
    for z, j, i in np.ndindex(m, n, M):
      w = c.total([c.mul(mat[z, a, i], lhs[a, j, i]) for a in range(k)])
      ob.zero_mod(f"entry {z},{j} limb {i}", c, c.sub(o[z, j, i], w), qs[i])
      ob.ge(f"entry {z},{j} limb {i}: no overflow", c, k * 1020 * qs[i],
            o[z, j, i])

  def run(rng, cnt, hints):
    import jax.numpy as jnp
    for _ in range(cnt):
      lhs = rand_res(rng, (k, n, M), qs)
      mat = rand_res(rng, (m, k, M), qs, np.uint64)
      run.unit.evals += 1
      o = np.asarray(call(jnp.array(lhs), jnp.array(mat))).astype(object)
      for z, j, i in np.ndindex(m, n, M):
        w = sum(int(mat[z, a, i]) * int(lhs[a, j, i]) for a in range(k))
        if (int(o[z, j, i]) - w) % qs[i]:
          return dict(function="matmul_bat_einsum", lhs=lhs, matrix=mat,
                      moduli=qs, entry=(z, j, i), got=o)
    return None
  u = Unit(f"bat matrix product {m}x{k}x{n} moduli {qs}",
           [BT + ".basis_aligned_transformation", BT + ".matmul_bat_einsum"],
           prove=prove, concrete=run, cross=5, search=200)
  run.unit = u
  return u


def large_unit(qs, r, c):
  """Production-size transforms, evaluated."""
  n, M = r * c, len(qs)

  def run(rng, cnt, hints):
    import jax.numpy as jnp
    k = kernel(qs, r, c)
    T = repo(CPU)
    g = np.random.default_rng(rng.getrandbits(32))
    for it in range(cnt):
      v = np.stack([g.integers(0, q, size=n, dtype=np.uint64) for q in qs], -1)
      if it == 0:
        v[:] = np.array(qs, np.uint64) - np.uint64(1)
      run.unit.evals += 1
      run.unit.last_inputs = dict(moduli=qs, r=r, c=c)
      o = np.asarray(k.ntt(jnp.array(v.astype(U32).reshape(r, c, M)))).reshape(
          n, M).astype(np.uint64)
      oc = np.asarray(T.ntt_negacyclic_poly(v.copy(), list(qs))) if (
          n <= 2048) else o
      ix = sorted(g.choice(n, size=min(n, 48), replace=False))
      for m, q in enumerate(qs):
        psi = root(n, q)
        bits = n.bit_length() - 1
        for i in ix:
          x = pow(psi, 2 * bitrev(int(i), bits) + 1, q)
          acc = 0
          for t in reversed(v[:, m].tolist()):
            acc = (acc * x + t) % q
          for nm, z in (("NTTBarrett.ntt", o), ("ntt_negacyclic_poly", oc)):
            if int(z[i, m]) != acc:
              return dict(function=nm, moduli=qs, r=r, c=c, index=int(i),
                          limb=m, got=int(z[i, m]), want=acc,
                          v=v[:, m].tolist()[:64])
      b = np.asarray(k.intt(jnp.array(o.astype(U32).reshape(r, c, M))))
      if (b.reshape(n, M).astype(np.uint64) != v).any():
        return dict(function="NTTBarrett.intt of ntt", moduli=qs, r=r, c=c)
      if n <= 2048 and (np.asarray(T.intt_negacyclic_poly(oc, list(qs))) !=
                        v).any():
        return dict(function="intt_negacyclic_poly of ntt", moduli=qs)
    return None

  def prove(ob):
    import jax
    import jax.numpy as jnp
    pts = [points(n, q, root(n, q)) for q in qs]
    for q in qs:
      root_ok(ob, n, q, root(n, q), "root")
    k = kernel(qs, r, c)
    sd = jax.ShapeDtypeStruct((r, c, M), U32)
    for nm, f in (("ntt", k.ntt), ("intt", k.intt)):
      linq.stages_linear(ob, f, sd, qs, ckks.valid_barrett, n + len(nm))
    g = np.random.default_rng(n)
    for t in range(4):
      v = np.stack([g.integers(0, q, size=n, dtype=np.uint64) for q in qs], -1)
      w = np.stack([linq.evaluate(v[:, m], pts[m], q)
                    for m, q in enumerate(qs)], -1)
      o = np.asarray(k.ntt(jnp.array(v.astype(U32).reshape(r, c, M))))
      x = np.asarray(k.intt(jnp.array(w.astype(U32).reshape(r, c, M))))
      for name, got, want in (
          ("forward transform is the evaluation at the odd powers", o, w),
          ("inverse transform undoes it", x, v)):
        ob.true(f"point {t}: {name}, all {n} values", np.array_equal(
            got.reshape(n, M).astype(np.uint64), want),
                backend="linear-form identity test")
    # the host transforms, over residues that stay linear forms
    T = repo(CPU)
    for q in qs * 2:
      f = linq.QField(q)
      pt = points(n, q, root(n, q))
      v = g.integers(0, q, size=n, dtype=np.uint64)
      w = linq.evaluate(v, pt, q)
      col = lambda a: linq.qarr(f, [linq.LQ(f, int(t), False, True)
                                    for t in a]).reshape(n, 1)
      with paths.patched(T, "np", linq.QNP(f, np)):
        for nm, fn, a, b in (("ntt", T.ntt_negacyclic_poly, v, w),
                             ("intt", T.intt_negacyclic_poly, w, v)):
          o = fn(col(a), [q])
          o = [t for t in np.asarray(o).ravel()]
          ob.true(f"{nm}_negacyclic_poly modulo {q}: {n} canonical residues",
                  len(o) == n and all(isinstance(t, linq.LQ) and t.canon
                                      for t in o))
          ob.true(f"{nm}_negacyclic_poly modulo {q}: values",
                  [getattr(t, "v", None) for t in o] == [int(t) for t in b],
                  backend="linear-form identity test")
  u = Unit(f"transforms degree {n} r={r} c={c} moduli {qs}", [
      NT + ".NTTBarrett.ntt", NT + ".NTTBarrett.intt",
      CPU + ".ntt_negacyclic_poly", CPU + ".intt_negacyclic_poly"],
      prove=prove, concrete=run, cross=2, search=6,
      assumes=["barrett.modular_reduction by its contract (C09)",
               "two different linear forms agree at the random points tried "
               "(probability below 2^-50)"])
  run.unit = u
  return u


def roots_unit():
  """Number theory behind the tables."""
  def run(rng, cnt, hints):
    T = repo(MA)
    small = [q for q in range(3, 200) if ckks.isprime(q)]
    for n in list(range(2, 400)) + [rng.randrange(2, 1 << 24)
                                    for _ in range(20)]:
      f, k = set(), n
      for p in range(2, int(n ** .5) + 2):
        while k % p == 0:
          f.add(p)
          k //= p
      if k > 1:
        f.add(k)
      run.unit.evals += 1
      if set(T.prime_factors(n)) != f:
        return dict(function="prime_factors", n=n, got=T.prime_factors(n))
    for q in small:
      g = T.find_generator(q)
      if len({pow(g, k, q) for k in range(q - 1)}) != q - 1:
        return dict(function="find_generator", q=q, got=g)
      for m in range(1, q):
        if (q - 1) % m or (m == 1):
          continue
        run.unit.evals += 1
        want = min(x for x in range(1, q) if pow(x, m, q) == 1 and all(
            pow(x, d, q) != 1 for d in range(1, m) if m % d == 0))
        if T.root_of_unity(m, q) != want:
          return dict(function="root_of_unity", m=m, q=q, want=want,
                      got=T.root_of_unity(m, q))
    for r, c in ((1, 1), (1, 7), (5, 3), (16, 16), (128, 64), (256, 512)):
      q = primes(31, 1024, 1)[0]
      w = T.root_of_unity(1024, q)
      run.unit.evals += 1
      for nm, x in (("gen_twiddle_matrix", w),
                    ("gen_twiddle_matrix_inv", pow(w, -1, q))):
        t = np.asarray(getattr(T, nm)(r, c, q, w))
        pw = np.array([pow(x, k, q) for k in range(1024)], np.uint64)
        e = np.outer(np.arange(r), np.arange(c)) % 1024
        if t.shape != (r, c) or (t.astype(np.uint64) != pw[e]).any():
          return dict(function=nm, rows=r, cols=c, q=q, omega=w)
    for n in (1, 2, 8, 4096, 65536):
      if list(T.get_bit_reverse_perm(n)) != [
          bitrev(i, n.bit_length() - 1) for i in range(n)]:
        return dict(function="get_bit_reverse_perm", n=n)
    for n in (4, 64, 1024):
      for q in primes(31, 2 * n, 2) + primes(28, 2 * n, 1):
        r = T.root_of_unity(2 * n, q)
        run.unit.evals += 1
        if pow(r, n, q) != q - 1 or any(pow(r, k, q) < r
                                        for k in range(3, 2 * n, 2)):
          return dict(function="root_of_unity", m=2 * n, q=q, got=r)
    return None
  u = Unit("roots of unity", [MA + ".prime_factors", MA + ".find_generator",
                              MA + ".root_of_unity"], concrete=run, cross=1,
           bounded="all primes below 200 with every order, all n below 400, "
           "sampled larger ones")
  run.unit = u
  return u


def units(tier):
  big = tier == "thorough"
  P = primes
  us = [roots_unit()]
  for r, c in [(1, 2), (2, 1), (2, 2), (2, 4), (4, 2), (1, 8), (8, 1), (4, 4),
               (2, 8), (8, 2)] + [(8, 4), (8, 8), (4, 16), (16, 4)] + (
                   [(16, 16)] if big else []):
    n = r * c
    us.append(barrett_unit([P(31, 2 * n, 1)[0], P(30, 2 * n, 1)[0]], r, c))
  us.append(barrett_unit(P(28, 16, 2) + P(20, 16, 1), 2, 4, "sliced"))
  us.append(barrett_unit(P(31, 16, 2), 4, 2, "pytree"))
  us.append(barrett_unit(P(30, 8, 2), 2, 2, batch=(2,)))
  us.append(barrett_unit([17, 97, 193], 2, 4))
  us.append(barrett_unit([97, 193, 257, 12289], 4, 4))
  us.append(barrett_unit([536903681], 4, 4))
  us.append(barrett_unit([257, 65537], 8, 2))
  for n in [1, 2, 4, 8, 16, 32, 64] + ([128] if big else []):
    us.append(cpu_unit([P(31, 2 * n, 1)[0], P(30, 2 * n, 1)[0]] + (
        [97] if n <= 16 else []), n))
  for n in [2, 4, 8, 16, 32] + ([64] if big else []):
    for q in [P(31, 2 * n, 1)[0], P(60, 2 * n, 1)[0], P(12, 2 * n, 1)[0]]:
      us.append(rns_unit(q, n))
  us.append(rns_unit(97, 16))
  us.append(rns_unit(5, 2))
  for n in (2, 4, 8):
    us.append(product_unit("barrett", P(31, 2 * n, 1)[0], n, 2))
    us.append(product_unit("rns", P(31, 2 * n, 1)[0], n))
  us.append(large_unit(P(31, 2048, 1) + P(28, 2048, 1), 32, 32))
  us.append(large_unit(P(31, 8192, 1), 64, 64))
  us.append(large_unit(P(30, 16384, 1), 128, 64))
  us.append(bat_unit(P(31, 16, 1) + P(20, 16, 1), 2, 2, 2))
  us.append(bat_unit([(1 << 31) - 1, 97], 1, 3, 1))
  return us
