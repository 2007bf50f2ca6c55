"""C16: automorphisms and homomorphic rotation act as specified."""

import itertools
import math

import numpy as np

from vc import ckks
from vc.checks.c15 import obj, np_moduli, same, rlwe_key
from vc.ckks import C, U32, U64, Ints, auto_index, primes, rand_res
from vc.harness import Unit, at_scale, repo

X64 = True
BU, BR, CJ = C + "blind_rotate_utils", C + "blind_rotate", C + "conjugate"
T = C + "types:"


def substitute(c, f, g):
  """Coefficients of f(X^g) modulo X^n + 1."""
  n = len(f)
  o = [0] * n
  for i, x in enumerate(f):
    k = i * g % (2 * n)
    o[k % n] = c.add(o[k % n], x) if k < n else c.sub(o[k % n], x)
  return o


def auto_unit(n, qs, batch=()):
  M = len(qs)

  def prove(ob):
    f = repo(BU + ":apply_automorphism_ntt")
    d = ckks.dom()
    c = d.c
    co = ckks.residues(d, "f", batch + (n, M), qs)
    ev = np.empty(batch + (n, M), object)
    for b in np.ndindex(*batch):
      for m, q in enumerate(qs):
        for i, x in enumerate(ckks.spec_ntt(c, list(co[b][:, m]), q)):
          ev[b + (i, m)] = x
    for g in range(1, 2 * n, 2):
      (o,), _ = ckks.run(lambda v: f(v, g), [(ev, U32)], d, ob)
      ob.true(f"exponent {g}: shape", o.shape == ev.shape)
      for b in np.ndindex(*batch):
        for m, q in enumerate(qs):
          sub = substitute(c, list(co[b][:, m]), g)
          for i, x in enumerate(ckks.points(n, q)):
            ckks.eq_mod(ob, c, f"exponent {g} {b} value {i} limb {m}",
                        o[b + (i, m)], c.total(
                            [c.mul(sub[j], pow(x, j, q)) for j in range(n)]),
                        q)

  def run(rng, cnt, hints):
    import jax.numpy as jnp
    f = repo(BU + ":apply_automorphism_ntt")
    for _ in range(cnt):
      v = rand_res(rng, batch + (n, M), qs)
      g = rng.randrange(1, 2 * n, 2)
      run.unit.evals += 1
      run.unit.last_inputs = dict(data=v, g=g)
      o = obj(f(jnp.array(v), g))
      w = obj(v)[..., auto_index(n, g), :]
      if o.shape != w.shape or (o != w).any():
        return dict(function="apply_automorphism_ntt", data=v, g=g, got=o,
                    want=w)
    return None
  u = Unit(f"automorphism degree {n} moduli {qs} batch {batch}",
           [BU + ".apply_automorphism_ntt"], prove=prove, concrete=run,
           cross=3, search=300)
  run.unit = u
  return u


def perm_unit(n, gs):
  """The permutation does not depend on the data: read it off."""
  def prove(ob):
    import jax.numpy as jnp
    f = repo(BU + ":apply_automorphism_ntt")
    d = jnp.arange(n, dtype=jnp.uint32).reshape(n, 1)
    for g in gs:
      o = np.asarray(f(d, g)).ravel()
      ob.true(f"exponent {g}", o.tolist() == auto_index(n, g), hard=True)
  return Unit(f"automorphism permutation degree {n} ({len(gs)} exponents)",
              [BU + ".apply_automorphism_ntt"], prove=prove)


def lift_unit(qs, ps, r, cc, ci=0, comps=2):
  n, M = r * cc, len(qs)
  al = list(qs) + list(ps)

  def setup():
    N = repo(C + "ntt:NTTBarrett")
    a, b = N(), N()
    a.precompute_constants(list(qs), r, cc)
    b.precompute_constants(list(ps), r, cc)
    k = repo(C + "basis_conversion:BasisConversionBarrett")()
    k.precompute_constants(al, [([0], [M])] * ci + [
        (list(range(M)), list(range(M, len(al))))])
    return a, b, k

  def spec(c, ct):
    o = np.empty((comps, n, len(al)), object)
    for e in range(comps):
      cv = ckks.spec_convert(c, {q: list(ct[e, :, m]) for m, q in
                                 enumerate(qs)}, qs, ps)
      for m, q in enumerate(al):
        o[e, :, m] = ct[e, :, m] if m < M else cv[q]
    return o

  def prove(ob):
    a, b, k = setup()
    d = ckks.dom()
    ct = ckks.residues(d, "ct", (comps, n, M), qs)

    def fn(x):
      import jax.numpy as jnp
      o = repo(BU + ":lift_ciphertext")(
          repo(T + "Ciphertext")(x, jnp.array(qs, jnp.uint32)), k, ci,
          jnp.array(ps, jnp.uint32), a, b, r, cc)
      return o.data, o.moduli
    (o, mo), _ = ckks.run(fn, [(ct, U32)], d, ob)
    ob.true("moduli", [int(t) for t in mo] == al)
    same(ob, d.c, "lifted", o, spec(d.c, ct), al)

  def run(rng, cnt, hints):
    import jax.numpy as jnp
    a, b, k = setup()
    for _ in range(cnt):
      x = rand_res(rng, (comps, n, M), qs)
      run.unit.evals += 1
      run.unit.last_inputs = dict(ct=x)
      o = repo(BU + ":lift_ciphertext")(
          repo(T + "Ciphertext")(jnp.array(x), jnp.array(qs, jnp.uint32)), k,
          ci, jnp.array(ps, jnp.uint32), a, b, r, cc)
      w = spec(Ints, obj(x))
      if np.shape(o.data) != w.shape or (obj(o.data) != w).any():
        return dict(function="lift_ciphertext", ct=x, moduli=qs, special=ps,
                    got=obj(o.data), want=w)
    return None
  u = Unit(f"lift r={r} c={cc} moduli {qs} special {ps} index {ci}",
           [BU + ".lift_ciphertext"], prove=prove, concrete=run, cross=2,
           search=60,
           assumes=["barrett.modular_reduction by its contract (C09)"])
  run.unit = u
  return u


def conj_unit(qs, ps, dnum, r, cc, variant="plain"):
  n, M, K = r * cc, len(qs), len(ps)
  al = list(qs) + list(ps)
  bounds = ckks.part_bounds(M, dnum)

  def setup():
    import jax
    k = repo(CJ + ":Conjugation")()
    k.precompute_constants(list(qs), list(ps), dnum, r, cc)
    if variant == "pytree":
      leaves, tree = jax.tree_util.tree_flatten(k)
      k = jax.tree_util.tree_unflatten(tree, leaves)
    b = repo(C + "basis_conversion:BasisConversionBarrett")()
    b.precompute_constants(al, [(list(range(lo, hi)), [
        j for j in range(len(al)) if not lo <= j < hi]) for lo, hi in bounds])
    rs = repo(C + "rescale:Rescale")()
    rs.precompute_constants(al, K, r, cc)
    return k, b, repo(C + "barrett:precompute_barrett_constants")(al), rs

  def spec(c, ct, a, b):
    ix = auto_index(n, 2 * n - 1)
    ks, dg = ckks.spec_key_switch(c, ct[:, ix, :], a, b, qs, ps, dnum)
    return ckks.spec_rescale(c, ks, al, K)

  def call(k, bc, mk, rs, x, ka, kb, watch=False):
    import jax.numpy as jnp
    keep = ckks.Keep() if watch else lambda o: o
    o = k.conjugate(
        keep(repo(T + "Ciphertext")(x, jnp.array(qs, jnp.uint64))),
        keep(repo(T + "EvaluationKeys")(ka, kb, jnp.array(al, jnp.uint64))),
        jnp.array(ps, jnp.uint64), bc, mk, rs, 0)
    call.changed = keep.changed() if watch else None
    return o

  def prove(ob):
    k, bc, con, rs = setup()
    d = ckks.dom()
    c = d.c
    ct = ckks.residues(d, "ct", (2, n, M), qs)
    a, b = [[ckks.residues(d, f"{t}{i}", (n, len(al)), al, U64)
             for i in range(len(bounds))] for t in "ab"]

    def fn(x, ka, kb):
      o = call(k, bc, ckks.MulContract(con), rs, x, ka, kb)
      return o.data, o.moduli
    (o, mo), _ = ckks.run(fn, [(ct, U32), (np.stack(a), U64),
                               (np.stack(b), U64)], d, ob)
    ob.true("moduli", [int(t) for t in mo] == list(qs))
    same(ob, c, "conjugated", o, spec(c, ct, a, b), qs)

  def run(rng, cnt, hints):
    import jax.numpy as jnp
    k, bc, con, rs = setup()
    mk = repo(C + "mul:MulPlaintextCiphertextBarrett")(con)
    for _ in range(cnt):
      x = rand_res(rng, (2, n, M), qs)
      a, b = [rand_res(rng, (len(bounds), n, len(al)), al, np.uint64)
              for _ in range(2)]
      run.unit.evals += 1
      run.unit.last_inputs = dict(ct=x, a=a, b=b)
      o = call(k, bc, mk, rs, jnp.array(x), jnp.array(a), jnp.array(b), True)
      if call.changed:
        return dict(function="Conjugation.conjugate", ct=x, a=a, b=b,
                    moduli=qs, special=ps, what=call.changed)
      w = spec(Ints, obj(x), obj(a), obj(b))
      if np.shape(o.data) != w.shape or (obj(o.data) != w).any() or [
          int(t) for t in np.asarray(o.moduli)] != list(qs):
        return dict(function="Conjugation.conjugate", ct=x, a=a, b=b,
                    moduli=qs, special=ps, dnum=dnum, got=obj(o.data), want=w)
    return None
  u = Unit(f"conjugate {variant} r={r} c={cc} moduli {qs} special {ps} parts "
           f"{dnum}", [CJ + ".Conjugation.conjugate",
                       C + "key_switching.KeySwitcher.key_switch",
                       C + "rescale.Rescale.rescale"],
           prove=prove, concrete=run, cross=2, search=40,
           assumes=["barrett.modular_reduction by its contract (C09)",
                    "MulPlaintextCiphertextBarrett.mul by its contract (C09)"])
  run.unit = u
  return u


def blind(qs, ps, r, cc, variant="plain"):
  import jax
  k = repo(BR + ":BlindRotation")()
  k.precompute_constants(list(qs), list(ps), 1, r, cc, len(ps))
  if variant == "pytree":
    leaves, tree = jax.tree_util.tree_flatten(k)
    k = jax.tree_util.tree_unflatten(tree, leaves)
  return k


def hmux_sum(c, ct, k0, k1, j, qs, ps):
  """The ciphertext modulo QP before the division by P."""
  n = ct.shape[1]
  al = list(qs) + list(ps)
  ix = auto_index(n, pow(5, -j, 2 * n))
  rot = ct[:, ix, :]
  zero = np.empty_like(rot[0])
  zero[...] = 0
  r0, d0 = ckks.spec_key_switch(c, np.stack([zero, rot[1]]), [k0[1]], [k0[0]],
                                qs, ps, 1)
  r1, d1 = ckks.spec_key_switch(c, np.stack([zero, rot[0]]), [k1[1]], [k1[0]],
                                qs, ps, 1)
  o = np.empty((2, n, len(al)), object)
  for t in np.ndindex(*o.shape):
    o[t] = c.residue(c.add(r0[t], r1[t]), al[t[-1]])
  return o, d0[0], d1[0]


def hmux_unit(qs, ps, r, cc, js, variant="plain"):
  n, M, K = r * cc, len(qs), len(ps)
  al = list(qs) + list(ps)
  P = math.prod(ps)

  def call(k, j, x, k0, k1, watch=False):
    import jax.numpy as jnp
    CT = repo(T + "Ciphertext")
    m = jnp.array(al, jnp.uint64)
    keep = ckks.Keep() if watch else lambda o: o
    o = k.hmuxrot(keep(CT(x, jnp.array(qs, jnp.uint64))),
                  repo(T + "HMuxRotKey")(keep(CT(k0, m)), keep(CT(k1, m))), j,
                  jnp.array(ps, jnp.uint64))
    call.changed = keep.changed() if watch else None
    return o

  def prove(ob):
    k = blind(qs, ps, r, cc, variant)
    k.mul_kernel = ckks.MulContract(k.mul_kernel.barrett_constants)
    for j in js:
      d = ckks.dom()
      c = d.c
      ct = ckks.residues(d, "ct", (2, n, M), qs)
      k0, k1 = [ckks.residues(d, t, (2, n, len(al)), al) for t in "kl"]

      def fn(x, a, b):
        o = call(k, j, x, a, b)
        return o.data, o.moduli
      (o, mo), _ = ckks.run(fn, [(ct, U32), (k0, U32), (k1, U32)], d, ob)
      ob.true(f"rotation {j}: moduli", [int(t) for t in mo] == list(qs))
      w = ckks.spec_rescale(c, hmux_sum(c, ct, k0, k1, j, qs, ps)[0], al, K)
      same(ob, c, f"rotation {j}", o, w, qs)
      # phase, for keys satisfying their equations with control bit beta
      for beta in (0, 1):
        d = ckks.dom()
        c = d.c
        ct = ckks.residues(d, "ct", (2, n, M), qs)
        s = ckks.residues(d, "s", (n, len(al)), al)
        a0, a1, e0, e1 = [ckks.residues(d, t, (n, len(al)), al) for t in
                          ("a", "b", "e", "f")]
        ix = auto_index(n, pow(5, -j, 2 * n))
        b0, b1 = np.empty((n, len(al)), object), np.empty((n, len(al)), object)
        for i in range(n):
          for m, q in enumerate(al):
            t0 = c.mul(s[ix[i], m], beta * P) if m < M else 0
            b0[i, m] = c.residue(c.add(c.sub(e0[i, m], c.mul(
                a0[i, m], s[i, m])), t0), q)
            b1[i, m] = c.residue(c.add(c.sub(e1[i, m], c.mul(
                a1[i, m], s[i, m])), beta * P), q)
        o, d0, d1 = hmux_sum(c, ct, np.stack([b0, a0]), np.stack([b1, a1]), j,
                             qs, ps)
        for i in range(n):
          for m, q in enumerate(al):
            ph = c.add(o[0, i, m], c.mul(o[1, i, m], s[i, m]))
            noise = c.add(c.mul(d0[i, m], e0[i, m]), c.mul(d1[i, m], e1[i, m]))
            want = noise
            if m < M:
              want = c.add(noise, c.mul(beta * P, c.add(
                  ct[0, ix[i], m], c.mul(ct[1, ix[i], m], s[ix[i], m]))))
            ob.zero_mod(f"rotation {j} bit {beta} value {i} limb {m}: phase is "
                        "P beta times the rotated phase plus digit noise", c,
                        c.sub(ph, want), q)

  def run(rng, cnt, hints):
    import jax.numpy as jnp
    k = blind(qs, ps, r, cc, variant)
    for _ in range(cnt):
      x = rand_res(rng, (2, n, M), qs)
      a, b = [rand_res(rng, (2, n, len(al)), al) for _ in range(2)]
      j = rng.choice(js)
      run.unit.evals += 1
      run.unit.last_inputs = dict(ct=x, key0=a, key1=b, j=j)
      o = call(k, j, jnp.array(x), jnp.array(a), jnp.array(b), True)
      if call.changed:
        return dict(function="BlindRotation.hmuxrot", ct=x, key0=a, key1=b,
                    j=j, moduli=qs, special=ps, what=call.changed)
      w = ckks.spec_rescale(Ints, hmux_sum(Ints, obj(x), obj(a), obj(b), j, qs,
                                           ps)[0], al, K)
      if np.shape(o.data) != w.shape or (obj(o.data) != w).any():
        return dict(function="BlindRotation.hmuxrot", ct=x, key0=a, key1=b,
                    j=j, moduli=qs, special=ps, got=obj(o.data), want=w)
    return None
  u = Unit(f"hmuxrot {variant} r={r} c={cc} moduli {qs} special {ps} "
           f"rotations {js}", [BR + ".BlindRotation.hmuxrot",
                               BR + ".BlindRotation.precompute_constants",
                               BU + ".apply_automorphism_ntt",
                               C + "key_switching.KeySwitcher.key_switch",
                               C + "rescale.Rescale.rescale"],
           prove=prove, concrete=run, cross=2, search=40,
           assumes=["barrett.modular_reduction by its contract (C09)",
                    "MulPlaintextCiphertextBarrett.mul by its contract (C09)"])
  run.unit = u
  return u


def mux_unit(qs, n, bits, stride):
  """brot_mux over hmuxrot by contract: each call is a linear marker."""
  M = len(qs)

  def coef(tag, k, j):
    return 3 + 7 * j + 1009 * k + 100003 * tag

  def prove(ob):
    import jax.numpy as jnp
    k = repo(BR + ":BlindRotation")()
    CT = repo(T + "Ciphertext")
    pl = jnp.array([17], jnp.uint64)
    calls = []

    def hm(ct, hmrkey, j, p_limbs, control_index=0):
      tag, kk = hmrkey
      calls.append((tag, kk, int(j), p_limbs is pl, int(control_index)))
      w = (ct.data.astype(jnp.uint64) * coef(tag, kk, int(j))) % jnp.array(
          qs, jnp.uint64)
      return CT(w.astype(jnp.uint32), jnp.array(qs, jnp.uint64))
    k.hmuxrot = hm
    keys = repo(T + "MuxRotationKey")([((0, i), (1, i)) for i in range(bits)])
    d = ckks.dom()
    c = d.c
    x = ckks.residues(d, "x", (2, n, M), qs)

    def fn(v):
      o = k.brot_mux(CT(v, jnp.array(qs, jnp.uint64)), keys, pl, 5, stride)
      return o.data
    (o,), _ = ckks.run(fn, [(x, U32)], d, ob)
    # one call per key, with the right rotation amount
    want = []
    for i in range(bits):
      want += [(0, i, 2**i * stride, True, 5), (1, i, 0, True, 5)]
    ob.true("calls", sorted(calls) == sorted(want), str(calls))
    f = 1
    for i in range(bits):
      f *= coef(0, i, 2**i * stride) + coef(1, i, 0)
    w = np.empty(x.shape, object)
    for t in np.ndindex(*x.shape):
      w[t] = c.mul(x[t], f)
    same(ob, c, "chained", o, w, qs)

  def scripted(rng):
    """The sum of the two branches is canonical, whatever hmuxrot returns."""
    import jax.numpy as jnp
    k = repo(BR + ":BlindRotation")()
    CT = repo(T + "Ciphertext")
    x, y = [rand_res(rng, (2, n, M), qs) for _ in range(2)]
    for t in np.ndindex(2, n, M):
      if rng.random() < .3:
        y[t] = (qs[t[-1]] - int(x[t])) % qs[t[-1]]
    calls = []

    def hm(ct, hmrkey, *a, **kw):
      calls.append(hmrkey)
      return CT(jnp.array((x, y)[hmrkey[0]]), jnp.array(qs, jnp.uint64))
    k.hmuxrot = hm
    keys = repo(T + "MuxRotationKey")([((0, i), (1, i)) for i in range(bits)])
    try:
      o = obj(k.brot_mux(CT(jnp.array(x), jnp.array(qs, jnp.uint64)), keys,
                         jnp.array([17], jnp.uint64), 0, stride).data)
    except (AttributeError, TypeError, KeyError):
      return None
    if sorted(calls) != sorted((t, i) for t in (0, 1) for i in range(bits)):
      return None
    w = (obj(x) + obj(y)) % np.array(qs, object)
    if o.shape != w.shape or (o != w).any():
      return dict(function="BlindRotation.brot_mux", branch0=x, branch1=y,
                  moduli=qs, got=o, want=w,
                  note="hmuxrot replaced by the two recorded branches")
    return None

  ps = primes(31, 2 * n, 4 + M)[M + 1:M + 2]

  def run(rng, cnt, hints):
    # real keys without noise: the result is the rotated plaintext up to
    # rounding
    import jax.numpy as jnp
    if bits > n.bit_length() - 2 and False:
      return None
    kg, rd, en = [repo(C + m) for m in ("key_gen", "random", "encrypt")]
    rr = 2 if n > 2 else 1
    for _ in range(cnt):
      bad = scripted(rng)
      if bad:
        return bad
      src = rd.TestRandomSource(rng.randrange(1 << 30))
      src.gen_gaussian_poly = lambda degree, moduli, sigma=3.19: np.zeros(
          (degree, len(moduli)), np.uint64)
      spec_p = [q for q in primes(31, 2 * n, M + 6) if q not in qs][:M + 1]
      k = blind(qs, spec_p, rr, n // rr)
      pk, sk = kg.keygen(n, list(qs), src)
      secret = [rng.choice((0, 1)) for _ in range(bits)]
      mk = kg.gen_mux_rotation_key(sk, secret, list(qs), spec_p, stride, src)
      Q = math.prod(qs)
      m = [rng.randrange(-(1 << 20), 1 << 20) for _ in range(n)]
      md = np.zeros((n, M), np.uint32)
      for l, q in enumerate(qs):
        md[:, l] = ckks.int_ntt([x % q for x in m], q)
      CT = repo(T + "Ciphertext")
      ct = en.Encrypt(pk).encrypt(repo(T + "Plaintext")(
          jnp.array(md), jnp.array(qs, jnp.uint64)), src)
      run.unit.evals += 1
      run.unit.last_inputs = dict(message=m, bits=secret, stride=stride)
      keep = ckks.Keep()
      o = k.brot_mux(keep(CT(ct.data, jnp.array(qs, jnp.uint64))), mk,
                     jnp.array(spec_p, jnp.uint64), 0, stride)
      if keep.changed():
        return dict(function="BlindRotation.brot_mux", message=m,
                    bits=secret, stride=stride, moduli=qs, special=spec_p,
                    what=keep.changed())
      pt = np.asarray(en.Decrypt(sk).decrypt(CT(o.data, jnp.array(
          qs, jnp.uint64))).data).astype(object)
      amount = sum(b << i for i, b in enumerate(secret)) * stride
      want = substitute(Ints, m, pow(5, -amount, 2 * n))
      for i in range(n):
        v = ckks.crt([pt[i, l] for l in range(M)], qs)
        e = (v - want[i]) % Q
        e = min(e, Q - e)
        if e > (4 * n + 8) * (M + 2) * (bits + 1):
          return dict(function="BlindRotation.brot_mux", message=m,
                      bits=secret, stride=stride, moduli=qs, special=spec_p,
                      coefficient=i, error=e)
    return None
  u = Unit(f"brot_mux degree {n} {bits} bits stride {stride} moduli {qs}",
           [BR + ".BlindRotation.brot_mux"], prove=prove, concrete=run,
           cross=2, search=20,
           assumes=["hmuxrot by its contract (own unit)"])
  run.unit = u
  return u


def cm_unit(qs, ps, r, cc, cols):
  """brot_cm: sum of products, divided by the special modulus."""
  n, K = r * cc, len(ps)
  al = list(qs) + list(ps)

  def spec(c, cts, pts):
    o = np.empty((2, n, len(al)), object)
    for e, i, m in np.ndindex(*o.shape):
      o[e, i, m] = c.residue(c.total([c.mul(cts[k][e, i, m], pts[k][i, m])
                                      for k in range(cols)]), al[m])
    return ckks.spec_rescale(c, o, al, K)

  def call(k, xs, ps_):
    import jax.numpy as jnp
    m = jnp.array(al, jnp.uint64)
    return k.brot_cm([repo(T + "Ciphertext")(x, m) for x in xs],
                     [repo(T + "Plaintext")(p, m) for p in ps_])

  def prove(ob):
    k = blind(qs, ps, r, cc)
    k.mul_kernel = ckks.MulContract(k.mul_kernel.barrett_constants)
    d = ckks.dom()
    c = d.c
    cts = [ckks.residues(d, f"ct{t}", (2, n, len(al)), al)
           for t in range(cols)]
    pts = [ckks.residues(d, f"pt{t}", (n, len(al)), al) for t in range(cols)]

    def fn(*v):
      o = call(k, v[:cols], v[cols:])
      return o.data, o.moduli
    (o, mo), _ = ckks.run(fn, [(x, U32) for x in cts + pts], d, ob)
    ob.true("moduli", [int(t) for t in mo] == list(qs))
    same(ob, c, "column rotation", o, spec(c, cts, pts), qs)

  def run(rng, cnt, hints):
    import jax.numpy as jnp
    k = blind(qs, ps, r, cc)
    for _ in range(cnt):
      cts = [rand_res(rng, (2, n, len(al)), al) for _ in range(cols)]
      pts = [rand_res(rng, (n, len(al)), al) for _ in range(cols)]
      run.unit.evals += 1
      run.unit.last_inputs = dict(cts=cts, pts=pts)
      o = call(k, [jnp.array(x) for x in cts], [jnp.array(x) for x in pts])
      w = spec(Ints, [obj(x) for x in cts], [obj(x) for x in pts])
      if np.shape(o.data) != w.shape or (obj(o.data) != w).any():
        return dict(function="BlindRotation.brot_cm", keys=cts, plain=pts,
                    moduli=qs, special=ps, got=obj(o.data), want=w)
    return None
  u = Unit(f"brot_cm r={r} c={cc} moduli {qs} special {ps} columns {cols}",
           [BR + ".BlindRotation.brot_cm", C + "rescale.Rescale.rescale"],
           prove=prove, concrete=run, cross=2, search=40,
           assumes=["barrett.modular_reduction by its contract (C09)",
                    "MulPlaintextCiphertextBarrett.mul by its contract (C09)"])
  run.unit = u
  return u


def units(tier):
  P = primes(31, 32, 8)
  us = [auto_unit(2, P[:1]), auto_unit(4, P[:2]), auto_unit(8, [97, P[0]]),
        auto_unit(16, P[:1]), auto_unit(4, P[:1], (2,)),
        auto_unit(4, P[:1], (2, 2))]
  for n in (32, 64, 128):
    us.append(perm_unit(n, list(range(1, 2 * n, 2))))
  big = [1, 3, 5, 25, 2 * 65536 - 1, 65537, 65535, 12345, 98765]
  for n in (1024, 8192, 32768, 65536):
    us.append(perm_unit(n, [g % (2 * n) | 1 for g in big]))
  mixed = [P[0], 97]
  us += [lift_unit(P[:2], P[2:3], 2, 2), lift_unit(P[:1], P[1:3], 2, 4),
         lift_unit(mixed, [193, P[1]], 2, 2), lift_unit(P[:2], P[2:4], 1, 2, 1,
                                                       3),
         lift_unit(P[:2], P[2:5], 2, 2), lift_unit(P[:1], P[1:5], 2, 1),
         lift_unit(P[:4], P[4:7], 2, 1)]
  for q, p, dn, r, c in ((P[:1], P[1:2], 1, 2, 2), (P[:2], P[2:3], 2, 2, 2),
                         (P[:2], P[2:4], 1, 2, 2), (P[:3], P[3:5], 2, 2, 1),
                         (mixed, [P[1]], 2, 2, 2), (P[:1], P[1:2], 1, 2, 4)):
    us.append(conj_unit(q, p, dn, r, c))
  us.append(conj_unit(P[:2], P[2:3], 1, 2, 1, "pytree"))
  us += [hmux_unit(P[:1], P[1:2], 2, 2, [0, 1, 2, 3]),
         hmux_unit(P[:2], P[2:3], 2, 2, [0, 1]),
         hmux_unit(P[:2], P[2:4], 2, 2, [1]),
         hmux_unit(P[:2], P[2:5], 2, 1, [0, 1]),
         hmux_unit(mixed, [P[1]], 2, 2, [1]),
         hmux_unit(P[:1], P[1:2], 2, 4, [1, 3]),
         hmux_unit(P[:2], P[2:3], 2, 1, [0, 1], "pytree")]
  for bits in (1, 2, 3):
    for stride in (1, 2):
      us.append(mux_unit(P[:2], 8, bits, stride))
  us += [cm_unit(P[:2], P[2:3], 2, 2, 1), cm_unit(P[:2], P[2:3], 2, 2, 3),
         cm_unit(P[:1], P[1:3], 2, 2, 2), cm_unit(mixed, [P[1]], 2, 2, 4)]
  Q = primes(31, 512, 12)
  us += [at_scale(u) for u in (
      conj_unit(Q[:6], Q[8:], 3, 16, 16),
      hmux_unit(Q[:2], Q[2:4], 16, 16, [0, 5, 77]),
      cm_unit(Q[:2], Q[2:4], 16, 16, 4), auto_unit(1024, primes(31, 2048, 2)),
      mux_unit(Q[:2], 64, 4, 1))]
  return us
