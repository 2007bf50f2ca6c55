"""C14: CKKS keys and ciphertexts satisfy their RLWE equations exactly."""

import itertools
import math

import numpy as np

from vc import ckks, nparr, paths, pysym, ring
from vc.ckks import C, primes
from vc.harness import Unit, at_scale, repo
from vc.nparr import SymArr
from vc.pysym import S, val

X64 = True
KG, EN, RA, CPU, BU = [C + m for m in ("key_gen", "encrypt", "random",
                                       "ntt_cpu", "blind_rotate_utils")]
U64 = np.uint64


def explore(fn, limit=64):
  import jax.numpy as jnp
  T = repo(CPU)
  cache = dict(T._PERM_CACHE)
  try:
    return pysym.explore(fn, [repo(m) for m in (KG, EN, RA, CPU, BU)],
                         limit=limit, extra=nparr.proxies(jnp))
  finally:
    T._PERM_CACHE.clear()
    T._PERM_CACHE.update(cache)


def good(ob, ps, what):
  ob.true(f"{what}: has paths", len(ps) > 0)
  out = []
  for p in ps:
    ob.true(f"{what}: does not raise", p.raised is None, repr(p.raised))
    if p.raised is None:
      out.append(p)
  return out


def limbs(e, name, n, qs, dtype=U64):
  return nparr.arr(e, name, (n, len(qs)), lambda ix: (0, qs[ix[1]] - 1), dtype)


def vv(a):
  """Object array of poly values."""
  a = np.asarray(a.view(np.ndarray) if isinstance(a, SymArr) else a, object)
  o = np.empty(a.shape, object)
  for ix in np.ndindex(*a.shape):
    o[ix] = val(a[ix])
  return o


def source(e):
  """A random source whose every draw is symbolic, limb by limb."""
  base = repo(RA + ":RandomSource")

  class Src(base):
    def __init__(self):
      self.log = []

    def draw(self, kind, degree, moduli):
      moduli = [int(q) for q in moduli]
      x = limbs(e, f"{kind}{len(self.log)}", degree, moduli)
      self.log.append((kind, vv(x), moduli))
      return x

    def gen_gaussian_poly(self, degree, moduli, sigma=3.19):
      return self.draw("gauss", degree, moduli)

    def gen_uniform_poly(self, degree, moduli):
      return self.draw("uniform", degree, moduli)

    def gen_ternary_poly(self, degree, moduli):
      return self.draw("ternary", degree, moduli)

    def gen_sparse_binary(self, degree, weight, moduli):
      self.weight = weight
      return self.draw("sparse", degree, moduli)

    def of(self, *kinds):
      return [x for x in self.log if x[0] in kinds]
  return Src()


def same_mod(c, a, b, q):
  return not c.modnorm(c.poly(c.sub(a, b)), q).t


def spec_slots(c, v, qs):
  """Coefficient draws (n, M) -> evaluation values (not reduced)."""
  n, M = v.shape
  o = np.empty((n, M), object)
  for m, q in enumerate(qs):
    for i, x in enumerate(ckks.points(n, q)):
      o[i, m] = c.total([c.mul(v[j, m], pow(x, j, q)) for j in range(n)])
  return o


def match(ob, c, what, got, draws, qs, used):
  """got is the evaluation form of one of the draws not used before."""
  n, M = got.shape
  for k, (kind, v, mods) in enumerate(draws):
    if k in used or mods != list(qs):
      continue
    w = spec_slots(c, v, qs)
    if all(same_mod(c, got[i, m], w[i, m], qs[m]) for i in range(n)
           for m in range(M)):
      used.add(k)
      ob.true(f"{what}: is a fresh draw in evaluation form", True)
      return w
  ob.undecided(f"{what}: is a fresh draw in evaluation form",
               "no draw matches")
  return None


def rlwe(ob, c, what, b, a, s, msg, qs, errs, used):
  """b + a s - msg is the evaluation form of an unused error draw."""
  n, M = b.shape
  d = np.empty((n, M), object)
  for i in range(n):
    for m, q in enumerate(qs):
      ob.ge(f"{what} {i},{m}: not negative", c, b[i, m], 0)
      ob.ge(f"{what} {i},{m}: canonical", c, q - 1, b[i, m])
      d[i, m] = c.sub(c.add(b[i, m], c.mul(a[i, m], s[i, m])), msg[i, m])
  for k, (kind, v, mods) in enumerate(errs):
    if k in used or mods != list(qs):
      continue
    w = spec_slots(c, v, qs)
    if all(same_mod(c, d[i, m], w[i, m], qs[m]) for i in range(n)
           for m in range(M)):
      used.add(k)
      for i in range(n):
        for m, q in enumerate(qs):
          ob.zero_mod(f"{what}: equation at value {i} limb {m}", c,
                      c.sub(d[i, m], w[i, m]), q)
      return True
  ob.undecided(f"{what}: RLWE equation", "discrepancy is not a drawn error")
  return False


def canon(ob, c, what, a, qs):
  for ix in np.ndindex(*a.shape):
    ob.ge(f"{what} {ix}: not negative", c, a[ix], 0)
    ob.ge(f"{what} {ix}: canonical", c, qs[ix[-1]] - 1, a[ix])


def zeros(n, M):
  o = np.empty((n, M), object)
  o[...] = 0
  return o


# --- concrete side --------------------------------------------------------


def isrc(rng):
  """A seeded source with extreme draws, true ternary secrets included."""
  base = repo(RA + ":RandomSource")

  class Src(base):
    def __init__(self):
      self.log = []

    def put(self, kind, co, moduli):
      a = np.array([[x % int(q) for q in moduli] for x in co], U64)
      self.log.append((kind, list(co), [int(q) for q in moduli]))
      return a

    def gen_gaussian_poly(self, degree, moduli, sigma=3.19):
      return self.put("gauss", [rng.choice([0, 1, -1, 5, -9, 20, -20])
                                for _ in range(degree)], moduli)

    def gen_ternary_poly(self, degree, moduli):
      return self.put("ternary", [rng.choice([0, 1, -1])
                                  for _ in range(degree)], moduli)

    def gen_sparse_binary(self, degree, weight, moduli):
      ix = set(rng.sample(range(degree), weight))
      return self.put("sparse", [int(i in ix) for i in range(degree)], moduli)

    def gen_uniform_poly(self, degree, moduli):
      Q = math.prod(int(q) for q in moduli)
      return self.put("uniform", [rng.choice([rng.randrange(Q), Q - 1, 0,
                                              rng.randrange(Q)])
                                  for _ in range(degree)], moduli)

    def of(self, *kinds):
      return [x for x in self.log if x[0] in kinds]
  return Src()


def coeffs(data, qs):
  """Evaluation form (n, M) -> integer coefficients modulo prod(qs)."""
  data = np.asarray(data).astype(object)
  cols = [ckks.int_intt([int(x) for x in data[:, m]], q)
          for m, q in enumerate(qs)]
  return [ckks.crt([col[i] for col in cols], qs)
          for i in range(data.shape[0])]


def centred(x, Q):
  x %= Q
  return x - Q if x > Q // 2 else x


def err_of(b, a, s, msg, Q):
  """Coefficients of b + a s - msg, centred modulo Q."""
  t = ring.negacyclic_int(a, s)
  return [centred(x + y - z, Q) for x, y, z in zip(b, t, msg)]


def in_range(data, qs):
  d = np.asarray(data).astype(object)
  return all(0 <= int(d[ix]) < qs[ix[-1]] for ix in np.ndindex(*d.shape))


# --- units ----------------------------------------------------------------


def keygen_unit(n, qs, weight=None):
  M = len(qs)

  def prove(ob):
    def go(e):
      e.residues = True
      src = source(e)
      pk, sk = repo(KG + ":keygen")(n, list(qs), src, weight)
      return src, pk, sk
    for p in good(ob, explore(go), "keygen"):
      src, pk, sk = p.result
      c = p.c
      d, s = vv(pk.data), vv(sk.data)
      ob.true("shapes", d.shape == (2, n, M) and s.shape == (n, M))
      ob.true("moduli", [int(x) for x in pk.moduli] == list(qs) ==
              [int(x) for x in sk.moduli])
      sec = src.of("sparse" if weight is not None else "ternary")
      ob.true("secret drawn once", len(sec) == 1)
      if weight is not None:
        ob.true("weight", src.weight == weight)
      match(ob, c, "secret", s, sec, qs, set())
      match(ob, c, "public randomness", d[1], src.of("uniform"), qs, set())
      rlwe(ob, c, "public key", d[0], d[1], s, zeros(n, M), qs,
           src.of("gauss"), set())
      canon(ob, c, "secret", s, qs)
      canon(ob, c, "public key", d, qs)

  def run(rng, cnt, hints):
    Q = math.prod(qs)
    for _ in range(cnt):
      src = isrc(rng)
      pk, sk = repo(KG + ":keygen")(n, list(qs), src, weight)
      run.unit.evals += 1
      run.unit.last_inputs = dict(draws=src.log, moduli=qs)
      s = [centred(x, Q) for x in coeffs(sk.data, qs)]
      b, a = coeffs(pk.data[0], qs), coeffs(pk.data[1], qs)
      e = err_of(b, a, s, [0] * n, Q)
      if (s not in [x[1] for x in src.of("ternary", "sparse")] or
          a not in [x[1] for x in src.of("uniform")] or
          e not in [x[1] for x in src.of("gauss")] or
          not in_range(pk.data, qs) or not in_range(sk.data, qs)):
        return dict(function="keygen", degree=n, moduli=qs, draws=src.log,
                    secret=s, error=e, public_key=pk.data)
    return None
  u = Unit(f"keygen degree {n} moduli {qs} weight {weight}",
           [KG + ".keygen", CPU + ".ntt_negacyclic_poly"], prove=prove,
           concrete=run, cross=3, search=60)
  run.unit = u
  return u


def extend_unit(n, qs, ps, full):
  """Every ternary secret: the extension is the same integer polynomial."""
  al = list(qs) + list(ps)

  def check(s):
    kg, T = repo(KG), repo(C + "types:SecretKey")
    data = np.zeros((n, len(qs)), U64)
    for m, q in enumerate(qs):
      data[:, m] = ckks.int_ntt([x % q for x in s], q)
    k = T(data, np.array(qs, U64))
    o = kg.extend_secret_key(k, list(al))
    w = np.zeros((n, len(al)), object)
    for m, q in enumerate(al):
      w[:, m] = ckks.int_ntt([x % q for x in s], q)
    g = np.asarray(o.data).astype(object)
    if g.shape != w.shape or (g != w).any() or [
        int(x) for x in o.moduli] != al:
      return dict(function="extend_secret_key", secret=list(s), moduli=qs,
                  target=al, got=g, want=w)
    return None

  def prove(ob):
    if full:
      bad = None
      for s in itertools.product((0, 1, -1), repeat=n):
        bad = bad or check(s)
      ob.true(f"all {3**n} ternary secrets of degree {n} keep their "
              "coefficients in every limb", bad is None,
              "" if bad is None else str(bad["secret"]), "exhaustive",
              hard=True)

    def go(e):
      e.residues = True
      s = [e.var(f"s{i}", 0, 1) for i in range(n)]
      data = np.empty((n, len(qs)), object)
      for m, q in enumerate(qs):
        for i, x in enumerate(ckks.points(n, q)):
          data[i, m] = sum(s[j] * pow(x, j, q) for j in range(n)) % q
      k = repo(C + "types:SecretKey")(nparr.wrap_arr(data, U64),
                                      np.array(qs, U64))
      return s, repo(KG + ":extend_secret_key")(k, list(al))
    for p in good(ob, explore(go), "extension of a binary secret"):
      s, o = p.result
      c = p.c
      g = vv(o.data)
      ob.true("moduli", [int(x) for x in o.moduli] == al)
      for m, q in enumerate(al):
        for i, x in enumerate(ckks.points(n, q)):
          ckks.eq_mod(ob, c, f"value {i} limb {m}", g[i, m], c.total(
              [c.mul(val(s[j]), pow(x, j, q)) for j in range(n)]), q)

  def run(rng, cnt, hints):
    for _ in range(cnt):
      run.unit.evals += 1
      s = tuple(rng.choice([0, 1, -1]) for _ in range(n))
      run.unit.last_inputs = dict(secret=s)
      r = check(s)
      if r:
        return r
    return None
  u = Unit(f"extend_secret_key degree {n} moduli {qs} to {al}",
           [KG + ".extend_secret_key"], prove=prove, concrete=run,
           cross=5, search=200)
  run.unit = u
  return u


def extension_contract(e, kg):
  """Callers see extend_secret_key by its contract: the first limbs are the
  secret's own, the others are some canonical residues."""
  T = repo(C + "types:SecretKey")

  def ext(secret_key, target_moduli):
    cur = [int(m) for m in secret_key.moduli]
    target_moduli = [int(m) for m in target_moduli]
    if target_moduli[:len(cur)] != cur:
      raise ValueError("target_moduli must start with secret_key.moduli")
    n = secret_key.data.shape[0]
    new = target_moduli[len(cur):]
    x = limbs(e, "ext", n, new)
    o = np.concatenate([secret_key.data, x], axis=1)
    e.shared.setdefault("ext", []).append(vv(o))
    return T(o, np.array(target_moduli, U64))
  return ext


def parts(num_q, dnum):
  alpha = -(-num_q // dnum)
  return [(p * alpha, min((p + 1) * alpha, num_q)) for p in range(dnum)]


def auto_index(n, g):
  """NTT position i of f(X^g) is position auto_index[i] of f."""
  bits = n.bit_length() - 1
  out = []
  for i in range(n):
    k = (2 * ckks.bitrev(i, bits) + 1) * g % (2 * n)
    out.append(ckks.bitrev((k - 1) // 2, bits))
  return out


def switch_unit(kind, n, qs, ps, dnum):
  """gen_key_switching_key, gen_evaluation_key, gen_conjugate_key."""
  al = list(qs) + list(ps)
  M, A, P = len(qs), len(al), math.prod(ps)

  def call(kg, src, dst, rs):
    if kind == "switch":
      return kg.gen_key_switching_key(src, dst, list(qs), list(ps), dnum, rs)
    if kind == "extended":
      return kg.gen_key_switching_key(
          src, dst, list(qs), list(ps), dnum, rs,
          kg.extend_secret_key(dst, al))
    if kind == "evaluation":
      return kg.gen_evaluation_key(dst, list(qs), list(ps), dnum, rs)
    return kg.gen_conjugate_key(dst, list(qs), list(ps), dnum, rs)

  def prove(ob):
    kg = repo(KG)
    T = repo(C + "types:SecretKey")

    def go(e):
      e.residues = True
      rs = source(e)
      src, dst = [T(limbs(e, x, n, qs), np.array(qs, U64))
                  for x in ("src", "dst")]
      with paths.patched(kg, "extend_secret_key", extension_contract(e, kg)):
        k = call(kg, src, dst, rs)
      return vv(src.data), vv(dst.data), rs, k
    for p in good(ob, explore(go), kind):
      src, dst, rs, k = p.result
      c, e = p.c, p.e
      ex = e.shared.get("ext", [])
      ob.true("destination extended", len(ex) >= 1)
      if not ex:
        continue
      s = ex[0]
      ob.true("destination key extended", all(
          same_mod(c, s[i, m], dst[i, m], qs[m]) for i in range(n)
          for m in range(M)))
      if kind == "evaluation":
        t = np.empty((n, M), object)
        for ix in np.ndindex(n, M):
          t[ix] = c.mul(dst[ix], dst[ix])
      elif kind == "conjugate":
        t = dst[auto_index(n, 2 * n - 1), :]
      else:
        t = src
      a, b = vv(k.a), vv(k.b)
      ob.true("shapes", a.shape == b.shape == (dnum, n, A), str(a.shape))
      ob.true("moduli", [int(x) for x in k.moduli] == al)
      ua, ue = set(), set()
      for part, (lo, hi) in enumerate(parts(M, dnum)):
        msg = zeros(n, A)
        for m in range(lo, hi):
          for i in range(n):
            msg[i, m] = c.mul(t[i, m], P)
        match(ob, c, f"part {part} randomness", a[part], rs.of("uniform"), al,
              ua)
        rlwe(ob, c, f"part {part}", b[part], a[part], s, msg, al,
             rs.of("gauss"), ue)
        canon(ob, c, f"part {part} a", a[part], al)

  def run(rng, cnt, hints):
    kg = repo(KG)
    Q, PQ = math.prod(qs), math.prod(al)
    for _ in range(cnt):
      rs = isrc(rng)
      _, dst = kg.keygen(n, list(qs), rs)
      _, src = kg.keygen(n, list(qs), rs)
      sd = rs.of("ternary")[0][1]
      ss = rs.of("ternary")[1][1]
      n0 = len(rs.log)
      k = call(kg, src, dst, rs)
      run.unit.evals += 1
      run.unit.last_inputs = dict(draws=rs.log, moduli=al)
      if kind == "evaluation":
        t = ring.negacyclic_int(sd, sd)
      elif kind == "conjugate":
        t = [sd[0]] + [-sd[n - i] for i in range(1, n)]
      else:
        t = ss
      log = rs.log[n0:]
      errs = [x[1] for x in log if x[0] == "gauss"]
      unis = [x[1] for x in log if x[0] == "uniform"]
      kb, ka = np.asarray(k.b), np.asarray(k.a)
      for part, (lo, hi) in enumerate(parts(M, dnum)):
        # P q~ with q~ = 1 in the limbs of the part and 0 in the others
        w = ckks.crt([P % q if lo <= m < hi else 0
                      for m, q in enumerate(al)], al)
        a, b = coeffs(ka[part], al), coeffs(kb[part], al)
        e = err_of(b, a, sd, [x * w for x in t], PQ)
        if e not in errs or a not in unis or not in_range(
            kb[part], al) or not in_range(ka[part], al):
          return dict(function=f"{kind} key", part=part, degree=n, moduli=qs,
                      special=ps, dnum=dnum, secret=sd, source=t,
                      discrepancy=e, drawn_errors=errs)
        errs.remove(e)
        unis.remove(a)
    return None
  f = {"switch": "gen_key_switching_key", "extended": "gen_key_switching_key",
       "evaluation": "gen_evaluation_key",
       "conjugate": "gen_conjugate_key"}[kind]
  u = Unit(f"{kind} key degree {n} moduli {qs} special {ps} parts {dnum}", [
      KG + "." + f, KG + ".gen_key_switching_key",
      KG + ".compute_scaled_source_key_partition"], prove=prove, concrete=run,
      cross=2, search=40,
      assumes=["extend_secret_key by its contract (own unit)"])
  run.unit = u
  return u


def hmux_unit(n, qs, ps, js, given=False):
  al = list(qs) + list(ps)
  M, A, P = len(qs), len(al), math.prod(ps)

  def call(kg, sk, beta, j, rs):
    x = kg.extend_secret_key(sk, al) if given else None
    return kg.gen_hmuxrot_key(sk, beta, j, list(qs), list(ps), rs, x)

  def prove(ob):
    kg = repo(KG)
    T = repo(C + "types:SecretKey")
    for beta, j in itertools.product((0, 1), js):
      def go(e):
        e.residues = True
        rs = source(e)
        sk = T(limbs(e, "sk", n, qs), np.array(qs, U64))
        with paths.patched(kg, "extend_secret_key", extension_contract(e, kg)):
          k = call(kg, sk, beta, j, rs)
        return vv(sk.data), rs, k
      t = f"beta {beta} rotation {j}"
      for p in good(ob, explore(go), t):
        sk, rs, k = p.result
        c, e = p.c, p.e
        s = e.shared["ext"][0]
        g = pow(5, -j, 2 * n)
        rot = sk[auto_index(n, g), :]
        m0, m1 = zeros(n, A), zeros(n, A)
        for i in range(n):
          for m in range(M):
            m0[i, m] = c.mul(rot[i, m], beta * P)
          for m in range(A):
            m1[i, m] = beta * P
        ua, ue = set(), set()
        for nm, ct, msg in (("key0", k.key0, m0), ("key1", k.key1, m1)):
          d = vv(ct.data)
          ob.true(f"{t} {nm} shape", d.shape == (2, n, A))
          ob.true(f"{t} {nm} moduli", [int(x) for x in np.asarray(
              ct.moduli)] == al)
          match(ob, c, f"{t} {nm} randomness", d[1], rs.of("uniform"), al, ua)
          rlwe(ob, c, f"{t} {nm}", d[0], d[1], s, msg, al, rs.of("gauss"), ue)
          canon(ob, c, f"{t} {nm}", d, al)

  def run(rng, cnt, hints):
    kg = repo(KG)
    PQ = math.prod(al)
    for _ in range(cnt):
      rs = isrc(rng)
      _, sk = kg.keygen(n, list(qs), rs)
      s = rs.of("ternary")[0][1]
      n0 = len(rs.log)
      beta, j = rng.choice((0, 1)), rng.choice(js)
      run.unit.last_inputs = dict(beta=beta, j=j, secret=s, moduli=al)
      run.unit.evals += 1
      r = check_hmux(call(kg, sk, beta, j, rs), rs.log[n0:], s, beta, j, n,
                     qs, ps)
      if r:
        return dict(r, function="gen_hmuxrot_key", beta=beta, j=j, secret=s)
    return None
  u = Unit(f"hmuxrot key degree {n} moduli {qs} special {ps} rotations "
           f"{js} {'given extension' if given else ''}", [
               KG + ".gen_hmuxrot_key", BU + ".apply_automorphism_ntt"],
           prove=prove, concrete=run, cross=2, search=40,
           assumes=["extend_secret_key by its contract (own unit)"])
  run.unit = u
  return u


def substitute(s, g):
  n = len(s)
  o = [0] * n
  for i, x in enumerate(s):
    k = i * g % (2 * n)
    if k >= n:
      o[k - n] -= x
    else:
      o[k] += x
  return o


def check_hmux(k, log, s, beta, j, n, qs, ps):
  al = list(qs) + list(ps)
  P, PQ = math.prod(ps), math.prod(al)
  errs = [x[1] for x in log if x[0] == "gauss"]
  unis = [x[1] for x in log if x[0] == "uniform"]
  rot = substitute(s, pow(5, -j, 2 * n))
  for nm, ct, msg in (
      ("key0", k.key0, [beta * x * ckks.crt(
          [P % q if m < len(qs) else 0 for m, q in enumerate(al)], al)
                        for x in rot]),
      ("key1", k.key1, [beta * P] + [0] * (n - 1))):
    d = np.asarray(ct.data)
    b, a = coeffs(d[0], al), coeffs(d[1], al)
    e = err_of(b, a, s, msg, PQ)
    if e not in errs or a not in unis or not in_range(d, al) or [
        int(x) for x in np.asarray(ct.moduli)] != al:
      return dict(key=nm, moduli=qs, special=ps, discrepancy=e,
                  drawn_errors=errs)
    errs.remove(e)
    unis.remove(a)
  return None


def mux_unit(n, qs, ps):
  """gen_mux_rotation_key calls gen_hmuxrot_key with the right pairs."""
  al = list(qs) + list(ps)

  def prove(ob):
    kg, T = repo(KG), repo(C + "types:SecretKey")
    sk = T(np.zeros((n, len(qs)), U64), np.array(qs, U64))
    for nb in (1, 2, 3):
      for bits in itertools.product((0, 1), repeat=nb):
        for stride in (1, 2, 3):
          calls = []

          def hm(sk, beta, j, q_limbs, p_limbs, random_source=None,
                 sk_ext=None):
            calls.append((beta, j))
            ok = list(q_limbs) == list(qs) and list(p_limbs) == list(ps)
            if sk_ext is not None:
              ok = ok and [int(x) for x in sk_ext.moduli] == al
            return ("key", beta, j, ok)
          with paths.patched(kg, "gen_hmuxrot_key", hm):
            k = kg.gen_mux_rotation_key(sk, list(bits), list(qs), list(ps),
                                        stride)
          want = [(("key", b, (2**i) * stride, True), ("key", 1 - b, 0, True))
                  for i, b in enumerate(bits)]
          ob.true(f"bits {bits} stride {stride}", [tuple(x) for x in k.keys] ==
                  want, str(k.keys))

  def run(rng, cnt, hints):
    kg = repo(KG)
    for _ in range(cnt):
      rs = isrc(rng)
      _, sk = kg.keygen(n, list(qs), rs)
      s = rs.of("ternary")[0][1]
      bits = [rng.choice((0, 1)) for _ in range(rng.choice((1, 2, 3)))]
      stride = rng.choice((1, 2, 3))
      n0 = len(rs.log)
      run.unit.evals += 1
      k = kg.gen_mux_rotation_key(sk, list(bits), list(qs), list(ps), stride,
                                  rs)
      if len(k.keys) != len(bits):
        return dict(function="gen_mux_rotation_key", bits=bits,
                    keys=len(k.keys))
      for i, (b, pair) in enumerate(zip(bits, k.keys)):
        for kk, (beta, j) in zip(pair, ((b, 2**i * stride), (1 - b, 0))):
          r = check_hmux(kk, rs.log[n0:], s, beta, j, n, qs, ps)
          if r:
            return dict(r, function="gen_mux_rotation_key", bits=bits,
                        stride=stride, position=i)
    return None
  u = Unit(f"mux rotation key degree {n} special {ps}",
           [KG + ".gen_mux_rotation_key"], prove=prove, concrete=run, cross=3,
           search=40, assumes=["gen_hmuxrot_key by its contract (own unit)"])
  run.unit = u
  return u


def encrypt_unit(n, qs, k):
  """Encryption of a plaintext with k limbs under a key with all limbs."""
  sub = list(qs[:k])
  T = C + "types:"

  def prove(ob):
    en = repo(EN)

    def go(e):
      e.residues = True
      rs = source(e)
      pk = repo(T + "PublicKey")(nparr.arr(
          e, "pk", (2, n, len(qs)), lambda ix: (0, qs[ix[2]] - 1)),
                                 np.array(qs, U64))
      m = repo(T + "Plaintext")(limbs(e, "m", n, sub, np.uint32),
                                np.array(sub, U64))
      ct = en.Encrypt(pk).encrypt(m, rs)
      return rs, vv(pk.data), vv(m.data), ct
    for p in good(ob, explore(go), "encrypt"):
      rs, pk, m, ct = p.result
      c = p.c
      d = vv(ct.data)
      ob.true("shape", d.shape == (2, n, k), str(d.shape))
      ob.true("moduli", [int(x) for x in np.asarray(ct.moduli)] == sub)
      canon(ob, c, "ciphertext", d, sub)
      tern = rs.of("ternary")
      ob.true("one ephemeral secret", len(tern) == 1)
      v = spec_slots(c, tern[0][1], sub)
      used = set()
      neg = np.empty((n, k), object)
      for comp in (0, 1):
        # c_comp - v pk_comp - [m] is an unused error
        dd = np.empty((n, k), object)
        msg = np.empty((n, k), object)
        one = np.empty((n, k), object)
        for i in range(n):
          for l in range(k):
            msg[i, l] = c.add(c.mul(v[i, l], pk[comp, i, l]),
                              m[i, l] if comp == 0 else 0)
            one[i, l] = 0
        rlwe(ob, c, f"component {comp}", d[comp], one, one, msg, sub,
             rs.of("gauss"), used)

  def run(rng, cnt, hints):
    import jax.numpy as jnp
    en, kg = repo(EN), repo(KG)
    Q = math.prod(sub)
    for _ in range(cnt):
      rs = isrc(rng)
      pk, sk = kg.keygen(n, list(qs), rs)
      n0 = len(rs.log)
      m = [rng.choice([0, Q - 1, rng.randrange(Q)]) for _ in range(n)]
      md = np.zeros((n, k), np.uint32)
      for l, q in enumerate(sub):
        md[:, l] = ckks.int_ntt([x % q for x in m], q)
      ct = en.Encrypt(pk).encrypt(repo(T + "Plaintext")(
          jnp.array(md), jnp.array(sub, jnp.uint64)), rs)
      run.unit.evals += 1
      run.unit.last_inputs = dict(draws=rs.log, message=m)
      log = rs.log[n0:]
      errs = [x[1] for x in log if x[0] == "gauss"]
      v = [x[1] for x in log if x[0] == "ternary"][0]
      d = np.asarray(ct.data)
      for comp in (0, 1):
        pkc = coeffs(np.asarray(pk.data)[comp][:, :k], sub)
        e = err_of(coeffs(d[comp], sub), [-x for x in pkc], v,
                   m if comp == 0 else [0] * n, Q)
        if e not in errs or not in_range(d, sub):
          return dict(function="Encrypt.encrypt", component=comp, moduli=sub,
                      draws=log, discrepancy=e)
        errs.remove(e)
    return None
  u = Unit(f"encrypt degree {n} moduli {sub} of {len(qs)}",
           [EN + ".Encrypt.encrypt"], prove=prove, concrete=run, cross=3,
           search=60)
  run.unit = u
  return u


def decrypt_unit(n, qs, k):
  sub = list(qs[:k])
  T = C + "types:"

  def prove(ob):
    en = repo(EN)

    def go(e):
      e.residues = True
      sk = repo(T + "SecretKey")(limbs(e, "s", n, qs), np.array(qs, U64))
      ct = repo(T + "Ciphertext")(nparr.arr(
          e, "ct", (2, n, k), lambda ix: (0, sub[ix[2]] - 1), np.uint32),
                                  np.array(sub, np.uint32))
      return vv(sk.data), vv(ct.data), en.Decrypt(sk).decrypt(ct)
    for p in good(ob, explore(go), "decrypt"):
      s, ct, o = p.result
      c = p.c
      d = vv(o.data)
      ob.true("shape", d.shape == (n, k))
      ob.true("moduli", [int(x) for x in np.asarray(o.moduli)] == sub)
      for l, q in enumerate(sub):
        w = ckks.spec_intt(c, [c.add(ct[0, i, l], c.mul(ct[1, i, l], s[i, l]))
                               for i in range(n)], q)
        for i in range(n):
          ckks.eq_mod(ob, c, f"coefficient {i} limb {l}", d[i, l], w[i], q)

  def run(rng, cnt, hints):
    import jax.numpy as jnp
    en = repo(EN)
    for _ in range(cnt):
      s = ckks.rand_res(rng, (n, len(qs)), qs, U64)
      ct = ckks.rand_res(rng, (2, n, k), sub)
      run.unit.evals += 1
      run.unit.last_inputs = dict(s=s, ct=ct)
      o = en.Decrypt(repo(T + "SecretKey")(s, np.array(qs, U64))).decrypt(
          repo(T + "Ciphertext")(jnp.array(ct), jnp.array(sub, jnp.uint32)))
      w = np.zeros((n, k), object)
      for l, q in enumerate(sub):
        w[:, l] = ckks.int_intt([int(ct[0, i, l]) + int(ct[1, i, l]) *
                                 int(s[i, l]) for i in range(n)], q)
      g = np.asarray(o.data).astype(object)
      if g.shape != w.shape or (g != w).any():
        return dict(function="Decrypt.decrypt", secret=s, ciphertext=ct,
                    moduli=sub, got=g, want=w)
    return None
  u = Unit(f"decrypt degree {n} moduli {sub} of {len(qs)}",
           [EN + ".Decrypt.decrypt", CPU + ".intt_negacyclic_poly"],
           prove=prove, concrete=run, cross=3, search=60)
  run.unit = u
  return u


def chain_unit(n, qs):
  """keygen, encrypt, decrypt: plaintext plus v e + e0 + e1 s exactly."""
  T = C + "types:"
  M = len(qs)

  def prove(ob):
    def go(e):
      e.residues = True
      rs = source(e)
      pk, sk = repo(KG + ":keygen")(n, list(qs), rs)
      n0 = len(rs.log)
      m = repo(T + "Plaintext")(limbs(e, "m", n, qs, np.uint32),
                                np.array(qs, U64))
      ct = repo(EN + ":Encrypt")(pk).encrypt(m, rs)
      o = repo(EN + ":Decrypt")(sk).decrypt(ct)
      return rs, n0, vv(m.data), o
    for p in good(ob, explore(go), "chain"):
      rs, n0, m, o = p.result
      c = p.c
      d = vv(o.data)
      s = rs.of("ternary")[0][1]
      v = rs.of("ternary")[1][1]
      ep = [x for x in rs.log[:n0] if x[0] == "gauss"][0][1]
      es = [x[1] for x in rs.log[n0:] if x[0] == "gauss"]
      ob.true("two encryption errors", len(es) == 2)
      for l, q in enumerate(qs):
        pl = ckks.spec_intt(c, list(m[:, l]), q)
        ve = ring.negacyclic(c, list(v[:, l]), list(ep[:, l]))
        ok = False
        for e0, e1 in (es, es[::-1]):
          t = ring.negacyclic(c, list(e1[:, l]), list(s[:, l]))
          w = [c.total([pl[i], ve[i], e0[i, l], t[i]]) for i in range(n)]
          if same_mod(c, d[0, l], w[0], q):
            ok = True
            break
        for i in range(n):
          ckks.eq_mod(ob, c, f"coefficient {i} limb {l}", d[i, l], w[i], q)

  def run(rng, cnt, hints):
    import jax.numpy as jnp
    Q = math.prod(qs)
    for _ in range(cnt):
      rs = isrc(rng)
      pk, sk = repo(KG + ":keygen")(n, list(qs), rs)
      n0 = len(rs.log)
      m = [rng.randrange(Q) for _ in range(n)]
      md = np.zeros((n, M), np.uint32)
      for l, q in enumerate(qs):
        md[:, l] = ckks.int_ntt([x % q for x in m], q)
      run.unit.evals += 1
      run.unit.last_inputs = dict(message=m, draws=rs.log)
      ct = repo(EN + ":Encrypt")(pk).encrypt(repo(T + "Plaintext")(
          jnp.array(md), jnp.array(qs, jnp.uint64)), rs)
      o = np.asarray(repo(EN + ":Decrypt")(sk).decrypt(ct).data).astype(object)
      s, v = [x[1] for x in rs.of("ternary")]
      ep = [x for x in rs.log[:n0] if x[0] == "gauss"][0][1]
      es = [x[1] for x in rs.log[n0:] if x[0] == "gauss"]
      got = [ckks.crt([o[i, l] for l in range(M)], qs) for i in range(n)]
      ok = False
      for e0, e1 in (es, es[::-1]):
        w = [(a + b + c2 + d2) % Q for a, b, c2, d2 in zip(
            m, ring.negacyclic_int(v, ep), e0, ring.negacyclic_int(e1, s))]
        ok = ok or w == got
      if not ok:
        return dict(function="decrypt of encrypt", message=m, draws=rs.log,
                    got=got)
    return None
  u = Unit(f"encrypt then decrypt degree {n} moduli {qs}",
           [KG + ".keygen", EN + ".Encrypt.encrypt", EN + ".Decrypt.decrypt"],
           prove=prove, concrete=run, cross=3, search=60)
  run.unit = u
  return u


def source_unit(n, qs):
  """The library's sources return one integer polynomial in every limb."""
  M = len(qs)

  def prove(ob):
    ra = repo(RA)
    small = min(qs) // 2

    class Rng:
      def __init__(self, e):
        self.e, self.out = e, []

      def put(self, lo, hi):
        x = self.e.var(f"d{len(self.out)}", lo, hi)
        self.out.append(x)
        return x

      def normalvariate(self, mu=0, sigma=1):
        ob.true("errors are drawn about 0 with a positive width",
                mu == 0 and sigma > 0, hard=True)
        return self.put(-small, small)
      gauss = normalvariate

      def choice(self, seq):
        return self.put(min(seq), max(seq))

      def randint(self, a, b):
        return self.put(a, b)

      def randrange(self, a, b=None):
        return self.put(*((0, a - 1) if b is None else (a, b - 1)))

      def sample(self, pop, k):
        self.k = k
        return list(pop)[-k:] if k else []
    for cls in ("SecureRandomSource", "TestRandomSource"):
      for f in ("gen_gaussian_poly", "gen_ternary_poly", "gen_uniform_poly"):
        def go(e):
          e.residues = True
          s = getattr(ra, cls)() if cls[0] == "S" else getattr(ra, cls)(1)
          s.rng = Rng(e)
          return s.rng.out, getattr(s, f)(n, list(qs))
        for p in good(ob, explore(go), f"{cls}.{f}"):
          draws, o = p.result
          c = p.c
          g = vv(o)
          ob.true(f"{cls}.{f} shape", g.shape == (n, M), str(g.shape))
          dr = [val(x) for x in draws]
          if f == "gen_uniform_poly":
            ks = {c.poly(x).key() for x in g.ravel()}
            ob.true(f"{cls}.{f}: every residue is its own draw",
                    len(ks) == g.size and
                    ks <= {c.poly(x).key() for x in dr})
            canon(ob, c, f"{cls}.{f}", g, qs)
            for ix in np.ndindex(n, M):
              lo, hi = c.rng(g[ix])
              ob.true(f"{cls}.{f} {ix}: full range",
                      lo == 0 and hi == qs[ix[1]] - 1)
            continue
          ob.true(f"{cls}.{f}: one draw per coefficient", len(dr) == n)
          for i in range(min(n, len(dr))):
            for m, q in enumerate(qs):
              ckks.eq_mod(ob, c, f"{cls}.{f} {i},{m}", g[i, m], dr[i], q)
    for w in range(n + 1):
      s = ra.TestRandomSource(3)
      o = np.asarray(s.gen_sparse_binary(n, w, list(qs))).astype(int)
      ob.true(f"sparse weight {w}", o.shape == (n, M) and set(
          o.ravel()) <= {0, 1} and all((o[:, m] == o[:, 0]).all() for m in
                                       range(M)) and o[:, 0].sum() == w,
              str(o))
    z = np.asarray(ra.ZeroNoiseRandomSource().gen_gaussian_poly(n, list(qs)))
    ob.true("zero noise", z.shape == (n, M) and not z.any())

  def run(rng, cnt, hints):
    ra = repo(RA)
    Q = math.prod(qs)
    for i in range(cnt):
      s = ra.TestRandomSource(rng.randrange(1 << 30))
      run.unit.evals += 1
      for f, b in (("gen_gaussian_poly", 60), ("gen_ternary_poly", 1)):
        o = np.asarray(getattr(s, f)(n, list(qs))).astype(object)
        co = [centred(ckks.crt(list(r), qs), Q) for r in o]
        if any(abs(x) > b for x in co) or not in_range(o, qs):
          return dict(function="RandomSource." + f, got=o, moduli=qs)
      o = s.gen_uniform_poly(n, list(qs))
      if o.shape != (n, M) or not in_range(o, qs):
        return dict(function="RandomSource.gen_uniform_poly", got=o,
                    moduli=qs)
      w = rng.randrange(n + 1)
      o = np.asarray(s.gen_sparse_binary(n, w, list(qs))).astype(int)
      if o[:, 0].sum() != w or any((o[:, m] != o[:, 0]).any()
                                   for m in range(M)) or o.max() > 1:
        return dict(function="RandomSource.gen_sparse_binary", weight=w,
                    got=o)
    return None
  u = Unit(f"random sources degree {n} moduli {qs}", [
      RA + ".SecureRandomSource." + f for f in (
          "gen_gaussian_poly", "gen_ternary_poly", "gen_uniform_poly",
          "gen_sparse_binary")], prove=prove, concrete=run, cross=20,
      search=300, assumes=["quality and range of the underlying generator "
                           "(secrets.SystemRandom)"])
  run.unit = u
  return u


def cm_unit(n, qs):
  """gen_cm_keys encrypts the identity matrix; the encoder is a stand-in."""
  def prove(ob):
    kg = repo(KG)

    class Enc:
      def __init__(self, degree, moduli, scale):
        self.ok = degree == n and [int(q) for q in moduli] == list(qs)
        self.scale = scale

      def encode(self, v):
        return (self.ok, self.scale, tuple(complex(x) for x in v))

    class Cry:
      def __init__(self, pk):
        self.pk = pk

      def encrypt(self, m, random_source=None):
        return ("ct", self.pk is key) + m
    key = repo(C + "types:PublicKey")(np.zeros((2, n, len(qs)), U64),
                                      np.array(qs, U64))
    for ix in ([0], [0, 1], [0, 1, 2], [0, 1, 2, 3], [5, 2, 5], [7, 7, 1, 0],
               list(range(9, 0, -1))):
      k = len(ix)
      with paths.patched(kg.encode, "Encode", Enc), paths.patched(
          kg.encrypt, "Encrypt", Cry):
        o = kg.gen_cm_keys(ix, key, 2.0**20)
      ob.true(f"{k} columns: shape", np.shape(o) == (k, k))
      for i in range(k):
        for j in range(k):
          ob.true(f"{k} columns: entry {i},{j}", o[i, j] == (
              "ct", True, True, 2.0**20,
              (complex(1 if i == j else 0),) * (n // 2)), str(o[i, j]))

  def run(rng, cnt, hints):
    # the real encoder and encryptor: decryptions are the identity matrix
    kg, en = repo(KG), repo(C + "encrypt")
    scale = float(1 << 40)
    pk, sk = kg.keygen(n, list(qs), repo(C + "random").TestRandomSource(
        rng.randrange(1 << 30)))
    Q = math.prod(qs)
    for _ in range(max(1, min(4, cnt))):
      k = rng.randrange(1, 6)
      ix = [rng.randrange(4) for _ in range(k)]
      run.unit.evals += 1
      run.unit.last_inputs = dict(indices=ix)
      o = kg.gen_cm_keys(ix, pk, scale)
      if np.shape(o) != (k, k):
        return dict(function="gen_cm_keys", indices=ix, shape=np.shape(o))
      for i in range(k):
        for j in range(k):
          m = np.asarray(en.Decrypt(sk).decrypt(o[i, j]).data).astype(object)
          for t in range(n):
            v = centred(ckks.crt([int(m[t, l]) for l in range(len(qs))], qs),
                        Q)
            w = scale if i == j and t == 0 else 0
            if abs(v - w) > 1 << 30:
              return dict(function="gen_cm_keys", indices=ix, entry=(i, j),
                          coefficient=t, got=v, want=w)
    return None
  u = Unit(f"column keys degree {n}", [KG + ".gen_cm_keys"], prove=prove,
           concrete=run, cross=2, search=4,
           assumes=["encode.Encode by its contract (C22)",
                    "encrypt.Encrypt by its contract (own unit)"])
  run.unit = u
  return u


def pytree_unit():
  """Passing a value through a jax transformation (flatten, then unflatten)
  gives back every field.  The methods are run on opaque objects, which they
  can only hand on, so the result holds for all contents."""
  T = "jaxite.jaxite_ckks.types"
  MULM = "jaxite.jaxite_ckks.mul"
  classes = [(T, "Plaintext", ("data", "moduli")),
             (T, "Ciphertext", ("data", "moduli")),
             (T, "HMuxRotKey", ("key0", "key1")),
             (T, "MuxRotationKey", ("keys",)),
             (MULM, "EvaluationKeys", ("a", "b", "moduli"))]

  def trips():
    import jax
    for mod, name, fields in classes:
      cls = repo(f"{mod}:{name}")
      vals = {f: object() for f in fields}
      x = cls(**vals)
      kids, aux = x.tree_flatten()
      y = cls.tree_unflatten(aux, kids)
      yield name, all(getattr(y, f) is vals[f] for f in fields)
      y = cls.tree_unflatten(aux, tuple(kids))
      leaves, tree = jax.tree_util.tree_flatten(x)
      y = jax.tree_util.tree_unflatten(tree, leaves)
      yield name + " by jax", all(getattr(y, f) is vals[f] for f in fields)

  def prove(ob):
    for name, ok in trips():
      ob.true(f"{name}: every field comes back", ok)

  def run(rng, k, hints):
    run.unit.evals += 1
    for name, ok in trips():
      if not ok:
        return dict(type=name, what="a field is lost or exchanged by "
                    "flatten followed by unflatten")
    return None
  u = Unit("keys and ciphertexts as pytrees",
           [f"{m}.{n}.{f}" for m, n, _ in classes
            for f in ("tree_flatten", "tree_unflatten")], prove=prove,
           concrete=run, cross=1, search=1)
  run.unit = u
  return u


def units(tier):
  P = primes(31, 16, 8)
  S_ = [97, 193, 257, 353]
  us = []
  for n, qs in ((2, P[:2]), (4, P[:2]), (8, P[:1]), (4, [P[0], 97, P[1]])):
    us.append(keygen_unit(n, qs))
    us.append(keygen_unit(n, qs, n // 2))
    us.append(encrypt_unit(n, qs, len(qs)))
    us.append(decrypt_unit(n, qs, len(qs)))
    us.append(chain_unit(n, qs))
  us.append(encrypt_unit(4, P[:3], 2))
  us.append(encrypt_unit(4, P[:3], 1))
  us.append(decrypt_unit(4, P[:3], 1))
  us.append(decrypt_unit(4, P[:3], 2))
  us.append(extend_unit(2, P[:1], P[1:2], True))
  us.append(extend_unit(4, P[:2], P[2:4], True))
  us.append(extend_unit(4, [P[0], 97], [193, P[1]], True))
  us.append(extend_unit(8, [97, P[0]], [P[1]], False))
  for kind in ("switch", "extended", "evaluation", "conjugate"):
    us.append(switch_unit(kind, 4, P[:2], P[2:3], 1))
    us.append(switch_unit(kind, 4, P[:3], P[3:5], 2))
    us.append(switch_unit(kind, 4, P[:3], P[3:4], 3))
    us.append(switch_unit(kind, 2, P[:5], P[5:8], 3))
    us.append(switch_unit(kind, 4, [P[0], 97, 193], [P[1], 257], 2))
  us.append(hmux_unit(4, P[:2], P[2:3], [0, 1, 2, 3]))
  us.append(hmux_unit(8, P[:2], P[2:3], [0, 1, 3]))
  us.append(hmux_unit(4, P[:2], P[2:5], [0, 1]))
  us.append(hmux_unit(4, P[:2], P[2:3], [0, 1], True))
  us.append(hmux_unit(2, P[:6], P[6:8], [0, 1]))
  us.append(mux_unit(8, P[:2], P[2:3]))
  us.append(source_unit(4, P[:3]))
  us.append(source_unit(8, [97, P[0]]))
  us.append(cm_unit(8, P[:2]))
  us.append(pytree_unit())
  Q, R = primes(31, 512, 12), primes(31, 2048, 3)
  us += [at_scale(u) for u in (
      keygen_unit(256, Q[:6]), encrypt_unit(256, Q[:6], 4),
      decrypt_unit(256, Q[:6], 4), chain_unit(1024, primes(31, 2048, 2)),
      extend_unit(256, Q[:8], Q[8:], True),
      switch_unit("evaluation", 256, Q[:8], Q[8:], 4),
      switch_unit("conjugate", 128, Q[:6], Q[8:], 3),
      hmux_unit(256, Q[:3], Q[3:5], [0, 3, 100]),
      hmux_unit(64, Q[:8], Q[8:], [0, 9]),
      switch_unit("conjugate", 1024, R[:2], R[2:3], 2),
      switch_unit("evaluation", 1024, R[:2], R[2:3], 1),
      switch_unit("switch", 512, R[:2], R[2:3], 2),
      extend_unit(1024, R[:1], R[1:3], True), keygen_unit(1024, R[:2]),
      encrypt_unit(1024, R[:2], 2), decrypt_unit(1024, R[:2], 2),
      hmux_unit(1024, R[:1], R[1:2], [0, 300]))]
  return us
