"""C04: LWE, RLWE and RGSW ciphertexts decrypt to message plus noise."""

import numpy as np

from vc import elem, jx, nparr, pysym, ring, rngs
from vc.harness import Unit, at_scale, repo
from vc.jx import IntDom, sym_array
from vc.poly import Unsupported

G = "jaxite.jaxite_cggi."
LWE, RLWE, RGSW = G + "lwe", G + "rlwe", G + "rgsw"
W = 1 << 32
U = np.uint32


def word(rng):
  return rng.choice([rng.getrandbits(32), rng.getrandbits(32), 0, 1, W - 1,
                     1 << 31])


def words(rng, shape):
  n = int(np.prod(shape))
  if n and rng.random() < .2:
    # shapes code likes to special-case
    v = [0] * n
    k, x = rng.randrange(6), word(rng)
    if k == 0:
      v[0] = x
    elif k == 1:
      v[rng.randrange(n)] = x
    elif k == 2:
      v[-1] = x
    elif k == 3:
      v = [x] * n
    elif k == 4:
      v = [rng.randrange(4) for _ in range(n)]
    return np.array(v, np.uint64).astype(U).reshape(shape)
  return np.array([word(rng) for _ in range(n)], np.uint64).astype(
      U).reshape(shape)


def lst(x):
  return [int(v) for v in np.asarray(x).ravel()]


def scalar(v):
  a = np.empty((), object)
  a[()] = v
  return a


def enc_params(total, msg, pad):
  return repo(G + "encoding:EncodingParameters")(
      total_bit_length=total, message_bit_length=msg, padding_bit_length=pad)


def lwe_key(data, log):
  return repo(LWE + ":LweSecretKey")(
      log_modulus=log, lwe_dimension=data.shape[0], key_data=data)


def rlwe_key(data, log):
  return repo(RLWE + ":RlweSecretKey")(
      log_coefficient_modulus=log, modulus_degree=data.shape[1],
      rlwe_dimension=data.shape[0], data=data)


def masks_fresh(ob, c, tag, elems, draws):
  """Every mask element is its own uniform draw."""
  used = set()
  for i, e in enumerate(elems):
    at = rngs.find_atom(c, e, draws, "uniform", W, used)
    ob.true(f"{tag}: mask element {i} is a fresh uniform draw",
            at is not None, hard=True)
    if at is not None:
      used.add(at)


def reused(masks, log_):
  """Concrete counterpart: with pairwise distinct draws, a mask word that is
  no draw, or two mask words that are the same draw."""
  drawn = [x for k, v in log_ if k == "uniform" for x in lst(v)]
  seen = set()
  for x in masks:
    if x in seen or x not in drawn:
      return x
    seen.add(x)
  return None


def distinct_values(rng):
  """Pairwise distinct uniform draws."""
  st = [rng.randrange(1 << 20)]

  def f(d):
    n = int(np.prod(d.shape)) if d.shape else 1
    if d.kind == "sk_uniform":
      return np.array([rng.getrandbits(1) for _ in range(n)])
    xs = [(st[0] + 2654435761 * (i + 1)) % W for i in range(n)]
    st[0] = xs[-1]
    return np.array(xs, np.uint64)
  return f


def is_normal(ob, c, name, v, draws, mod, used=None):
  at = rngs.find_atom(c, v, draws, "normal", mod, used or set())
  ob.true(name, at is not None, detail="residual is not one noise draw",
          backend="ring-normal-form")
  return at


def lwe_encrypt_unit(n, log):
  mod = 1 << log

  def prove(ob):
    dom = IntDom()
    c = dom.c
    s = sym_array(dom, "s", (n,), U)
    m = scalar(dom.input("m", U))
    enc = repo(LWE + ":encrypt")
    flat, draws = rngs.run(
        lambda prg, sk, pt: enc(pt, lwe_key(sk, log), prg),
        [(s, U), (m, U)], dom)
    ct = jx.to_obj(flat[0])
    ob.true("ciphertext length", ct.shape == (n + 1,), str(ct.shape))
    ph = c.sub(ct[n], c.dot(list(ct[:n]), list(s)))
    is_normal(ob, c, f"phase - message is the drawn noise modulo 2^{log}",
              c.sub(ph, m.item()), draws, mod)
    masks_fresh(ob, c, "LWE", ct[:n], draws)
    ob.ge("body below the modulus", c, mod - 1, ct[n])

  def run(rng, k, hints):
    L = repo(LWE)
    for _ in range(k):
      s = words(rng, (n,))
      m = word(rng) % mod
      prg, log_ = rngs.concrete(rngs.random_values(rng))
      run.unit.evals += 1
      run.unit.last_inputs = dict(key=lst(s), m=m)
      ct = lst(L.encrypt(U(m), lwe_key(s, log), prg))
      e = [lst(v) for kk, v in log_ if kk == "normal"]
      ph = (ct[-1] - sum(a * b for a, b in zip(ct, lst(s)))) % mod
      prg, log_ = rngs.concrete(distinct_values(rng))
      c2 = lst(L.encrypt(U(m), lwe_key(s, log), prg))
      if reused(c2[:-1], log_) is not None:
        return dict(function="lwe.encrypt", what="mask is not a fresh draw",
                    mask=c2[:-1], draws=[lst(v) for _, v in log_])
      if ph not in [(m + x) % mod for v in e for x in v]:
        return dict(function="lwe.encrypt", key=lst(s), message=m,
                    ciphertext=ct, phase=ph, noise=e)
      if ct[-1] >= mod:
        return dict(function="lwe.encrypt", key=lst(s), message=m,
                    ciphertext=ct, what=f"body is not below 2^{log}")
    return None
  u = Unit(f"lwe.encrypt n={n} log_modulus={log}",
           [LWE + ".encrypt", LWE + ".jit_encrypt"], prove=prove,
           concrete=run, cross=10, search=300)
  run.unit = u
  return u


def lwe_decrypt_unit(n, log):
  mod = 1 << log

  def prove(ob):
    dom = IntDom()
    c = dom.c
    s = sym_array(dom, "s", (n,), U)
    ct = sym_array(dom, "c", (n + 1,), U)
    L = repo(LWE)
    flat, _, _ = jx.run_sym(
        lambda a, k: L.decrypt_without_denoising(a, lwe_key(k, log)),
        [(ct, U), (s, U)], dom)
    o = jx.to_obj(flat[0]).ravel()
    ob.true("one value", len(o) == 1)
    ob.zero_mod("b - <a, s>", c,
                c.sub(o[0], c.sub(ct[n], c.dot(list(ct[:n]), list(s)))), mod)
    ob.ge("reduced", c, mod - 1, o[0])
    # decrypt == remove_noise of the phase
    ep = enc_params(log, 3, 1)
    f1, _, _ = jx.run_sym(lambda a, k: L.decrypt(a, lwe_key(k, log), ep),
                          [(ct, U), (s, U)], dom)
    rm = repo(G + "encoding:remove_noise")
    ph = c.mod(c.sub(ct[n], c.dot(list(ct[:n]), list(s))), mod)
    f2, _, _ = jx.run_sym(lambda x: rm(x, ep), [(scalar(ph), U)], dom)
    ob.eq("decrypt is remove_noise of the phase", c,
          jx.to_obj(f1[0]).ravel()[0], jx.to_obj(f2[0]).ravel()[0])

  def run(rng, k, hints):
    L = repo(LWE)
    for _ in range(k):
      s, ct = words(rng, (n,)), words(rng, (n + 1,))
      run.unit.evals += 1
      got = lst(L.decrypt_without_denoising(ct, lwe_key(s, log)))
      want = (int(ct[n]) - sum(int(a) * int(b) for a, b in zip(ct, s))) % mod
      if got != [want]:
        return dict(function="lwe.decrypt_without_denoising", key=lst(s),
                    ciphertext=lst(ct), got=got, want=want)
      msg, pad = 3, 1
      err = log - msg - pad
      if err < 3:
        continue
      m = rng.randrange(1 << msg)
      lim = (1 << (err - 1)) - 1
      prg, _ = rngs.concrete(rngs.random_values(rng, lim + 1))
      ep = enc_params(log, msg, pad)
      pt = repo(G + "encoding:encode")(m, ep)
      got = lst(L.decrypt(L.encrypt(pt, lwe_key(s, log), prg),
                          lwe_key(s, log), ep))
      # the rounding result is a residue modulo 2^log
      if [x % (1 << log) for x in got] != [m << err]:
        return dict(function="lwe.decrypt(lwe.encrypt)", key=lst(s),
                    message=m, got=got, want=m << err)
    return None
  u = Unit(f"lwe.decrypt n={n} log_modulus={log}",
           [LWE + ".decrypt", LWE + ".decrypt_without_denoising"],
           prove=prove, concrete=run, cross=8, search=300)
  run.unit = u
  return u


def lwe_roundtrip_unit(n, log):
  """decrypt(encrypt(m)) is remove_noise of the word m + e."""
  def prove(ob):
    dom = IntDom()
    c = dom.c
    L = repo(LWE)
    ep = enc_params(log, 3, 1)
    s = sym_array(dom, "s", (n,), U)
    m = scalar(dom.input("m", U, 0, (1 << log) - 1))
    flat, draws = rngs.run(
        lambda prg, sk, pt: L.decrypt(L.encrypt(pt, lwe_key(sk, log), prg),
                                      lwe_key(sk, log), ep),
        [(s, U), (m, U)], dom)
    nd = [d for d in draws if d.kind == "normal"]
    ob.true("one noise draw", len(nd) == 1 and nd[0].sym.size == 1)
    e = nd[0].sym.ravel()[0]
    ph = c.mod(c.add(m.item(), e), 1 << log)
    f2, _, _ = jx.run_sym(
        lambda x: repo(G + "encoding:remove_noise")(x, ep),
        [(scalar(ph), U)], dom)
    ob.eq("decrypt(encrypt(m)) == remove_noise(m + e)", c,
          jx.to_obj(flat[0]).ravel()[0], jx.to_obj(f2[0]).ravel()[0])
  u = Unit(f"lwe round trip n={n} log_modulus={log}",
           [LWE + ".encrypt", LWE + ".decrypt"], prove=prove,
           concrete=lwe_decrypt_unit(n, log).concrete)
  u.concrete.unit = u
  u.cross, u.search = 6, 300
  return u


def misc_unit():
  def prove(ob):
    dom = IntDom()
    c = dom.c
    for n in (1, 3, 7):
      m = scalar(dom.input("m", U))
      flat, _, _ = jx.run_sym(
          lambda x, n=n: repo(LWE + ":noiseless_embedding")(x, n), [(m, U)],
          dom)
      o = jx.to_obj(flat[0])
      ob.true(f"n={n}: embedding length", o.shape == (n + 1,))
      for i in range(n):
        ob.eq(f"n={n}: mask {i} is zero", c, o[i], 0)
      ob.eq(f"n={n}: body is the message", c, o[n], m.item())
    for k, n in ((1, 4), (2, 2), (3, 4)):
      s = sym_array(dom, "s", (k, n), U)
      meta = {}

      def fk(x):
        key = repo(RLWE + ":flatten_key")(rlwe_key(x, 32))
        meta["d"] = (int(key.lwe_dimension), int(key.log_modulus))
        return key.key_data
      flat, _, _ = jx.run_sym(fk, [(s, U)], dom)
      o = jx.to_obj(flat[0])
      ob.true(f"flatten_key k={k} N={n}: shape and metadata",
              o.shape == (k * n,) and meta["d"] == (k * n, 32))
      for i in range(k * n):
        ob.eq(f"flatten_key k={k} N={n}: coefficient {i}", c, o[i],
              s[i // n, i % n])
    P = repo(G + "parameters:SchemeParameters")
    for dims in ((5, 2, 4), (3, 1, 8)):
      p = P(lwe_dimension=dims[0], plaintext_modulus=1 << 32,
            rlwe_dimension=dims[1], polynomial_modulus_degree=dims[2])
      for what, f, shape in (
          ("lwe", lambda prg: repo(LWE + ":gen_key")(p, prg).key_data,
           (dims[0],)),
          ("rlwe", lambda prg: repo(RLWE + ":gen_key")(p, prg).data,
           dims[1:]),
          ("rgsw", lambda prg: repo(RGSW + ":gen_key")(p, prg).key.data,
           dims[1:])):
        flat, draws = rngs.run(f, [], dom)
        o = jx.to_obj(flat[0])
        ob.true(f"{what} key shape", o.shape == shape, str(o.shape))
        used = set()
        for ix in np.ndindex(*o.shape):
          at = rngs.find_atom(c, o[ix], draws, "sk_uniform", W, used)
          ob.true(f"{what} key element {ix} is a fresh binary draw",
                  at is not None)
          used.add(at)

  def run(rng, k, hints):
    for _ in range(k):
      n = rng.randrange(1, 20)
      m = word(rng)
      run.unit.evals += 1
      o = lst(repo(LWE + ":noiseless_embedding")(U(m), n))
      if o != [0] * n + [m]:
        return dict(function="noiseless_embedding", m=m, n=n, got=o)
      kk, nn = rng.randrange(1, 4), rng.choice([2, 4, 8])
      s = words(rng, (kk, nn))
      key = repo(RLWE + ":flatten_key")(rlwe_key(s, 32))
      if lst(key.key_data) != lst(s) or key.lwe_dimension != kk * nn:
        return dict(function="flatten_key", key=s.tolist())
    return None
  u = Unit("noiseless embedding, flattened key, key generation",
           [LWE + ".noiseless_embedding", RLWE + ".flatten_key",
            LWE + ".gen_key", RLWE + ".gen_key", RGSW + ".gen_key"],
           prove=prove, concrete=run, cross=10, search=200)
  run.unit = u
  return u


def dotpoly(c, a, s):
  tot = [0] * len(s[0])
  for x, y in zip(a, s):
    tot = [c.add(p, q) for p, q in
           zip(tot, ring.negacyclic(c, list(x), list(y)))]
  return tot


def dotpoly_int(a, s, mod):
  tot = [0] * len(s[0])
  for x, y in zip(a, s):
    tot = [p + q for p, q in zip(tot, ring.negacyclic_int(lst(x), lst(y)))]
  return [t % mod for t in tot]


def rlwe_unit(k, n, log):
  mod = 1 << log

  def plain(m):
    return repo(RLWE + ":RlwePlaintext")(
        log_coefficient_modulus=log, modulus_degree=n, message=m)

  def prove(ob):
    R = repo(RLWE)
    dom = IntDom()
    c = dom.c
    s = sym_array(dom, "s", (k, n), U)
    m = sym_array(dom, "m", (n,), U)
    flat, draws = rngs.run(
        lambda prg, sk, pt: R.encrypt(plain(pt), rlwe_key(sk, log),
                                      prg).message, [(s, U), (m, U)], dom)
    ct = jx.to_obj(flat[0])
    ob.true("ciphertext shape", ct.shape == (k + 1, n), str(ct.shape))
    dp = dotpoly(c, ct[:k], s)
    used = set()
    for i in range(n):
      at = is_normal(
          ob, c, f"phase - message at coefficient {i} is a fresh noise draw",
          c.sub(c.sub(ct[k, i], dp[i]), m[i]), draws, mod, used)
      used.add(at)
      ob.ge(f"body {i} below the modulus", c, mod - 1, ct[k, i])
    masks_fresh(ob, c, "RLWE", list(ct[:k].ravel()), draws)
    # decryption of an arbitrary ciphertext
    dom = IntDom()
    c = dom.c
    s = sym_array(dom, "s", (k, n), U)
    ct = sym_array(dom, "c", (k + 1, n), U)
    ep = enc_params(log, 3, 1)
    C = R.RlweCiphertext

    def dec(x, sk):
      return R.decrypt(C(log_coefficient_modulus=log, modulus_degree=n,
                         message=x), rlwe_key(sk, log), ep).message
    flat, _, _ = jx.run_sym(dec, [(ct, U), (s, U)], dom)
    o = jx.to_obj(flat[0])
    dp = dotpoly(c, ct[:k], s)
    ph = ring.objarr([c.mod(c.sub(ct[k, i], dp[i]), mod) for i in range(n)])
    f2, _, _ = jx.run_sym(
        lambda x: repo(G + "encoding:remove_noise")(x, ep), [(ph, U)], dom)
    for i in range(n):
      ob.eq(f"decrypt coefficient {i} is remove_noise of the phase", c, o[i],
            jx.to_obj(f2[0])[i])

  def run(rng, cnt, hints):
    R = repo(RLWE)
    for _ in range(cnt):
      nn = rng.choice([n, n, 16])
      s = words(rng, (k, nn))
      m = words(rng, (nn,)) % (mod - 1)
      prg, log_ = rngs.concrete(rngs.random_values(rng))
      run.unit.evals += 1
      run.unit.last_inputs = dict(key=s.tolist(), m=lst(m))
      P = R.RlwePlaintext(log_coefficient_modulus=log, modulus_degree=nn,
                          message=m.astype(U))
      key = rlwe_key(s, log)
      ct = np.asarray(R.encrypt(P, key, prg).message)
      dp = dotpoly_int(ct[:k], s, mod)
      ph = [(int(b) - d) % mod for b, d in zip(ct[k], dp)]
      es = {x % mod for kk, v in log_ if kk == "normal" for x in lst(v)}
      prg, log_ = rngs.concrete(distinct_values(rng))
      c2 = np.asarray(R.encrypt(P, key, prg).message)[:k]
      if reused(lst(c2), log_) is not None:
        return dict(function="rlwe.encrypt", what="mask is not a fresh draw",
                    mask=c2.tolist())
      if log == 32:
        c2 = np.asarray(R.encrypt(P, key, rngs.concrete(
            distinct_values(rng))[0]).message)
        res = [(int(x) - d - int(y)) % mod for x, d, y in zip(
            c2[k], dotpoly_int(c2[:k], s, mod), m)]
        if len(set(res)) < nn:
          return dict(function="rlwe.encrypt", N=nn, k=k, key=s.tolist(),
                      message=lst(m), what="one noise draw used twice",
                      noises=res)
      bad = [i for i in range(nn) if (ph[i] - int(m[i])) % mod not in es]
      if bad:
        return dict(function="rlwe.encrypt", N=nn, k=k, key=s.tolist(),
                    message=lst(m), ciphertext=ct.tolist(), coefficient=bad[0])
      if max(lst(ct[k])) >= mod:
        return dict(function="rlwe.encrypt", N=nn, k=k, key=s.tolist(),
                    message=lst(m), ciphertext=ct.tolist(),
                    what=f"body is not below 2^{log}")
      err = log - 4
      if err < 3:
        continue
      lim = 1 << (err - 1)
      prg, _ = rngs.concrete(rngs.random_values(rng, lim))
      msg = np.array([rng.randrange(8) for _ in range(nn)], U)
      P = R.RlwePlaintext(log_coefficient_modulus=log, modulus_degree=nn,
                          message=(msg << U(err)).astype(U))
      got = lst(R.decrypt(R.encrypt(P, key, prg), key,
                          enc_params(log, 3, 1)).message)
      # the rounding result is a residue modulo 2^log
      if [x % (1 << log) for x in got] != [int(x) << err for x in msg]:
        return dict(function="rlwe.decrypt(encrypt)", N=nn, k=k,
                    key=s.tolist(), message=lst(msg), got=got)
    return None
  u = Unit(f"rlwe encrypt/decrypt k={k} N={n} log_modulus={log}",
           [RLWE + ".encrypt", RLWE + ".jit_encrypt", RLWE + ".decrypt"],
           prove=prove, concrete=run, cross=4, search=100)
  run.unit = u
  return u


def dparams(b, l):
  return repo(G + "decomposition:DecompositionParameters")(
      log_base=b, level_count=l)


def rgsw_unit(k, n, b, l):
  def enc(prg, sk, m):
    R = repo(RGSW)
    return R.encrypt(R.RgswPlaintext(modulus_degree=n, message=m),
                     R.RgswSecretKey(key=rlwe_key(sk, 32)), dparams(b, l),
                     prg).message

  def prove(ob):
    dom = IntDom()
    c = dom.c
    s = sym_array(dom, "s", (k, n), U)
    m = scalar(dom.input("m", U))
    flat, draws = rngs.run(enc, [(s, U), (m, U)], dom)
    ct = jx.to_obj(flat[0])
    ob.true("shape", ct.shape == ((k + 1) * l, k + 1, n), str(ct.shape))
    masks = []
    for blk in range(k + 1):
      for lev in range(l):
        row = ct[blk * l + lev].copy()
        row[blk, 0] = c.sub(row[blk, 0], c.mul(m.item(), 1 << (
            32 - b * (lev + 1))))
        dp = dotpoly(c, row[:k], s)
        for i in range(n):
          is_normal(ob, c, f"row {blk},{lev}: phase minus gadget at "
                    f"coefficient {i} is a noise draw",
                    c.sub(row[k, i], dp[i]), draws, W)
        masks += list(row[:k].ravel())
    masks_fresh(ob, c, "RGSW", masks, draws)

  def run(rng, cnt, hints):
    for _ in range(cnt):
      s = words(rng, (k, n))
      m = rng.choice([0, 1, word(rng)])
      prg, log_ = rngs.concrete(rngs.random_values(rng))
      run.unit.evals += 1
      ct = np.asarray(enc(prg, s, U(m)))
      prg, log2 = rngs.concrete(distinct_values(rng))
      c2 = np.asarray(enc(prg, s, U(0)))[:, :k]
      if reused(lst(c2), log2) is not None:
        return dict(function="rgsw.encrypt", what="mask is not a fresh draw",
                    mask=c2.tolist())
      es = {x for kk, v in log_ if kk == "normal" for x in lst(v)}
      for blk in range(k + 1):
        for lev in range(l):
          row = ct[blk * l + lev].astype(object)
          row[blk, 0] -= m << (32 - b * (lev + 1))
          dp = dotpoly_int(row[:k], s, W)
          ph = [(int(x) - d) % W for x, d in zip(row[k], dp)]
          if any(p not in es for p in ph):
            return dict(function="rgsw.encrypt", k=k, N=n, log_base=b,
                        levels=l, key=s.tolist(), m=m, block=blk, level=lev,
                        residual=ph, noise=sorted(es))
    return None
  u = Unit(f"rgsw.encrypt k={k} N={n} base 2^{b} levels {l}",
           [RGSW + ".encrypt", RGSW + ".jit_encrypt"], prove=prove,
           concrete=run, cross=3, search=60)
  run.unit = u
  return u


def rgsw_decrypt_unit(k, n, b, l):
  half = 1 << (32 - b - 1)

  def roundtrip(prg, sk, m):
    R = repo(RGSW)
    key = R.RgswSecretKey(key=rlwe_key(sk, 32))
    ct = R.encrypt(R.RgswPlaintext(modulus_degree=n, message=m), key,
                   dparams(b, l), prg)
    return R.decrypt(ct, dparams(b, l), key).message

  def prove(ob):
    for first in range(k):
      for lo, hi in ((0, half - 1), (W - half + 1, W - 1)):
        dom = IntDom()
        c = dom.c
        s = sym_array(dom, "s", (k, n), U, 0, 1)
        for j in range(first):
          s[j, 0] = 0
        s[first, 0] = 1
        m = scalar(dom.input("m", U, 0, (1 << b) - 1))
        ps, _ = rngs.run(
            roundtrip, [(s, U), (m, U)], dom, normal=(lo, hi),
            runner=lambda f, a: elem.int_paths(f, a, dom))
        ok = [p for p in ps if p[2] is None]
        ob.true(f"first unit key {first}: one outcome", len(ps) == 1
                and len(ok) == 1 and not ok[0][0], str([p[2] for p in ps]))
        for _, outs, _ in ok:
          ob.eq(f"first unit key {first}, noise in [{lo},{hi}]: "
                "decrypt(encrypt(m)) == m", c,
                jx.to_obj(outs[0]).ravel()[0], m.item())

  def run(rng, cnt, hints):
    for _ in range(cnt):
      s = np.array([[rng.getrandbits(1) for _ in range(n)]
                    for _ in range(k)], U)
      if not s[:, 0].any():
        s[rng.randrange(k), 0] = 1
      m = rng.randrange(1 << b)
      prg, _ = rngs.concrete(rngs.random_values(rng, half))
      run.unit.evals += 1
      run.unit.last_inputs = dict(key=s.tolist(), m=m)
      got = lst(roundtrip(prg, s, U(m)))
      if got != [m]:
        return dict(function="rgsw.decrypt(encrypt)", key=s.tolist(), m=m,
                    got=got, log_base=b, levels=l)
    return None
  u = Unit(f"rgsw.decrypt k={k} N={n} base 2^{b} levels {l}",
           [RGSW + ".decrypt"], prove=prove, concrete=run, cross=4,
           search=100)
  run.unit = u
  return u


class Draws:
  """random.Random stand-in: every draw is an unknown of its range."""

  def __init__(self, e):
    self.e, self.log = e, []

  def _put(self, kind, lo, hi):
    x = self.e.var(f"{kind}{len(self.log)}", lo, hi)
    self.log.append((kind, lo, hi, x))
    return x

  def randint(self, a, b):
    return self._put("u", a, b)

  def randrange(self, a, b=None):
    return self._put("u", *((0, a - 1) if b is None else (a, b - 1)))

  def getrandbits(self, k):
    return self._put("u", 0, (1 << k) - 1)

  def choice(self, s):
    s = list(s)
    if s != list(range(s[0], s[0] + len(s))):
      raise Unsupported("choice from a set")
    return self._put("u", s[0], s[-1])

  def normalvariate(self, mu=0, sigma=1):
    return Normal(self, mu, sigma)

  def gauss(self, mu=0, sigma=1):
    return Normal(self, mu, sigma)


class Normal:
  def __init__(self, d, mu, sigma):
    self.d, self.mu, self.sigma = d, mu, sigma

  def __round__(self, n=None):
    x = self.d._put("n", -(1 << 30), 1 << 30)  # pylint: disable=protected-access
    self.d.log[-1] += (self.mu, self.sigma)
    return x


def batch_unit(n, size, axes, out_axis):
  """batch_vmap(f) applies f to the slices of its batched arguments, each once
  and in order, whatever the batch length (exact multiple, remainder, less)."""
  JH = G + "jax_helpers"

  def f(x, y, z):
    return {"a": x * y[0] + z, "b": (y + x * z,)}

  def call(x, y, z):
    r = repo(JH + ":batch_vmap")(f, in_axes=axes, out_axes=out_axis,
                                 batch_size=size)(x, y, z)
    return r["a"], r["b"][0]

  ax = (axes,) * 3 if isinstance(axes, int) else axes

  def place(shape, a):
    if a is None:
      return shape
    a %= len(shape) + 1
    return shape[:a] + (n,) + shape[a:]
  shapes = [place((), ax[0]), place((2,), ax[1]), place((), ax[2])]

  def at(x, a, i):
    return x if a is None else np.moveaxis(x, a, 0)[i]

  def expect(mul, add, xs):
    a, b = [], []
    for i in range(n):
      x, y, z = (np.asarray(at(v, t, i), object) for v, t in zip(xs, ax))
      a.append(add(mul(x[()], y[0]), z[()]))
      b.append([add(y[k], mul(x[()], z[()])) for k in range(2)])
    a, b = np.array(a, object), np.array(b, object)
    return a, np.moveaxis(b, 0, out_axis)

  def prove(ob):
    dom = IntDom()
    xs = [sym_array(dom, "xyz"[i], s, U) for i, s in enumerate(shapes)]
    flat, _, _ = jx.run_sym(call, [(x, U) for x in xs], dom)
    for t, g, w in zip("ab", flat, expect(dom.c.mul, dom.c.add, xs)):
      g = jx.to_obj(g)
      ob.true(f"{t}: shape", g.shape == w.shape, f"{g.shape} {w.shape}")
      for i, (p, q) in enumerate(zip(g.ravel(), w.ravel())):
        ob.zero_mod(f"{t}: word {i}", dom.c, dom.c.sub(p, q), W)

  def run(rng, k, hints):
    for _ in range(k):
      xs = [np.array([rng.getrandbits(32) for _ in range(int(np.prod(s)))],
                     np.uint32).reshape(s) for s in shapes]
      run.unit.evals += 1
      got = call(*xs)
      want = expect(lambda p, q: p * q, lambda p, q: p + q,
                    [x.astype(object) for x in xs])
      for g, w in zip(got, want):
        g = np.asarray(g)
        if g.shape != w.shape or [int(v) for v in g.ravel()] != [
            int(v) % W for v in w.ravel()]:
          return dict(function="batch_vmap", args=[x.tolist() for x in xs],
                      batch_size=size, in_axes=str(axes), got=g.tolist())
    return None
  u = Unit(f"batch_vmap length {n} batch {size} axes {axes} to {out_axis}",
           [JH + ".batch_vmap", JH + "._lax_map",
            JH + "._tree_map_multi_output"], prove=prove, concrete=run,
           cross=2, search=10)
  run.unit = u
  return u


def source_unit(cls, shape):
  """Random sources: one draw per word, in order, taken modulo 2^32."""
  RS = "jaxite.jaxite_cggi.random_source"
  count = int(np.prod(shape))

  def prove(ob):
    import jax.numpy as jnp
    mod = repo(RS)
    T = repo(f"{RS}:{cls}")
    px = dict(jnp=nparr.NP(jnp, True))
    for fn in ("uniform", "rounded_normal", "sk_uniform"):
      for dt in (jnp.uint32, jnp.int32):
        if fn == "uniform" and dt == jnp.int32:
          continue
        def go(e, fn=fn, dt=dt):
          s = T(normal_std=5)
          s.rng = Draws(e)
          return s.rng.log, getattr(s, fn)(shape, dtype=dt)
        for p in pysym.explore(go, [mod], extra=px):
          t = f"{fn} {np.dtype(dt).name}"
          ob.true(f"{t}: does not raise", p.raised is None, repr(p.raised))
          if p.raised is not None:
            continue
          log, o = p.result
          ob.true(f"{t}: shape and one draw per word",
                  np.shape(o) == tuple(shape) and len(log) == count)
          if len(log) != count:
            continue
          lo, hi = {"uniform": (0, W - 1), "sk_uniform": (0, 1)}.get(
              fn, (None, None))
          for i, (x, d) in enumerate(zip(np.asarray(o, object).ravel(), log)):
            if fn == "rounded_normal":
              ob.true(f"{t}: draw {i} is normal about 0 of the given width",
                      d[0] == "n" and d[4:] == (0, 5))
            else:
              ob.true(f"{t}: draw {i} is uniform in its range",
                      d[:3] == ("u", lo, hi))
            ob.zero_mod(f"{t}: word {i} is draw {i}", p.c,
                        p.c.sub(pysym.val(x), pysym.val(d[3])), W)

  def run(rng, k, hints):
    import jax.numpy as jnp
    T = repo(f"{RS}:{cls}")

    class R:
      def __init__(self):
        self.log = []

      def randint(self, a, b):
        self.log.append(rng.choice([a, b, rng.randint(a, b)]))
        return self.log[-1]

      def normalvariate(self, mu, sigma):
        x = rng.uniform(-40, 40)
        self.log.append(round(x))
        return x
    for _ in range(k):
      for fn in ("uniform", "rounded_normal", "sk_uniform"):
        s = T()
        s.rng = R()
        run.unit.evals += 1
        o = np.asarray(getattr(s, fn)(shape, dtype=jnp.uint32))
        g = [int(x) for x in o.ravel()]
        top = 2 if fn == "sk_uniform" else W
        if o.shape != tuple(shape) or g != [x % W for x in s.rng.log] or (
            max(g, default=0) >= top):
          return dict(function=f"{cls}.{fn}", shape=str(shape), got=g,
                      draws=s.rng.log)
    return None
  u = Unit(f"random source {cls} shape {shape}", [
      f"{RS}.{cls}.{f}" for f in ("uniform", "rounded_normal", "sk_uniform")
  ] + [RS + "._shape_generator", RS + "._normalize_value"], prove=prove,
           concrete=run, cross=5, search=100,
           assumes=["quality and range of the underlying generator "
                    "(random.SystemRandom)"])
  run.unit = u
  return u


def units(tier):
  us = [source_unit(c, s) for c in ("SystemRandomSource", "PseudorandomSource")
        for s in ((3,), (2, 2), (1, 2, 2), ())]
  for n, log in ((1, 32), (2, 32), (3, 32), (3, 16), (2, 31), (4, 10)):
    us += [lwe_encrypt_unit(n, log), lwe_decrypt_unit(n, log),
           lwe_roundtrip_unit(n, log)]
  us.append(misc_unit())
  us += [batch_unit(5, 2, (0, 0, 0), 0), batch_unit(4, 2, 0, 0),
         batch_unit(3, 4, (0, 1, None), 0), batch_unit(7, 3, (None, 1, 0), 0),
         batch_unit(19, 10, 0, 0), batch_unit(40, 16, (0, 1, None), 0),
         batch_unit(9, 16, (0, 0, 0), 0), batch_unit(6, 4, (0, -1, 0), 0),
         batch_unit(5, 2, (0, 0, 0), -1), batch_unit(4, 4, (-1, -1, None), -1)]
  for k, n, log in ((1, 4, 32), (2, 4, 32), (3, 2, 32), (1, 8, 32),
                    (2, 2, 20), (1, 4, 31), (2, 2, 16)):
    us.append(rlwe_unit(k, n, log))
  for k, n, b, l in ((1, 4, 4, 3), (2, 4, 4, 2), (1, 2, 7, 3), (2, 2, 8, 1),
                     (3, 2, 3, 2)):
    us += [rgsw_unit(k, n, b, l), rgsw_decrypt_unit(k, n, b, l)]
  if tier == "thorough":
    for n in (8, 16, 64):
      us += [lwe_encrypt_unit(n, 32), lwe_decrypt_unit(n, 32)]
    for k, n in ((1, 16), (2, 16), (1, 32), (3, 8)):
      us.append(rlwe_unit(k, n, 32))
    for k, n, b, l in ((1, 16, 4, 6), (2, 8, 2, 5)):
      us += [rgsw_unit(k, n, b, l), rgsw_decrypt_unit(k, n, b, l)]
  us += [at_scale(u) for u in (
      lwe_encrypt_unit(700, 32), lwe_roundtrip_unit(700, 32),
      rlwe_unit(1, 512, 32), rlwe_unit(2, 1024, 32), rgsw_unit(1, 512, 4, 6),
      rgsw_decrypt_unit(1, 512, 4, 6))]
  return us
