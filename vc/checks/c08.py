"""C08: bootstrapping evaluates the lookup table at the rounded phase."""

import itertools
import random

import numpy as np

from vc import elem, jx, movement, ring, rngs
from vc.checks import c04
from vc.checks.c04 import (G, W, U, lst, lwe_key, rlwe_key, scalar, words,
                           dparams, dotpoly, dotpoly_int)
from vc.harness import Unit, at_scale, repo
from vc.jx import IntDom, sym_array

B = G + "bootstrap"
D = G + "decomposition"
T = G + "test_polynomial"


# -- specification pieces over the symbolic domain --------------------------
def wrap(c, v):
  return c.wrap(v, 32, False)


def digits(dom, ct, dp):
  """Digits of a ciphertext by the function C05 puts under contract."""
  flat, _, _ = jx.run_sym(
      lambda x: repo(D + ":decompose_rlwe_ciphertext")(x, dp), [(ct, U)], dom)
  return jx.to_obj(flat[0])


def ext_spec(dom, rgsw, ct, dp):
  c = dom.c
  d = digits(dom, ct, dp)
  rows, cols, n = rgsw.shape
  out = np.empty((cols, n), object)
  for j in range(cols):
    tot = [0] * n
    for r in range(rows):
      tot = [c.add(a, b) for a, b in
             zip(tot, ring.negacyclic(c, list(d[r]), list(rgsw[r, j])))]
    out[j] = tot
  return out


def mono_ct(c, ct, p):
  out = np.empty(ct.shape, object)
  for ix in np.ndindex(*ct.shape[:-1]):
    out[ix] = ring.monomial(c, list(ct[ix]), p)
  return out


def add_ct(c, a, b, sign=1):
  out = np.empty(a.shape, object)
  for ix in np.ndindex(*a.shape):
    out[ix] = c.add(a[ix], b[ix]) if sign > 0 else c.sub(a[ix], b[ix])
  return out


def wrap_ct(c, a):
  out = np.empty(a.shape, object)
  for ix in np.ndindex(*a.shape):
    out[ix] = wrap(c, a[ix])
  return out


def rotate_spec(dom, poly, idx, bsk, dp, bmmp):
  """acc <- X^-b P;  acc <- acc + ext(sum (X^p - 1) bsk, acc)  (idx concrete).
  """
  c = dom.c
  acc = wrap_ct(c, mono_ct(c, poly, -idx[-1]))
  n = len(idx) - 1
  for j in range(n // 2 if bmmp else n):
    if bmmp:
      f = None
      for t, p in enumerate((idx[2 * j] + idx[2 * j + 1], idx[2 * j],
                             idx[2 * j + 1])):
        g = add_ct(c, mono_ct(c, bsk[3 * j + t], p), bsk[3 * j + t], -1)
        f = g if f is None else add_ct(c, f, g)
      acc = wrap_ct(c, add_ct(c, acc, ext_spec(dom, wrap_ct(c, f), acc, dp)))
    else:
      diff = wrap_ct(c, add_ct(c, mono_ct(c, acc, idx[j]), acc, -1))
      acc = wrap_ct(c, add_ct(c, acc, ext_spec(dom, bsk[j], diff, dp)))
  return acc


def extract_spec(c, ct):
  k, n = ct.shape[0] - 1, ct.shape[1]
  out = []
  for i in range(k):
    for j in range(n):
      out.append(ct[i, 0] if j == 0 else c.neg(ct[i, n - j]))
  return out + [ct[k, 0]]


# -- concrete mirror ---------------------------------------------------------
def ext_int(rgsw, ct, dp):
  d = np.asarray(repo(D + ":decompose_rlwe_ciphertext")(
      np.asarray(ct, np.uint64).astype(U), dp))
  rows, cols, n = rgsw.shape
  out = np.zeros((cols, n), object)
  for j in range(cols):
    for r in range(rows):
      out[j] += np.array(ring.negacyclic_int(lst(d[r]), lst(rgsw[r, j])),
                         object)
  return out % W


def mono_int(ct, p):
  out = np.zeros(ct.shape, object)
  for ix in np.ndindex(*ct.shape[:-1]):
    out[ix] = ring.monomial_int([int(x) for x in ct[ix]], p, W)
  return out


def rotate_int(poly, idx, bsk, dp, bmmp):
  acc = mono_int(poly, -idx[-1])
  n = len(idx) - 1
  for j in range(n // 2 if bmmp else n):
    if bmmp:
      f = 0
      for t, p in enumerate((idx[2 * j] + idx[2 * j + 1], idx[2 * j],
                             idx[2 * j + 1])):
        f = f + mono_int(bsk[3 * j + t], p) - bsk[3 * j + t]
      acc = (acc + ext_int(f % W, acc, dp)) % W
    else:
      acc = (acc + ext_int(bsk[j], (mono_int(acc, idx[j]) - acc) % W,
                           dp)) % W
  return acc


def bat_of(mat):
  """The byte-expanded key the offline compile step must produce."""
  m = np.asarray(mat).astype(np.uint64)
  by = [((m >> np.uint64(8 * i)) & np.uint64(255)) for i in range(4)]
  out = np.zeros(m.shape + (4, 4), np.uint8)
  for i in range(4):
    for j in range(i + 1):
      out[..., i, j] = by[i - j]
  return out


def bat_sym(dom, mat):
  out = np.zeros(mat.shape + (4, 4), object)
  for ix in np.ndindex(*mat.shape):
    by = dom.bytes_of(mat[ix], 32, 8)
    for i in range(4):
      for j in range(i + 1):
        out[ix + (i, j)] = by[i - j]
  return out


# -- units --------------------------------------------------------------------
def ext_unit(k, n, b, l, bat=False):
  dp = lambda: dparams(b, l)
  rows = (k + 1) * l

  def prove(ob):
    fn = repo(B + ":jit_external_product")
    dom = IntDom()
    c = dom.c
    g = sym_array(dom, "g", (rows, k + 1, n), U)
    ct = sym_array(dom, "c", (k + 1, n), U)
    arg = (bat_sym(dom, g), np.uint8) if bat else (g, U)
    flat, _, _ = jx.run_sym(lambda x, y: fn(x, y, dp(), bat),
                            [arg, (ct, U)], dom)
    o = jx.to_obj(flat[0])
    want = ext_spec(dom, g, ct, dp())
    ob.true("shape", o.shape == want.shape, str(o.shape))
    for ix in np.ndindex(*want.shape):
      ob.zero_mod(f"coefficient {ix} = sum of digit times key row", c,
                  c.sub(o[ix], want[ix]), W)
    # phase, with an RGSW ciphertext that satisfies the contract of encrypt
    dom = IntDom()
    c = dom.c
    s = sym_array(dom, "s", (k, n), U)
    m = dom.input("m", U)
    A = sym_array(dom, "A", (rows, k, n), U)
    e = sym_array(dom, "e", (rows, n), U)
    ct = sym_array(dom, "c", (k + 1, n), U)
    g = np.empty((rows, k + 1, n), object)
    for blk in range(k + 1):
      for lev in range(l):
        r = blk * l + lev
        g[r, :k] = A[r]
        dpoly = dotpoly(c, A[r], s)
        for i in range(n):
          g[r, k, i] = wrap(c, c.add(dpoly[i], e[r, i]))
        g[r, blk, 0] = wrap(c, c.add(g[r, blk, 0],
                                     c.mul(m, 1 << (32 - b * (lev + 1)))))
    arg = (bat_sym(dom, g), np.uint8) if bat else (g, U)
    flat, _, _ = jx.run_sym(lambda x, y: fn(x, y, dp(), bat),
                            [arg, (ct, U)], dom)
    o = jx.to_obj(flat[0])
    dpoly = dotpoly(c, o[:k], s)
    d = digits(dom, ct, dp())
    rec = np.empty((k + 1, n), object)
    for blk in range(k + 1):
      for i in range(n):
        rec[blk, i] = c.total([c.mul(d[blk * l + lev, i],
                                     1 << (32 - b * (lev + 1)))
                               for lev in range(l)])
    rp = dotpoly(c, rec[:k], s)
    noise = dotpoly(c, d, e)
    for i in range(n):
      ph = c.sub(o[k, i], dpoly[i])
      want = c.add(c.mul(m, c.sub(rec[k, i], rp[i])), noise[i])
      ob.zero_mod(f"phase {i} = m * phase(recomposed input) + digit noise",
                  c, c.sub(ph, want), W)

  def run(rng, cnt, hints):
    fn = repo(B + ":jit_external_product")
    for _ in range(cnt):
      g, ct = words(rng, (rows, k + 1, n)), words(rng, (k + 1, n))
      run.unit.evals += 1
      run.unit.last_inputs = dict(rgsw=g.tolist(), rlwe=ct.tolist())
      got = np.asarray(fn(bat_of(g) if bat else g, ct, dp(), bat)).astype(
          object) % W
      want = ext_int(g, ct, dp())
      if got.shape != want.shape or (got != want).any():
        return dict(function="jit_external_product", rgsw=g.tolist(),
                    rlwe=ct.tolist(), log_base=b, levels=l, use_bat=bat,
                    got=got.tolist(), want=want.tolist())
    return None
  u = Unit(f"external product k={k} N={n} base 2^{b} levels {l}"
           + (" bat" if bat else ""),
           [B + ".external_product", B + ".jit_external_product"],
           prove=prove, concrete=run, cross=4, search=80)
  run.unit = u
  return u


def rlwe_ct(msg, n):
  return repo(G + "rlwe:RlweCiphertext")(
      log_coefficient_modulus=32, modulus_degree=n, message=msg)


def rgsw_ct(msg, n):
  return repo(G + "rgsw:RgswCiphertext")(
      message=msg, log_coefficient_modulus=32, modulus_degree=n)


def cmux_unit(k, n, b, l, bat=False):
  rows = (k + 1) * l
  dp = lambda: dparams(b, l)

  def call(g, x, y):
    BB = repo(B)
    # the wrapper compares moduli on the host, which only needs the metadata
    if bat:
      return BB.jit_cmux(g, x, y, dp(), bat)
    return BB.cmux(rgsw_ct(g, n), rlwe_ct(x, n), rlwe_ct(y, n), dp(),
                   bat).message

  def prove(ob):
    dom = IntDom()
    c = dom.c
    g = sym_array(dom, "g", (rows, k + 1, n), U)
    x = sym_array(dom, "x", (k + 1, n), U)
    y = sym_array(dom, "y", (k + 1, n), U)
    arg = (bat_sym(dom, g), np.uint8) if bat else (g, U)
    ps = elem.int_paths(call, [arg, (x, U), (y, U)], dom)
    ob.true("one outcome", len(ps) == 1 and ps[0][2] is None and
            not ps[0][0])
    o = jx.to_obj(ps[0][1][0])
    want = add_ct(c, x, ext_spec(dom, g, wrap_ct(c, add_ct(c, y, x, -1)),
                                 dp()))
    for ix in np.ndindex(*want.shape):
      ob.zero_mod(f"coefficient {ix} = eq_zero + control*(neq - eq)", c,
                  c.sub(o[ix], want[ix]), W)
    flat, _, _ = jx.run_sym(
        lambda gg, cc: repo(B + ":external_product")(
            rgsw_ct(gg, n), rlwe_ct(cc, n), dp()).message,
        [(g, U), (x, U)], dom)
    o = jx.to_obj(flat[0])
    want = ext_spec(dom, g, x, dp())
    for ix in np.ndindex(*want.shape):
      ob.zero_mod(f"external_product coefficient {ix}", c,
                  c.sub(o[ix], want[ix]), W)

  def run(rng, cnt, hints):
    for _ in range(cnt):
      g = words(rng, (rows, k + 1, n))
      x, y = words(rng, (k + 1, n)), words(rng, (k + 1, n))
      run.unit.evals += 1
      got = np.asarray(call(bat_of(g) if bat else g, x, y)).astype(object) % W
      want = (x.astype(object) + ext_int(
          g, (y.astype(object) - x.astype(object)) % W, dp())) % W
      if (got != want).any():
        return dict(function="cmux", control=g.tolist(), eq_zero=x.tolist(),
                    neq_zero=y.tolist(), log_base=b, levels=l)
    return None
  u = Unit(f"cmux k={k} N={n} base 2^{b} levels {l}" + (" bat" if bat else
                                                        ""),
           [B + ".cmux", B + ".jit_cmux", B + ".external_product"],
           prove=prove, concrete=run, cross=4, search=80)
  run.unit = u
  return u


def rotate_unit(k, n, b, l, dim, bmmp, bat, combos, tag):
  rows = (k + 1) * l
  nb = dim // 2 * 3 if bmmp else dim
  dp = lambda: dparams(b, l)

  def key_obj(data):
    return repo(B + ":BootstrappingKey")(
        encrypted_lwe_sk_bits=data, use_bmmp=bmmp, use_bat=bat)

  def call(p, i, g):
    return repo(B + ":blind_rotate")(rlwe_ct(p, n), i, key_obj(g),
                                     dp()).message

  def prove(ob):
    closed = None
    for idx in combos:
      dom = IntDom()
      c = dom.c
      ob.info = dict(idx=list(idx))
      poly = sym_array(dom, "p", (k + 1, n), U)
      bsk = sym_array(dom, "g", (nb, rows, k + 1, n), U)
      arg = (bat_sym(dom, bsk), np.uint8) if bat else (bsk, U)
      ii = np.array(idx, U)
      if closed is None:
        closed = jx.trace(call, (poly.shape, U), (ii.shape, U),
                          (arg[0].shape, arg[1]))
      flat = jx.Interp(dom).run(closed, [poly, ii, arg[0]])
      o = jx.to_obj(flat[0])
      want = rotate_spec(dom, poly, idx, bsk, dp(), bmmp)
      ob.true(f"index {idx}: shape", o.shape == want.shape)
      for ix in np.ndindex(*want.shape):
        ob.zero_mod(f"index {idx}: accumulator coefficient {ix}", c,
                    c.sub(o[ix], want[ix]), W)

  def run(rng, cnt, hints):
    for t in range(cnt):
      h = hints[t] if t < len(hints) else {}
      idx = h.get("idx") or [rng.choice([rng.randrange(2 * n), 0, n,
                                         2 * n - 1]) for _ in range(dim + 1)]
      poly = words(rng, (k + 1, n))
      bsk = words(rng, (nb, rows, k + 1, n))
      run.unit.evals += 1
      run.unit.last_inputs = dict(index=idx)
      got = np.asarray(call(poly, np.array(idx, U),
                            bat_of(bsk) if bat else bsk)).astype(object) % W
      want = rotate_int(poly.astype(object), idx, bsk.astype(object), dp(),
                        bmmp)
      if got.shape != want.shape or (got != want).any():
        return dict(function="blind_rotate", index=idx, N=n, k=k,
                    use_bmmp=bmmp, use_bat=bat, log_base=b, levels=l,
                    poly=poly.tolist(), got=got.tolist(), want=want.tolist())
    return None
  u = Unit(f"blind rotation k={k} N={n} dim={dim} base 2^{b} levels {l} "
           f"bmmp={bmmp} bat={bat} {tag}",
           [B + ".blind_rotate", B + ".jit_blind_rotate"], prove=prove,
           concrete=run, cross=3, search=60)
  run.unit = u
  return u


def long_rotate_unit(dim, bmmp, n=2):
  """Loops of every length class (the unrolled one included): symbolic keys and
  accumulators, a fixed index vector."""
  r = random.Random(dim)
  idx = tuple(r.randrange(2 * n) for _ in range(dim + 1))
  return rotate_unit(1, n, 4, 1, dim, bmmp, False, [idx], f"length {dim}")


def extract_unit(k, n):
  def call(x):
    return repo(B + ":sample_extract")(rlwe_ct(x, n))

  def prove_large(ob):
    # both functions only move and negate words: their selections decide
    o = movement.selection(call, [(k + 1, n)], U)[0].ravel()
    f = movement.selection(
        lambda x: repo(G + "rlwe:flatten_key")(rlwe_key(x, 32)).key_data,
        [(k, n)], U)[0].ravel()
    ob.true("length", o.shape == (k * n + 1,) and f.shape == (k * n,))
    ob.true("body is the constant coefficient", o[k * n] == k * n + 1)
    ob.true("every key word is used once",
            sorted(f.tolist()) == list(range(1, k * n + 1)))
    j, t = (f - 1) // n, (f - 1) % n
    want = np.where(t == 0, j * n + 1, -(j * n + (n - t) + 1))
    ob.true("every key word meets its signed mask word",
            bool((o[:k * n] == want).all()),
            str(np.nonzero(o[:k * n] != want)[0][:5]))

  def prove(ob):
    if n > 64:
      return prove_large(ob)
    dom = IntDom()
    c = dom.c
    ct = sym_array(dom, "c", (k + 1, n), U)
    s = sym_array(dom, "s", (k, n), U)
    flat, _, _ = jx.run_sym(call, [(ct, U)], dom)
    o = jx.to_obj(flat[0])
    ob.true("length", o.shape == (k * n + 1,), str(o.shape))
    # phase under the flattened key equals the constant coefficient
    fl, _, _ = jx.run_sym(
        lambda x: repo(G + "rlwe:flatten_key")(rlwe_key(x, 32)).key_data,
        [(s, U)], dom)
    fk = jx.to_obj(fl[0])
    ph = c.sub(o[k * n], c.dot(list(o[:k * n]), list(fk)))
    want = c.sub(ct[k, 0], dotpoly(c, ct[:k], s)[0])
    ob.zero_mod("phase = constant coefficient of the RLWE phase", c,
                c.sub(ph, want), W)

  def run(rng, cnt, hints):
    for _ in range(cnt):
      ct = words(rng, (k + 1, n))
      s = words(rng, (k, n))
      run.unit.evals += 1
      o = lst(call(ct))
      fk = lst(repo(G + "rlwe:flatten_key")(rlwe_key(s, 32)).key_data)
      ph = (o[-1] - sum(a * b for a, b in zip(o, fk))) % W
      want = (int(ct[k, 0]) - dotpoly_int(ct[:k], s, W)[0]) % W
      if ph != want:
        return dict(function="sample_extract", ciphertext=ct.tolist(),
                    key=s.tolist(), phase=ph, want=want)
    return None
  u = Unit(f"sample extraction k={k} N={n}",
           [B + ".sample_extract", B + ".jit_sample_extract"], prove=prove,
           concrete=run, cross=8, search=200)
  run.unit = u
  return u


def expected_bits(c, s, bmmp):
  if not bmmp:
    return list(s)
  out = []
  for i in range(0, len(s), 2):
    a, b = s[i], s[i + 1]
    na, nb_ = c.sub(1, a), c.sub(1, b)
    out += [c.mul(a, b), c.mul(a, nb_), c.mul(na, b)]
  return out


def bsk_unit(dim, k, n, b, l, bmmp, bat):
  rows = (k + 1) * l

  def gen(prg, ls, rs):
    R = repo(G + "rgsw")
    key = repo(B + ":gen_bootstrapping_key")(
        lwe_key(ls, 32), R.RgswSecretKey(key=rlwe_key(rs, 32)),
        dparams(b, l), prg, use_bmmp=bmmp, use_bat=bat)
    gen.meta = (bool(key.use_bmmp), bool(key.use_bat))
    return key.encrypted_lwe_sk_bits

  want_bat = bat and not bmmp

  def prove(ob):
    dom = IntDom()
    c = dom.c
    ls = sym_array(dom, "ls", (dim,), U, 0, 1)
    rs = sym_array(dom, "rs", (k, n), U)
    flat, draws = rngs.run(gen, [(ls, U), (rs, U)], dom)
    o = jx.to_obj(flat[0])
    bits = expected_bits(c, list(ls), bmmp)
    ob.true("flags", gen.meta == (bmmp, want_bat), str(gen.meta))
    shape = (len(bits), rows, k + 1, n)
    if want_bat:
      ob.true("shape", o.shape == shape + (4, 4), str(o.shape))
      plain = np.empty(shape, object)
      for ix in np.ndindex(*shape):
        x = o[ix]
        v = c.total([c.mul(x[i, 0], 1 << (8 * i)) for i in range(4)])
        plain[ix] = v
        for i in range(4):
          for j in range(4):
            w = x[i - j, 0] if i >= j else 0
            ob.eq(f"byte matrix {ix} entry {i},{j}", c, x[i, j], w)
      o = plain
    ob.true("key shape", o.shape == shape, str(o.shape))
    masks = []
    for t, m in enumerate(bits):
      for blk in range(k + 1):
        for lev in range(l):
          row = o[t, blk * l + lev].copy()
          row[blk, 0] = c.sub(row[blk, 0],
                              c.mul(m, 1 << (32 - b * (lev + 1))))
          dp = dotpoly(c, row[:k], rs)
          for i in range(n):
            c04.is_normal(ob, c, f"key {t} row {blk},{lev} coefficient {i}: "
                          "RGSW equation of its key bit product",
                          c.sub(row[k, i], dp[i]), draws, W)
          masks += list(row[:k].ravel())
    if not want_bat:
      c04.masks_fresh(ob, c, "bootstrapping key", masks, draws)

  def run(rng, cnt, hints):
    class IntC:
      sub = staticmethod(lambda a, b: a - b)
      mul = staticmethod(lambda a, b: a * b)
    for _ in range(cnt):
      ls = np.array([rng.getrandbits(1) for _ in range(dim)], U)
      rs = words(rng, (k, n))
      prg, log_ = rngs.concrete(rngs.random_values(rng))
      run.unit.evals += 1
      o = np.asarray(gen(prg, ls, rs))
      if want_bat:
        oo = sum(o[..., i, 0].astype(object) << (8 * i) for i in range(4))
        if (bat_of(oo) != o).any():
          return dict(function="gen_bootstrapping_key", what="byte expansion")
        o = oo
      es = {x for kk, v in log_ if kk == "normal" for x in lst(v)}
      bits = expected_bits(IntC, [int(x) for x in ls], bmmp)
      if o.shape != (len(bits), rows, k + 1, n):
        return dict(function="gen_bootstrapping_key", shape=o.shape,
                    want=(len(bits), rows, k + 1, n))
      for t, m in enumerate(bits):
        for blk in range(k + 1):
          for lev in range(l):
            row = o[t, blk * l + lev].astype(object)
            row[blk, 0] -= m << (32 - b * (lev + 1))
            dp = dotpoly_int(row[:k], rs, W)
            if any((int(x) - y) % W not in es for x, y in zip(row[k], dp)):
              return dict(function="gen_bootstrapping_key", lwe_key=lst(ls),
                          rlwe_key=rs.tolist(), entry=t, block=blk,
                          level=lev, use_bmmp=bmmp, log_base=b, levels=l)
    return None
  u = Unit(f"gen_bootstrapping_key dim={dim} k={k} N={n} base 2^{b} levels "
           f"{l} bmmp={bmmp} bat={bat}", [B + ".gen_bootstrapping_key"],
           prove=prove, concrete=run, cross=2, search=25)
  run.unit = u
  return u


def selector_lemma_unit():
  """The three selected factors of a key pair multiply by X^(a0 s0 + a1 s1)."""
  def prove(ob):
    dom = IntDom()
    c = dom.c
    s0, s1 = c.var("s0", 0, 1), c.var("s1", 0, 1)
    n = 4
    for a0 in range(2 * n):
      for a1 in range(2 * n):
        bits = expected_bits(c, [s0, s1], True)
        one = [1] + [0] * (n - 1)
        tot = list(one)
        for bit, p in zip(bits, (a0 + a1, a0, a1)):
          m = ring.monomial_int(one, p)
          tot = [c.add(t, c.mul(bit, x - y)) for t, x, y in
                 zip(tot, m, one)]
        # X^(a0 s0 + a1 s1) by cases on the key bits
        want = [0] * n
        for v0 in (0, 1):
          for v1 in (0, 1):
            ind = c.mul(s0 if v0 else c.sub(1, s0),
                        s1 if v1 else c.sub(1, s1))
            m = ring.monomial_int(one, a0 * v0 + a1 * v1)
            want = [c.add(w, c.mul(ind, x)) for w, x in zip(want, m)]
        for i in range(n):
          ob.eq(f"a=({a0},{a1}) coefficient {i}", c, tot[i], want[i])
  return Unit("lemma: key-pair factor is the selected monomial", [],
              prove=prove, concrete=lambda rng, n, h: None)


def testpoly_unit(cases, tag):
  def params(msg, pad, n, total=32, k=1):
    return (c04.enc_params(total, msg, pad),
            repo(G + "parameters:SchemeParameters")(
                lwe_dimension=4, plaintext_modulus=1 << total,
                rlwe_dimension=k, polynomial_modulus_degree=n))

  def lookup_index(J, n, bw, size):
    """(table entry, sign) read at rotation J in [0, 2N)."""
    half = bw // 2
    # rotation J reads coefficient J of P (negated beyond N)
    m, r = divmod(J + half, bw)
    return m

  def prove(ob):
    for msg, pad, n in cases:
      tag2 = f"message {msg} padding {pad} N={n}"
      ob.info = dict(case=(msg, pad, n))
      ep, sp = params(msg, pad, n)
      dom = IntDom()
      c = dom.c
      size = 1 << msg
      t = sym_array(dom, "t", (size,), U, 0, size - 1)
      ps = elem.int_paths(
          lambda x: repo(T + ":gen_and_encrypt")(x, ep, sp).message,
          [(t, U)], dom, [repo(G + "encoding")])
      ps = [p for p in ps]
      ob.true(f"{tag2}: accepted without a host branch", len(ps) == 1
              and ps[0][2] is None and not ps[0][0],
              str([(p[0], p[2]) for p in ps])[:300])
      o = jx.to_obj(ps[0][1][0])
      ob.true(f"{tag2}: trivial ciphertext shape", o.shape == (2, n))
      for i in range(n):
        ob.eq(f"{tag2}: mask coefficient {i} is zero", c, o[0, i], 0)
      bw = n // size
      half = bw // 2
      err = 32 - msg - pad
      for m in range(size):
        for d in range(-half, bw - half):
          J = (m * bw + d) % (2 * n)
          v = ring.monomial(c, list(o[1]), -J)[0]
          ob.zero_mod(f"{tag2}: rotation {J} reads table entry {m}", c,
                      c.sub(v, c.mul(t[m], 1 << err)), W)

  def run(rng, cnt, hints):
    for q in range(cnt):
      h = hints[q] if q < len(hints) else {}
      msg, pad, n = h.get("case") or rng.choice(cases)
      ep, sp = params(msg, pad, n)
      size = 1 << msg
      t = [rng.randrange(size) for _ in range(size)]
      run.unit.evals += 1
      run.unit.last_inputs = dict(table=t, message_bits=msg, padding_bits=pad,
                                  N=n)
      o = np.asarray(repo(T + ":gen_and_encrypt")(
          np.array(t, U), ep, sp).message)
      bw = n // size
      half = bw // 2
      if o[0].any():
        return dict(function="trivial_encryption", table=t)
      for m in range(size):
        for d in range(-half, bw - half):
          J = (m * bw + d) % (2 * n)
          v = ring.monomial_int(lst(o[1]), -J, W)[0]
          if v != t[m] << (32 - msg - pad):
            return dict(function="gen_test_polynomial", table=t, rotation=J,
                        got=v, want=t[m] << (32 - msg - pad),
                        message_bits=msg, padding_bits=pad, N=n)
      idp = lst(repo(T + ":identity_test_polynomial")(ep, sp).message)
      ref = lst(repo(T + ":gen_test_polynomial")(
          np.arange(size, dtype=U), ep, sp).message)
      if idp != ref:
        return dict(function="identity_test_polynomial", message_bits=msg,
                    padding_bits=pad, N=n)
    return None
  u = Unit(f"test polynomial lookup {tag}",
           [T + ".gen_test_polynomial", T + "._pad_for_error",
            T + ".trivial_encryption", T + ".gen_and_encrypt",
            T + ".identity_test_polynomial"], prove=prove, concrete=run,
           cross=6, search=80)
  run.unit = u
  return u


def inner(closed, name):
  """The jaxpr of the call of that name."""
  todo = [closed.jaxpr]
  while todo:
    j = todo.pop()
    for e in j.eqns:
      sub = e.params.get("jaxpr") or e.params.get("call_jaxpr")
      if sub is None:
        continue
      if e.params.get("name") == name:
        return sub
      todo.append(getattr(sub, "jaxpr", sub))
  raise jx.Unsupported(f"no call of {name}")


def norm_jaxpr(closed):
  return str(getattr(closed, "jaxpr", closed))


STAGES = ["initial", "approx_ciphertext", "rotated", "extracted",
          "key_switched"]


def bootstrap_unit(k, n, b, l, kb, kl, bmmp, jit, combos, tag, cb=False):
  """Whole bootstrap for every ciphertext in each rounding class."""
  dim = 2
  rows = (k + 1) * l
  nb = 3 if bmmp else 2
  log2n = (2 * n).bit_length() - 1
  step = 1 << (32 - log2n)

  def sp():
    return repo(G + "parameters:SchemeParameters")(
        lwe_dimension=dim, plaintext_modulus=1 << 32, rlwe_dimension=k,
        polynomial_modulus_degree=n)

  def call(ct, p, g, ks):
    BB = repo(B)
    if jit:
      return BB.jit_bootstrap(ct, p, g, ks, dparams(kb, kl), dparams(b, l),
                              sp(), bmmp, False)
    key = BB.BootstrappingKey(encrypted_lwe_sk_bits=g, use_bmmp=bmmp,
                              use_bat=False)
    kso = repo(G + "key_switch:LweKeySwitchingKey")(
        modulus=0, lwe_dimension=dim, decomposition_log_base=kb,
        decomposition_level_count=kl, lwe_size=dim + 1, key_data=ks)
    if not cb:
      return BB.bootstrap(ct, rlwe_ct(p, n), key, kso, dparams(kb, kl),
                          dparams(b, l), sp())
    seen = []
    out = BB.bootstrap(ct, rlwe_ct(p, n), key, kso, dparams(kb, kl),
                       dparams(b, l), sp(), lambda stage, value, **kw:
                       seen.append((stage, value, kw)), note=7)
    stages[:] = [(s, kw) for s, _, kw in seen]
    return [out] + [v for _, v, _ in seen]

  def expected(name, avals):
    """The callee's body at the parameters the caller must pass it."""
    key = (name, tuple(str(v) for v in avals))
    if key not in exp_cache:
      BB = repo(B)
      fn = dict(
          jit_blind_rotate=lambda x, i, y: BB.jit_blind_rotate(
              x, i, y, 32, dparams(b, l), bmmp, False),
          jit_sample_extract=lambda x: BB.jit_sample_extract(x, n),
          jit_switch_key=lambda x, y: repo(G + "key_switch:jit_switch_key")(
              x, y, kl, kb))[name]
      import jax
      cl = jax.make_jaxpr(fn)(*[jax.ShapeDtypeStruct(
          v.shape, v.dtype, weak_type=v.weak_type) for v in avals])
      exp_cache[key] = norm_jaxpr(inner(cl, name))
    return exp_cache[key]

  exp_cache = {}
  stages = []

  def prove(ob):
    closed = None
    for idx in combos:
      dom = IntDom()
      c = dom.c
      ob.info = dict(idx=list(idx))
      ct = np.empty((dim + 1,), object)
      for i, v in enumerate(idx):
        # all words that round to v (the class of 0 in two pieces)
        if v >= 0:
          lo = 0 if v == 0 else v * step - step // 2
          hi = v * step + step // 2 - 1
        else:
          lo, hi = W - step // 2, W - 1
        ct[i] = dom.input(f"ct{i}", U, lo, hi)
      cls = [max(v, 0) for v in idx]
      p = sym_array(dom, "p", (k + 1, n), U)
      p[:k] = 0
      g = sym_array(dom, "g", (nb, rows, k + 1, n), U)
      ks = sym_array(dom, "ks", (k * n, kl, dim + 1), U)
      if closed is None:
        closed = jx.trace(call, (ct.shape, U), (p.shape, U), (g.shape, U),
                          (ks.shape, U))
      calls = []

      def opaque(name):
        def h(interp, closed_, ins):
          if norm_jaxpr(closed_) != expected(name, closed_.in_avals):
            return None  # not the function under contract: inline it
          av = closed_.out_avals[0]
          out = sym_array(dom, f"{name}{len(calls)}", av.shape, av.dtype)
          calls.append((name, ins, out))
          return [out]
        return h

      it = jx.Interp(dom, contracts={
          k_: opaque(k_) for k_ in ("jit_blind_rotate", "jit_sample_extract",
                                    "jit_switch_key")})
      flat = it.run(closed, [ct, p, g, ks])
      o = jx.to_obj(flat[0])
      ob.true(f"class {idx}: rotation, extraction and key switch each called "
              "once, in order", [x[0] for x in calls] ==
              ["jit_blind_rotate", "jit_sample_extract", "jit_switch_key"],
              str([x[0] for x in calls]))
      if len(calls) != 3:
        continue
      rot, ext, sw = calls

      def same(name, got, want):
        got, want = jx.to_obj(got), jx.to_obj(want)
        ob.true(f"class {idx}: {name} shape", got.shape == want.shape)
        for ix in np.ndindex(*want.shape):
          ob.eq(f"class {idx}: {name} {ix}", c, got[ix], want[ix])
      same("rotated polynomial", rot[1][0], p)
      same("rounded ciphertext", rot[1][1], np.array(cls))
      same("bootstrapping key", rot[1][2], g)
      same("extracted accumulator", ext[1][0], rot[2])
      same("key switching key", sw[1][0], ks)
      same("switched ciphertext", sw[1][1], ext[2])
      same("result", o, sw[2])
      if cb:
        ob.true(f"class {idx}: the callback sees every stage once, in order, "
                "with the caller's keywords",
                stages == [(x, dict(note=7)) for x in STAGES], str(stages))
        if len(flat) == 6:
          for nm, got, want in zip(STAGES, flat[1:], (
              ct, np.array(cls), rot[2], ext[2], sw[2])):
            same(f"value observed at {nm}", got, want)

  def run(rng, cnt, hints):
    for t in range(cnt):
      h = hints[t] if t < len(hints) else {}
      idx = h.get("idx") or [rng.randrange(2 * n) for _ in range(dim + 1)]
      ct = np.array([(max(v, 0) * step + rng.randrange(-(step // 2) + 1,
                                                       step // 2)) % W
                     for v in idx], U)
      cls = [max(v, 0) for v in idx]
      p = words(rng, (k + 1, n))
      p[:k] = 0
      g = words(rng, (nb, rows, k + 1, n))
      ks = words(rng, (k * n, kl, dim + 1))
      run.unit.evals += 1
      run.unit.last_inputs = dict(ciphertext=lst(ct))
      got = call(ct, p, g, ks)
      if cb:
        if [x for x, _ in stages] != STAGES or lst(got[1]) != lst(ct) or \
            lst(got[2]) != [v % (2 * n) for v in cls] or \
            lst(got[5]) != lst(got[0]):
          return dict(function="bootstrap callback", stages=str(stages),
                      ciphertext=lst(ct), observed=[lst(x) for x in got])
        got = got[0]
      got = lst(got)
      acc = rotate_int(p.astype(object), cls, g.astype(object), dparams(b, l),
                       bmmp)

      class IntC:
        neg = staticmethod(lambda a: -a)
      ex = [int(x) % W for x in extract_spec(IntC, acc)]
      want = [0] * dim + [ex[-1]]
      for i in range(k * n):
        d = lst(repo(D + ":signed_decomposition")(U(ex[i]), kb, kl))
        for j in range(dim + 1):
          want[j] -= sum(x * int(y) for x, y in zip(d, ks[i, :, j]))
      want = [x % W for x in want]
      if got != want:
        return dict(function="bootstrap", jit=jit, ciphertext=lst(ct),
                    test_polynomial=p.tolist(), bsk=g.tolist(),
                    ksk=ks.tolist(), got=got, want=want)
    return None
  u = Unit(f"bootstrap k={k} N={n} bmmp={bmmp} "
           + ("jit_bootstrap" if jit else "bootstrap") + f" {tag}"
           + (" observed by a callback" if cb else ""),
           [B + (".jit_bootstrap" if jit else ".bootstrap")], prove=prove,
           concrete=run, cross=3, search=40)
  run.unit = u
  return u


def units(tier):
  us = []
  for k, n, b, l in ((1, 2, 4, 3), (1, 4, 4, 2), (2, 2, 7, 2), (1, 4, 8, 1),
                     (2, 4, 3, 1)):
    us.append(ext_unit(k, n, b, l))
  us.append(ext_unit(1, 2, 4, 2, bat=True))
  us += [cmux_unit(1, 2, 4, 2), cmux_unit(2, 2, 5, 1),
         cmux_unit(1, 4, 4, 2, bat=True)]
  for k, n in ((1, 2), (1, 8), (2, 4), (3, 4), (1, 16), (1, 1024),
               (3, 512)):
    us.append(extract_unit(k, n))
  full2 = list(itertools.product(range(4), repeat=3))
  for part in range(4):
    us.append(rotate_unit(1, 2, 4, 2, 2, True, False, full2[part::4],
                          f"indices part {part}"))
    us.append(rotate_unit(1, 2, 4, 1, 2, False, False, full2[part::4],
                          f"indices part {part}"))
  # N=4: every value of every index, one step
  one = [(v, b) for v in range(8) for b in range(8)]
  for part in range(3):
    us.append(rotate_unit(1, 4, 4, 1, 1, False, False, one[part::3],
                          f"indices part {part}"))
  two = [(a, b, (3 * a + 5 * b) % 8) for a in range(8) for b in range(8)]
  for part in range(6):
    us.append(rotate_unit(1, 4, 4, 1, 2, True, False, two[part::6],
                          f"indices part {part}"))
  us.append(rotate_unit(2, 2, 4, 1, 2, True, False,
                        [(a, (a + b) % 4, b) for a in range(4)
                         for b in (1, 2)], "indices sample"))
  us.append(rotate_unit(1, 2, 4, 1, 1, False, True,
                        list(itertools.product(range(4), repeat=2)),
                        "indices"))
  us.append(rotate_unit(1, 2, 4, 1, 4, True, False,
                        [(1, 2, 3, 1, 2), (0, 3, 2, 0, 1), (3, 3, 1, 2, 0)],
                        "two steps"))
  for dim, bm in ((16, True), (8, False), (6, True), (32, True), (5, False),
                  (16, False), (40, True), (37, False), (74, True)):
    us.append(long_rotate_unit(dim, bm))
  us += [long_rotate_unit(18, True, 4), long_rotate_unit(9, False, 4)]
  us.append(selector_lemma_unit())
  us += [bsk_unit(2, 1, 2, 4, 2, True, False),
         bsk_unit(4, 1, 2, 4, 1, False, False),
         bsk_unit(14, 1, 2, 4, 1, True, False),
         bsk_unit(2, 2, 2, 5, 1, True, True),
         bsk_unit(2, 1, 2, 4, 1, False, True),
         bsk_unit(22, 1, 2, 8, 1, False, False),
         bsk_unit(74, 1, 2, 4, 1, True, False)]
  tp = [(m, p, n) for m in (1, 2, 3, 4) for p in (0, 1, 2, 3)
        for n in (4, 8, 16, 32, 64, 128) if n >= 1 << m]
  for part in range(4):
    us.append(testpoly_unit(tp[part::4], f"{len(tp[part::4])} shapes, group "
                                         f"{part}"))
  # bootstrap: every rounding class of (a0, a1, b), class 0 in both pieces
  cl = [-1, 0, 1, 2, 3]
  allc = list(itertools.product(cl, repeat=3))
  for jit in (True, False):
    for part in range(4):
      us.append(bootstrap_unit(1, 2, 4, 1, 4, 2, True, jit, allc[part::4],
                               f"classes part {part}"))
    us.append(bootstrap_unit(1, 2, 4, 1, 5, 1, False, jit, allc[::9],
                             "class sample"))
  us.append(bootstrap_unit(1, 2, 4, 1, 4, 2, True, False, allc[::7],
                           "class sample", cb=True))
  for jit in (True, False):
    us.append(bootstrap_unit(1, 2, 4, 1, 4, 7, True, jit, allc[3::31],
                             "class sample"))
    us.append(bootstrap_unit(1, 2, 5, 4, 6, 1, True, jit, allc[5::40],
                             "class sample"))
  if tier == "thorough":
    for part in range(8):
      us.append(rotate_unit(1, 4, 4, 2, 2, True, False,
                            list(itertools.product(range(8), repeat=3))
                            [part::8], f"all indices part {part}"))
    us += [ext_unit(1, 8, 4, 3), ext_unit(2, 8, 4, 2), cmux_unit(2, 8, 4, 2),
           bsk_unit(10, 2, 4, 4, 3, True, False),
           extract_unit(1, 64), extract_unit(3, 32)]
  us += [at_scale(ext_unit(1, 512, 4, 6)), at_scale(cmux_unit(1, 512, 4, 6)),
         at_scale(bsk_unit(4, 1, 64, 4, 2, True, False))]
  return us
