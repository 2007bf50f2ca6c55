"""C07: key switching and modulus switching preserve the message."""

import numpy as np

from vc import jx, rngs
from vc.checks import c04, c06
from vc.checks.c04 import G, W, U, lst, lwe_key, scalar, word, words
from vc.harness import Unit, at_scale, repo
from vc.jx import IntDom, sym_array

KS = G + "key_switch"
D = G + "decomposition"


def gen_key_unit(n_in, n_out, b, l, log=32):
  mod = 1 << log

  def gen(prg, si, so):
    return repo(KS + ":gen_key")(c04.dparams(b, l), prg, lwe_key(si, 32),
                                 lwe_key(so, log))

  def prove(ob):
    dom = IntDom()
    c = dom.c
    si = sym_array(dom, "si", (n_in,), U)
    so = sym_array(dom, "so", (n_out,), U)
    meta = {}

    def f(prg, a, z):
      k = gen(prg, a, z)
      meta["m"] = (int(k.lwe_dimension), int(k.decomposition_log_base),
                   int(k.decomposition_level_count), int(k.lwe_size))
      return k.key_data
    flat, draws = rngs.run(f, [(si, U), (so, U)], dom)
    o = jx.to_obj(flat[0])
    ob.true("shape", o.shape == (n_in, l, n_out + 1), str(o.shape))
    ob.true("metadata", meta["m"] == (n_out, b, l, n_out + 1),
            str(meta["m"]))
    used = set()
    for i in range(n_in):
      for j in range(l):
        ph = c.sub(o[i, j, n_out], c.dot(list(o[i, j, :n_out]), list(so)))
        r = c.sub(ph, c.mul(si[i], 1 << (32 - (j + 1) * b)))
        at = c04.is_normal(
            ob, c, f"entry {i},{j}: phase minus s_{i}*2^{32-(j+1)*b} is a "
            "fresh noise draw", r, draws, mod, used)
        used.add(at)
    c04.masks_fresh(ob, c, "key", list(o[:, :, :n_out].ravel()), draws)

  def run(rng, cnt, hints):
    for _ in range(cnt):
      si, so = words(rng, (n_in,)), words(rng, (n_out,))
      prg, log_ = rngs.concrete(rngs.random_values(rng))
      run.unit.evals += 1
      o = np.asarray(gen(prg, si, so).key_data).astype(object)
      es = {x % mod for kk, v in log_ if kk == "normal" for x in lst(v)}
      for i in range(n_in):
        for j in range(l):
          ph = (o[i, j, n_out] - sum(int(a) * int(s) for a, s in
                                     zip(o[i, j], so))
                - (int(si[i]) << (32 - (j + 1) * b))) % mod
          if ph not in es:
            return dict(function="key_switch.gen_key", in_key=lst(si),
                        out_key=lst(so), log_base=b, levels=l, entry=(i, j),
                        residual=ph)
      # pairwise distinct draws: no mask word and no noise used twice
      prg, log_ = rngs.concrete(c04.distinct_values(rng))
      o = np.asarray(gen(prg, si, so).key_data).astype(object)
      if c04.reused([int(x) for x in o[:, :, :n_out].ravel()],
                    log_) is not None:
        return dict(function="key_switch.gen_key", in_key=lst(si),
                    out_key=lst(so), what="mask is not a fresh draw")
      if log == 32:
        res = [(o[i, j, n_out] - sum(int(a) * int(s) for a, s in
                                     zip(o[i, j], so))
                - (int(si[i]) << (32 - (j + 1) * b))) % mod
               for i in range(n_in) for j in range(l)]
        if len(set(res)) < len(res):
          return dict(function="key_switch.gen_key", in_key=lst(si),
                      out_key=lst(so), what="one noise draw used twice",
                      noises=[int(x) for x in res])
    return None
  u = Unit(f"key_switch.gen_key in={n_in} out={n_out} base 2^{b} levels {l} "
           f"log_modulus={log}", [KS + ".gen_key"], prove=prove, concrete=run,
           cross=5, search=100)
  run.unit = u
  return u


def switch_unit(n_in, n_out, b, l):
  """Phase identity with a key satisfying the contract of gen_key."""
  def key_obj(data):
    return repo(KS + ":LweKeySwitchingKey")(
        modulus=0, lwe_dimension=n_out, decomposition_log_base=b,
        decomposition_level_count=l, lwe_size=n_out + 1, key_data=data)

  def prove(ob):
    dom = IntDom()
    c = dom.c
    si = sym_array(dom, "si", (n_in,), U)
    so = sym_array(dom, "so", (n_out,), U)
    e = sym_array(dom, "e", (n_in, l), U)
    A = sym_array(dom, "A", (n_in, l, n_out), U)
    ct = sym_array(dom, "c", (n_in + 1,), U)
    ksk = np.empty((n_in, l, n_out + 1), object)
    for i in range(n_in):
      for j in range(l):
        ksk[i, j, :n_out] = A[i, j]
        ksk[i, j, n_out] = c.wrap(c.total(
            [c.dot(list(A[i, j]), list(so)),
             c.mul(si[i], 1 << (32 - (j + 1) * b)), e[i, j]]), 32, False)
    flat, _, _ = jx.run_sym(
        lambda k, x: repo(KS + ":switch_key")(key_obj(k), x),
        [(ksk, U), (ct, U)], dom)
    o = jx.to_obj(flat[0])
    ob.true("ciphertext length", o.shape == (n_out + 1,), str(o.shape))
    new = c.sub(o[n_out], c.dot(list(o[:n_out]), list(so)))
    want = ct[n_in]
    for i in range(n_in):
      f2, _, _ = jx.run_sym(
          lambda x: repo(D + ":signed_decomposition")(x, b, l),
          [(scalar(ct[i]), U)], dom)
      d = jx.to_obj(f2[0]).ravel()
      ob.true(f"input {i}: {l} digits", len(d) == l)
      # phase_new = b - sum_i s_i * recompose(d_i) - sum d_ij e_ij
      rec = c.total([c.mul(d[j], 1 << (32 - (j + 1) * b)) for j in range(l)])
      want = c.sub(want, c.mul(si[i], rec))
      want = c.sub(want, c.dot(list(d), list(e[i])))
    ob.zero_mod("new phase = old phase with a replaced by its digits, minus "
                "digit-weighted key noise", c, c.sub(new, want), W)

  def run(rng, cnt, hints):
    dec = repo(D + ":signed_decomposition")
    for _ in range(cnt):
      si, so = words(rng, (n_in,)), words(rng, (n_out,))
      prg, log_ = rngs.concrete(rngs.random_values(rng))
      ksk = repo(KS + ":gen_key")(c04.dparams(b, l), prg, lwe_key(si, 32),
                                  lwe_key(so, 32))
      kd = np.asarray(ksk.key_data).astype(object)
      ct = words(rng, (n_in + 1,))
      run.unit.evals += 1
      got = lst(repo(KS + ":switch_key")(ksk, ct))
      new = (got[-1] - sum(a * int(s) for a, s in zip(got, so))) % W
      want = int(ct[-1])
      for i in range(n_in):
        d = lst(dec(U(ct[i]), b, l))
        for j in range(l):
          ph = kd[i, j, -1] - sum(x * int(s) for x, s in
                                  zip(kd[i, j], so))
          want -= d[j] * ph
      if new != want % W:
        return dict(function="key_switch.switch_key", in_key=lst(si),
                    out_key=lst(so), ciphertext=lst(ct), log_base=b,
                    levels=l, phase=new, want=want % W)
    return None
  u = Unit(f"key_switch.switch_key in={n_in} out={n_out} base 2^{b} levels "
           f"{l}", [KS + ".switch_key", KS + ".jit_switch_key"], prove=prove,
           concrete=run, cross=5, search=100)
  run.unit = u
  return u


def modswitch_unit(pairs, tag):
  fpath = G + "lwe:switch_modulus"

  def prove(ob):
    fn = repo(fpath)
    for li, lo in pairs:
      ob.info = dict(pair=(li, lo))
      dom = IntDom()
      c = dom.c
      x = sym_array(dom, "x", (2,), U, 0, (1 << li) - 1)
      flat, _, _ = jx.run_sym(
          lambda v: fn(v, li, lo), [(x, U)], dom)
      o = jx.to_obj(flat[0])
      ob.true(f"{li}->{lo}: length", o.shape == (2,))
      for i in range(2):
        # 2^(li-lo) o is within half a step of x modulo 2^li
        h = 1 << (li - lo)
        ob.ge(f"{li}->{lo}: output {i} in range", c, (1 << lo) - 1, o[i])
        wrapv = c.ge0(c.sub(c.mul(x[i], 2), (1 << (li + 1)) - h))
        q = c.add(c.mul(c.sub(o[i], 0), h), c.mul(wrapv, 1 << li))
        diff = c.mul(c.sub(q, x[i]), 2)
        ob.ge(f"{li}->{lo}: output {i} not below nearest", c, diff, -h)
        ob.ge(f"{li}->{lo}: output {i} not above nearest", c, h, diff)

  def run(rng, cnt, hints):
    fn = repo(fpath)
    for k in range(cnt):
      h = hints[k] if k < len(hints) else {}
      li, lo = h.get("pair") or rng.choice(pairs)
      s = 1 << (li - lo)
      xs = [(rng.randrange(1 << lo) * s + s // 2 + rng.choice([-1, 0, 1]))
            % (1 << li) for _ in range(3)] + [0, (1 << li) - 1,
                                              rng.getrandbits(li)]
      xs += [v for a, v in h.items() if str(a).isdigit()]
      run.unit.evals += 1
      got = lst(fn(np.array(xs, U), li, lo))
      for x, g in zip(xs, got):
        d = (g * s - x) % (1 << li)
        d = min(d, (1 << li) - d)
        if 2 * d > s or g >> lo:
          return dict(function="lwe.switch_modulus", value=x,
                      log_input_modulus=li, log_output_modulus=lo, got=g)
    return None
  u = Unit(f"lwe.switch_modulus {tag}", [fpath.replace(":", "."),
                                         c06.M + ".integer_div"],
           prove=prove, concrete=run, cross=10, search=500)
  run.unit = u
  return u


def units(tier):
  us = []
  for n_in, n_out, b, l in ((1, 1, 4, 3), (2, 3, 4, 3), (3, 2, 4, 5),
                            (2, 2, 2, 8), (2, 2, 7, 3), (2, 1, 8, 4),
                            (1, 2, 5, 4)):
    us += [gen_key_unit(n_in, n_out, b, l), switch_unit(n_in, n_out, b, l)]
  us.append(gen_key_unit(2, 2, 4, 2, 20))
  us.append(c06.integer_div_unit())
  allp = [(li, lo) for li in range(2, 33) for lo in range(1, min(li, 31) + 1)]
  if tier != "thorough":
    allp = [p for i, p in enumerate(allp) if p[0] == 32 or i % 5 == 0
            or p[0] == p[1]]
  n = 14
  for i in range(n):
    us.append(modswitch_unit(allp[i::n], f"{len(allp[i::n])} modulus pairs, "
                                         f"group {i}"))
  if tier == "thorough":
    us += [gen_key_unit(8, 10, 4, 5), switch_unit(8, 10, 4, 5),
           gen_key_unit(4, 4, 3, 6), switch_unit(4, 4, 3, 6)]
  us += [at_scale(gen_key_unit(64, 64, 4, 3)),
         at_scale(switch_unit(1024, 600, 4, 5))]
  return us
