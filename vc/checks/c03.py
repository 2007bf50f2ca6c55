"""C03: message encoding tolerates every in-budget noise."""

import numpy as np
import z3

from vc import elem, jx
from vc.bv import BVDom
from vc.harness import Unit, repo

ENC = "jaxite.jaxite_cggi.encoding"


def combos(tier):
  out = []
  for total in (range(1, 33) if tier == "thorough" else (32, 31, 26, 16, 8, 4,
                                                         2, 1)):
    for msg in range(1, total + 1):
      for pad in range(0, total - msg + 1):
        if tier != "thorough" and total != 32 and (msg * 7 + pad) % 5 and (
            msg + pad != total) and pad > 2:
          continue
        out.append((total, msg, pad))
  return out


def params(c):
  return repo(ENC + ":EncodingParameters")(
      total_bit_length=c[0], message_bit_length=c[1], padding_bit_length=c[2])


def mods():
  return [repo(ENC), repo("jaxite.jaxite_cggi.types")]


def call(dom, fn, arg, *rest, **kw):
  """Non-raising paths and the condition under which fn raises."""
  ps = elem.bv_paths(lambda x: fn(x, *rest, **kw), [(arg, np.uint32)], dom,
                     mods())
  val = None
  raises = z3.BoolVal(False)
  for pc, outs, exc in ps:
    if exc is not None:
      raises = z3.Or(raises, pc)
    else:
      o = elem.bvof(outs[0])
      val = o if val is None else z3.If(pc, o, val)
  return val, raises


def prove_group(cs):
  def prove(ob):
    encode = repo(ENC + ":encode")
    decode = repo(ENC + ":decode")
    decode_pad = repo(ENC + ":decode_without_removing_padding")
    remove = repo(ENC + ":remove_noise")
    extract = repo(ENC + ":extract_noise")
    for c in cs:
      total, msg, pad = c
      p = params(c)
      err = total - msg - pad
      tag = f"t{total} m{msg} p{pad}"
      ob.info = dict(c=c)
      dom = BVDom()
      m, am = elem.scal("m", 32, dom)
      e, _ = elem.scal("e", 32, dom)
      full = lambda k: z3.BitVecVal((1 << k) - 1, 32)
      small = z3.And(e < z3.BitVecVal(1 << (err - 1), 32) if err > 0
                     and err <= 31 else e == 0,
                     e > z3.BitVecVal(-(1 << (err - 1)), 32) if err > 0
                     else e == 0)
      for tp, width in ((False, msg), (True, msg + pad)):
        t2 = tag + (" table" if tp else "")
        enc, raises = call(dom, encode, am, p, tp)
        inr = z3.ULE(m, full(width))
        ob.bv(f"{t2}: encode accepts exactly the documented range", dom,
              z3.Not(raises) == inr)
        if enc is None:
          continue
        ob.bv(f"{t2}: encode places the message above the noise", dom,
              z3.Implies(inr, enc == (m << err)), )
        cut = full(total)
        dec = decode_pad if tp else decode
        for how in ((0, 1) if total < 32 else (0,)):
          y = enc + e
          if how:
            y = y & cut
          arr = np.empty((), object)
          arr[()] = z3.simplify(y)
          d, dr = call(dom, dec, arr, p)
          ob.bv(f"{t2}: decode(encode(m)+e) == m"
                + (" reduced mod 2^total" if how else ""), dom,
                z3.Implies(z3.And(inr, small),
                           z3.And(d == m, z3.Not(dr))))
      x, ax = elem.scal("x", 32, dom)
      r, _ = call(dom, remove, ax, p)
      n, _ = call(dom, extract, ax, p)
      # signed comparison is exact: n is the int32 noise
      half = z3.BitVecVal(1 << (err - 1), 32) if err else z3.BitVecVal(0, 32)
      ob.bv(f"{tag}: remove_noise returns a multiple of the gap", dom,
            (r & full(err)) == 0)
      ob.bv(f"{tag}: value = rounded + noise", dom, r + n == x)
      ob.bv(f"{tag}: noise is at most half a gap, ties away from below", dom,
            z3.And(n >= -half, n < half) if err else n == 0)
  return prove


def concrete(cs):
  def run(rng, n, hints, unit=None):
    import jax.numpy as jnp
    E = repo(ENC)
    hints = [h for h in hints if "c" in h]
    for k in range(n):
      h = hints[k] if k < len(hints) else {}
      c = tuple(h.get("c") or rng.choice(cs))
      total, msg, pad = c
      p = params(c)
      err = total - msg - pad
      m = rng.choice([0, (1 << msg) - 1, rng.randrange(1 << msg)])
      e = 0 if err == 0 else rng.choice(
          [0, (1 << (err - 1)) - 1, -(1 << (err - 1)) + 1,
           rng.randrange(-(1 << (err - 1)) + 1, (1 << (err - 1)))])
      if "m" in h:
        m = h["m"] % (1 << msg)
      if "e" in h and err:
        ee = h["e"] - (2**32 if h["e"] >= 2**31 else 0)
        if abs(ee) < 1 << (err - 1):
          e = ee
      if "x" in h:
        y = h["x"]
        want = ((y + (1 << err >> 1)) >> err << err) % 2**32
        rem = int(E.remove_noise(jnp.uint32(y), p))
        if rem != want:
          return dict(function="remove_noise", params=c, value=y, got=rem,
                      want=want)
        noise = (y - want + 2**31) % 2**32 - 2**31
        got = int(E.extract_noise(jnp.uint32(y), p))
        if got != noise:
          return dict(function="extract_noise", params=c, value=y, got=got,
                      want=noise)
      run.unit.evals += 1
      run.unit.last_inputs = dict(params=c, m=m, e=e)
      y = (int(np.uint32(E.encode(np.uint32(m), p))) + e) % 2**32
      d = int(E.decode(jnp.uint32(y), p))
      if d != m:
        return dict(function="decode", params=c, message=m, noise=e, got=d)
      rem = int(E.remove_noise(jnp.uint32(y), p))
      if rem != (m << err) % 2**32:
        return dict(function="remove_noise", params=c, message=m, noise=e,
                    got=rem)
      x = int(E.extract_noise(jnp.uint32(y), p))
      if x != e:
        return dict(function="extract_noise", params=c, message=m, noise=e,
                    got=x)
      mp = rng.choice([0, (1 << (msg + pad)) - 1,
                       rng.randrange(1 << (msg + pad))])
      if "m" in h:
        mp = h["m"] % (1 << (msg + pad))
      y = (int(np.uint32(E.encode(np.uint32(mp), p, True))) + e) % 2**32
      d = int(E.decode_without_removing_padding(jnp.uint32(y), p))
      if d != mp:
        return dict(function="decode_without_removing_padding", params=c,
                    message=mp, noise=e, got=d)
      if msg + pad < 32:
        for tp, w in ((False, msg), (True, msg + pad)):
          bad = rng.choice([1 << w, (1 << w) + 1, 2**32 - 1])
          try:
            E.encode(np.uint32(bad), p, tp)
          except ValueError:
            continue
          return dict(function="encode", params=c, message=bad, table=tp,
                      got="accepted")
    return None
  return run


def array_unit(cs, shape):
  """Arrays of messages: element by element, rejected when any is out."""
  def prove(ob):
    E = repo(ENC)
    for c in cs:
      total, msg, pad = c
      p = params(c)
      err = total - msg - pad
      dom = BVDom()
      arr, ms = np.empty(shape, object), []
      for ix in np.ndindex(*shape):
        v, a = elem.scal("m" + "_".join(map(str, ix)), 32, dom)
        arr[ix] = v
        ms.append(v)
      for tp, width in ((False, msg), (True, msg + pad)):
        tag = f"t{total} m{msg} p{pad}" + (" table" if tp else "")
        ob.info = dict(c=c, tp=tp)
        inr = z3.And(*[z3.ULE(v, z3.BitVecVal((1 << width) - 1, 32))
                       for v in ms])
        raises = z3.BoolVal(False)
        for pc, outs, exc in elem.bv_paths(
            lambda x: E.encode(x, p, tp), [(arr, np.uint32)], dom, mods()):
          if exc is not None:
            raises = z3.Or(raises, pc)
            continue
          o = jx.to_obj(outs[0])
          ob.true(f"{tag}: shape", o.shape == shape)
          for ix in np.ndindex(*shape):
            ob.bv(f"{tag}: entry {ix} placed above the noise", dom,
                  z3.Implies(pc, elem.bvof(o[ix]) == (arr[ix] << err)))
        ob.bv(f"{tag}: accepted exactly when every entry is in range", dom,
              z3.Not(raises) == inr)

  def run(rng, n, hints):
    import jax.numpy as jnp
    E = repo(ENC)
    size = int(np.prod(shape))
    for _ in range(n):
      c = rng.choice(cs)
      total, msg, pad = c
      p = params(c)
      err = total - msg - pad
      for tp, w in ((False, msg), (True, msg + pad)):
        good = [rng.choice([0, (1 << w) - 1, rng.randrange(1 << w)])
                for _ in range(size)]
        run.unit.evals += 1
        run.unit.last_inputs = dict(params=c, messages=good, table=tp)
        got = np.asarray(E.encode(jnp.array(good, jnp.uint32).reshape(shape),
                                  p, tp)).ravel().tolist()
        if got != [(m << err) % 2**32 for m in good]:
          return dict(function="encode", params=c, messages=good, table=tp,
                      got=got)
        if w < 32:
          bad = list(good)
          bad[rng.randrange(size)] = rng.choice([1 << w, 2**32 - 1])
          try:
            E.encode(jnp.array(bad, jnp.uint32).reshape(shape), p, tp)
          except ValueError:
            continue
          return dict(function="encode", params=c, messages=bad, table=tp,
                      got="accepted")
    return None
  u = Unit(f"encoding an array of shape {shape} ({len(cs)} choices)",
           [ENC + ".encode"], prove=prove, concrete=run, cross=6, search=100)
  run.unit = u
  return u


def units(tier):
  cs = combos(tier)
  us = [array_unit([(32, 3, 1), (32, 31, 1), (32, 1, 0), (16, 4, 2),
                    (32, 28, 4)], (3,)),
        array_unit([(32, 3, 1), (8, 3, 2)], (2, 2))]
  g = 28
  for i in range(g):
    sub = cs[i::g]
    run = concrete(sub)
    u = Unit(f"encoding parameters {i+1}/{g} ({len(sub)} choices)",
             [f"{ENC}.{f}" for f in (
                 "encode", "decode", "decode_without_removing_padding",
                 "remove_noise", "round_to_power_of_2", "extract_noise",
                 "EncodingParameters")],
             prove=prove_group(sub), concrete=run, cross=6, search=600)
    run.unit = u
    us.append(u)
  return us
