"""C22: slot encoding is the exact canonical embedding up to coefficient
rounding, and decoding evaluates it back."""

import cmath
import contextlib
import math
import random
from fractions import Fraction

import numpy as np

from vc import ckks, cyclo
from vc.ckks import C, primes
from vc.harness import Unit, repo
from vc.paths import patched
from vc.poly import Unsupported

X64 = True
E, NC, RU = C + "encode", C + "ntt_cpu", C + "rns_utils"


@contextlib.contextmanager
def world(f, ntt=None, intt=None, crt=None):
  """encode.py with numpy read over the cyclotomic field f and the transforms
  and the CRT by their contracts."""
  import jax.numpy as jnp
  M = repo(E)
  with contextlib.ExitStack() as st:
    p = lambda o, n, v: st.enter_context(patched(o, n, v))
    p(M, "np", cyclo.NP(f, np))
    p(M, "jnp", cyclo.NP(f, jnp))
    if ntt:
      p(repo(NC), "ntt_negacyclic_poly", ntt)
    if intt:
      p(repo(NC), "intt_negacyclic_poly", intt)
    if crt:
      p(repo(RU), "reconstruct_crt", crt)
    yield M


def slot_points(m, nh):
  r = [1]
  while len(r) < nh:
    r.append(r[-1] * 5 % m)
  return r


def embed(f, co):
  """Slots of the real coefficient vector co: the polynomial at zeta^(5^j)."""
  n = len(co)
  out = []
  for p in slot_points(2 * n, n // 2):
    s = f.lift(0)
    for k, x in enumerate(co):
      s = s + x * cyclo.Lin(f, {("1", 0): f.root(p * k * (f.m // (2 * n)))})
    out.append(s)
  return out


def i_unit(f):
  return cyclo.Lin(f, {("1", 0): f.root(f.m // 4)})


def mod_primes(m, cnt):
  out, q = [], (1 << 31) // m * m + 1
  while len(out) < cnt:
    q -= m
    if ckks.isprime(q):
      out.append(q)
  return out


def fft_unit(n):
  nh, m = n // 2, 2 * n

  def prove_mod(ob):
    """Linear forms compared at random points of three prime fields."""
    for p in mod_primes(m, 3):
      rng = random.Random(p)
      f = cyclo.ModField(m, p, rng)
      co = [f.atom(f"a{k}") for k in range(n)]
      iu = cyclo.ModLin(f, f.root(m // 4), True)
      pw = np.array(f.pw, np.uint64)
      cv = np.array([x.v[0] for x in co], np.uint64)
      ks = np.arange(n)
      want = []
      for pt in slot_points(m, nh):
        want.append(tuple(int((cv * pw[s * pt * ks % m] % np.uint64(p)).sum()
                              % np.uint64(p)) for s in (1, -1)))
      with world(f) as M:
        v = cyclo.carr(f, [co[k] + iu * co[k + nh] for k in range(nh)])
        M.fft_special(v, m)
        bad = [j for j, x in enumerate(v.view(np.ndarray)) if x.v != want[j]]
        ob.true(f"fft_special: every slot j is the polynomial at zeta^(5^j) "
                f"(image modulo {p})", not bad, f"slots {bad[:8]}",
                backend="linear-form identity test")
        w = cyclo.carr(f, [cyclo.ModLin(f, x, False) for x in want])
        M.fft_special_inv(w, m)
        bad = [k for k, x in enumerate(w.view(np.ndarray))
               if not x == co[k] + iu * co[k + nh]]
        ob.true(f"fft_special_inv returns every pair of coefficients (image "
                f"modulo {p})", not bad, f"indices {bad[:8]}",
                backend="linear-form identity test")

  def prove(ob):
    f = cyclo.Field(m)
    co = [f.atom(f"a{k}") for k in range(n)]
    with world(f) as M:
      v = cyclo.carr(f, [co[k] + i_unit(f) * co[k + nh] for k in range(nh)])
      M.fft_special(v, m)
      got = list(v.view(np.ndarray))
      want = embed(f, co)
      for j in range(nh):
        ob.true(f"fft_special slot {j} is the polynomial at zeta^(5^{j})",
                got[j] == want[j], backend="cyclotomic-normal-form")
      w = cyclo.carr(f, want)
      M.fft_special_inv(w, m)
      for k, x in enumerate(w.view(np.ndarray)):
        ob.true(f"fft_special_inv returns coefficients {k} and {k + nh}",
                x == co[k] + i_unit(f) * co[k + nh],
                backend="cyclotomic-normal-form")

  def concrete(rng, cnt, hints):
    M = repo(E)
    for _ in range(cnt):
      co = [rng.uniform(-1, 1) * 10 ** rng.randrange(4) for _ in range(n)]
      v = np.array([complex(co[k], co[k + nh]) for k in range(nh)])
      a = v.copy()
      u.evals += 1
      M.fft_special(a, m)
      big = sum(map(abs, co)) + 1
      for j, p in enumerate(slot_points(m, nh)):
        if nh > 64 and j % 97:
          continue
        z = sum(x * cmath.exp(2j * cmath.pi * (p * k % m) / m)
                for k, x in enumerate(co))
        if abs(z - a[j]) > 1e-10 * big:
          return dict(function="fft_special", order=m, coefficients=co,
                      slot=j, got=str(a[j]), want=str(z))
      M.fft_special_inv(a, m)
      d = np.abs(a - v).max()
      if not d <= 1e-10 * big:
        return dict(function="fft_special_inv", order=m, coefficients=co,
                    got=[str(t) for t in a[:8]], error=float(d))
    return None
  u = Unit(f"special FFT order {m}", [
      E + ".fft_special", E + ".fft_special_inv", E + "._roots",
      E + "._rot_group", RU + ".bit_reversal_array"],
           prove=prove if n <= 64 else prove_mod, concrete=concrete,
           cross=4 if n <= 64 else 1, search=60 if n <= 64 else 2,
           assumes=["floating-point numbers read as the real numbers they "
                    "round"] + ([] if n <= 64 else [
                        "two different linear forms agree at random points "
                        "of three 31-bit prime fields (probability below "
                        "2^-80)"]))
  return u


def poly_tokens(n, qs):
  o = np.empty((n, len(qs)), object)
  for k in range(n):
    for i, q in enumerate(qs):
      o[k, i] = cyclo.Res(f"c{k}", 0, q)
  return o


def encode_unit(n, qs, given):
  nh = n // 2

  def prove(ob):
    f = cyclo.Field(2 * n)
    s = cyclo.Scale(f)
    sl = [f.atom(f"x{j}") + i_unit(f) * f.atom(f"y{j}") for j in range(given)]
    seen = {}

    def ntt(poly, moduli):
      seen["poly"], seen["moduli"] = poly, [int(x) for x in moduli]
      if not isinstance(poly, cyclo.CArr):
        raise Unsupported("coefficients of another kind")
      o = np.arange(poly.size, dtype=np.uint32).reshape(poly.shape)
      seen["out"] = o
      return o
    with world(f, ntt=ntt) as M:
      arg = list(sl)
      pt = M.Encode(n, list(qs), s).encode(arg)
      ob.true("the caller's slots are left as they were", len(arg) == given and
              all(x is y for x, y in zip(arg, sl)))
      P = seen.get("poly")
      if P is None:
        raise Unsupported("encoding without ntt_negacyclic_poly")
      ob.true("transform called on degree x moduli residues",
              P.shape == (n, len(qs)) and seen["moduli"] == list(qs))
      co, ok = [], True
      for k in range(n):
        r = [P.view(np.ndarray)[k, i] for i in range(len(qs))]
        ok = ok and all(isinstance(x, cyclo.Res) and x.off == 0 and
                        x.q == q and x.atom == r[0].atom
                        for x, q in zip(r, qs))
        co.append(r[0].atom if ok else None)
      ob.true("row k holds the residues of one rounded coefficient modulo each "
              "modulus", ok)
      if not ok:
        return
      # the exact coefficients embed to scale * slot, zero beyond the given
      ex = [f.defs[a] if a in f.defs else None for a in co]
      ob.true("each integer coefficient is the rounding of a real one",
              all(x is not None for x in ex))
      if any(x is None for x in ex):
        return
      got = embed(f, ex)
      for j in range(nh):
        want = sl[j] * s if j < given else f.lift(0)
        ob.true(f"unrounded coefficients embed to scale times slot {j}",
                got[j] == want, backend="cyclotomic-normal-form")
      ob.true("plaintext holds the transform and the moduli",
              np.array_equal(np.asarray(pt.data), seen["out"]) and
              [int(x) for x in np.asarray(pt.moduli)] == list(qs))

  def concrete(rng, cnt, hints):
    M = repo(E)
    Q = math.prod(qs)
    for _ in range(cnt):
      top = min(Q / 4.0, 2.0 ** rng.choice([30, 48, 70, 80]))
      sc = 2.0 ** rng.randrange(10, max(11, int(math.log2(top)) - 4))
      if rng.randrange(3) == 0:
        sc *= rng.uniform(1, 2)
      mag = min(4.0, top / sc)
      sl = [complex(rng.uniform(-mag, mag), rng.uniform(-mag, mag))
            if rng.randrange(6) else complex(rng.choice([0, 1, -1, 1j, -1j]))
            for _ in range(given)]
      u.evals += 1
      u.last_inputs = dict(degree=n, moduli=qs, scale=sc,
                           slots=[str(x) for x in sl])
      enc = M.Encode(n, list(qs), sc)
      if rng.randrange(2):  # an encoder that has been used before
        enc.encode([1.5] * rng.randrange(1, nh + 1))
      arg = rng.choice([list, lambda x: np.array(x, complex), tuple])(sl)
      pt = enc.encode(arg)
      if list(arg) != sl:
        return dict(function="Encode.encode", degree=n, moduli=qs, scale=sc,
                    slots=[str(x) for x in sl],
                    argument_after=[str(x) for x in arg],
                    what="the caller's slots are changed")
      d = np.asarray(pt.data).astype(object)
      if d.shape != (n, len(qs)):
        return dict(function="Encode.encode", degree=n, shape=str(d.shape))
      cols = [ckks.int_intt([int(x) for x in d[:, i]], q)
              for i, q in enumerate(qs)]
      co = []
      for k in range(n):
        c = ckks.crt([cols[i][k] for i in range(len(qs))], qs) % Q
        co.append(c - Q if c > Q // 2 else c)
      ms = 2 * n
      zs = sl + [0] * (nh - given)
      pts = slot_points(ms, nh)
      for k in range(n):
        z = sum((x * cmath.exp(-2j * cmath.pi * (p * k % ms) / ms)).real
                for x, p in zip(zs, pts)) * sc / nh
        if abs(z - co[k]) > 0.5 + 1e-9 + 1e-11 * nh * mag * sc:
          return dict(function="Encode.encode", degree=n, moduli=qs, scale=sc,
                      slots=[str(x) for x in sl], coefficient=k,
                      got=co[k], want=z)
      for form in (True, False):
        dat = d if form else np.array(cols, object).T
        dec = M.Decode(sc, given)
        dec.decode(pt, is_slot_form=not form)
        r = dec.decode(pt if form else type(pt)(
            __import__("jax").numpy.array(dat.astype(np.uint32)), pt.moduli),
            is_slot_form=form)
        if len(r) != given:
          return dict(function="Decode.decode", got_slots=len(r), want=given)
        tol = (nh * 0.7072 / sc) + 1e-10 * nh * (mag + 1)
        for j in range(given):
          if not abs(r[j] - sl[j]) <= tol:
            return dict(function="Decode.decode of Encode.encode", degree=n,
                        moduli=qs, scale=sc, slots=[str(x) for x in sl],
                        slot=j, got=str(r[j]), is_slot_form=form)
    return None
  u = Unit(f"encode degree {n} moduli {qs} slots {given}",
           [E + ".Encode.encode", E + ".Encode.__init__",
            E + ".fft_special_inv"], prove=prove, concrete=concrete, cross=8,
           search=150, assumes=[
               "floating-point numbers read as the real numbers they round",
               "ntt_cpu.ntt_negacyclic_poly by its contract (C10)",
               "numpy's % of an exactly represented integer is exact"])
  return u


def decode_unit(n, qs, num, form):
  nh = n // 2
  Q = math.prod(qs)

  def prove(ob):
    f = cyclo.Field(2 * n)
    s = cyclo.Scale(f)
    for k in range(n):
      f.atom(f"c{k}", 0, Q - 1)
    tok = poly_tokens(n, qs)
    T = repo(E + ":Plaintext")
    seen = {}

    def intt(poly, moduli):
      seen["intt"] = True
      if not isinstance(poly, np.ndarray) or poly.dtype == object or (
          not np.array_equal(poly, raw)) or [int(x) for x in moduli] != qs:
        raise Unsupported("inverse transform of something else")
      return cyclo.carr(f, tok)

    def crt(res, moduli):
      rows = [list(r) for r in res]
      if [int(x) for x in moduli] != qs or len(rows) != len(qs) or any(
          len(r) != n for r in rows):
        raise Unsupported("CRT of something else")
      for i, q in enumerate(qs):
        for k in range(n):
          x = rows[i][k]
          if not (isinstance(x, cyclo.Res) and x == cyclo.Res(f"c{k}", 0, q)):
            raise Unsupported("CRT of permuted residues")
      seen["crt"] = True
      return [f.atom(f"c{k}") for k in range(n)]
    raw = np.arange(n * len(qs), dtype=np.uint32).reshape(n, len(qs))
    mods = np.array(qs, np.uint32)

    def go():
      seen.clear()
      with world(f, intt=intt, crt=crt) as M:
        pt = T(raw if form else cyclo.carr(f, tok), mods)
        r = M.Decode(s, num).decode(pt, is_slot_form=form)
        if not seen.get("crt"):
          raise Unsupported("decoding without reconstruct_crt")
        ob.true("inverse transform used exactly for slot form",
                bool(seen.get("intt")) == form, hard=True)
        return list(r)
    for pi, (r, iv) in enumerate(cyclo.explore(f, go)):
      ob.true(f"path {pi}: number of slots", len(r) == num)
      # the centred lift on this path: constant offset 0 or -Q
      co, ok = [], True
      for k in range(n):
        lo, hi = iv[f"c{k}"]
        a = cyclo.Lin(f, {(f"c{k}", 0): f.root(0)})
        if lo > Q // 2:
          a = a - Q
        elif hi > Q // 2:
          ok = False
        co.append(a)
      ob.true(f"path {pi}: residues above half of Q are told apart from the "
              "others", ok)
      if not ok:
        continue
      want = embed(f, co)
      for j in range(num):
        ob.true(f"path {pi}: slot {j} is the centred polynomial at "
                f"zeta^(5^{j}) over the scale", isinstance(r[j], cyclo.Lin) and
                r[j] == want[j] / s, backend="cyclotomic-normal-form")

  def concrete(rng, cnt, hints):
    import jax.numpy as jnp
    M = repo(E)
    for _ in range(cnt):
      co = [rng.choice([rng.randint(-(Q // 2), Q // 2), Q // 2, -(Q // 2), 0,
                        -1, 1, rng.randint(-1000, 1000)]) for _ in range(n)]
      sc = 2.0 ** rng.randrange(1, 40)
      cols = [[c % q for c in co] for q in qs]
      if form:
        cols = [ckks.int_ntt(c, q) for c, q in zip(cols, qs)]
      u.evals += 1
      pt = repo(E + ":Plaintext")(jnp.array(np.array(cols, np.uint32).T),
                                  jnp.array(qs, dtype=jnp.uint32))
      r = M.Decode(sc, num).decode(pt, is_slot_form=form)
      big = float(sum(map(abs, co)) + 1) / sc
      if len(r) != num:
        return dict(function="Decode.decode", got_slots=len(r), want=num)
      for j, p in enumerate(slot_points(2 * n, nh)[:num]):
        z = sum(float(Fraction(x) / Fraction(sc)) *
                cmath.exp(1j * cmath.pi * (p * k % (2 * n)) / n)
                for k, x in enumerate(co))
        if not abs(z - r[j]) <= 1e-10 * big:
          return dict(function="Decode.decode", coefficients=co, moduli=qs,
                      scale=sc, slot=j, got=str(r[j]), want=str(z),
                      is_slot_form=form)
    return None
  u = Unit(f"decode degree {n} moduli {qs} slots {num} "
           f"{'evaluation' if form else 'coefficient'} form",
           [E + ".Decode.decode", E + ".Decode.__init__", E + ".fft_special"],
           prove=prove, concrete=concrete, cross=10, search=200, assumes=[
               "floating-point numbers read as the real numbers they round",
               "ntt_cpu.intt_negacyclic_poly by its contract (C10)",
               "rns_utils.reconstruct_crt by its contract (C11)"])
  return u


def units(tier):
  us = [fft_unit(n) for n in (4, 8, 16, 32, 64, 128, 256, 512, 1024,
                               2048, 4096, 8192)]
  P = primes(28, 64, 3)
  P31 = primes(31, 64, 2)
  for n in (4, 8, 16, 32):
    us.append(encode_unit(n, P[:2], n // 2))
  us += [encode_unit(8, P, 3), encode_unit(16, P31[:1], 1),
         encode_unit(16, P31, 8), encode_unit(8, [97, 193], 4)]
  for form in (True, False):
    us += [decode_unit(4, P[:2], 2, form), decode_unit(8, P, 4, form),
           decode_unit(4, P31[:1], 2, form), decode_unit(8, P31, 3, form),
           decode_unit(4, P, 1, form)]
  if tier == "thorough":
    us += [encode_unit(64, P[:2], 32)]
  return us
