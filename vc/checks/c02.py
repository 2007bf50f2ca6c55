"""C02: bit-slice converters are exact inverses."""

from vc import pysym
from vc.harness import Unit, repo
from vc.pysym import val

M = "jaxite.jaxite_bool.type_converters"


def mods():
  return [repo(M)]


def bits_of(e, x, w):
  c = e.c
  v = val(x)
  return [c.mod(c.fdiv(v, 1 << i), 2) for i in range(w)]


def bools(e, name, n):
  return [pysym.B(e, e.c.var(f"{name}{i}", 0, 1)) for i in range(n)]


def all_paths(ob, name, fn, check, expect_raise=None):
  ps = pysym.explore(fn, mods())
  ob.true(f"{name}: has paths", bool(ps))
  for i, p in enumerate(ps):
    t = f"{name} path {i}"
    if p.raised is not None:
      ob.true(f"{t}: does not raise", False, repr(p.raised))
      continue
    check(t, p)


def uint_unit(widths, tag):
  def prove(ob):
    T = repo(M)
    for w in widths:
      ob.info = dict(width=w)

      def fwd(e, w=w):
        x = e.var("x", 0, (1 << w) - 1)
        b = T.uint_to_bit_slice(x, w)
        return x, b, T.bit_slice_to_uint(b, w)

      def chk(t, p, w=w):
        x, b, y = p.result
        ob.true(f"{t}: {w} bits", len(b) == w)
        for i, want in enumerate(bits_of(p.e, x, w)):
          ob.eq(f"{t}: bit {i}", p.c, val(b[i]), want)
        ob.eq(f"{t}: round trip", p.c, val(y), val(x))
      all_paths(ob, f"width {w} value", fwd, chk)

      def bwd(e, w=w):
        b = bools(e, "b", w)
        x = T.bit_slice_to_uint(list(b), w)
        return b, x, T.uint_to_bit_slice(x, w)

      def chk2(t, p, w=w):
        b, x, b2 = p.result
        c = p.c
        ob.eq(f"{t}: value", c, val(x),
              c.total([c.mul(val(t_), 1 << i) for i, t_ in enumerate(b)]))
        ob.true(f"{t}: {w} bits", len(b2) == w)
        for i in range(w):
          ob.eq(f"{t}: bit {i}", c, val(b2[i]), val(b[i]))
      all_paths(ob, f"width {w} slice", bwd, chk2)
      for n in {0, w - 1, w + 1, 2 * w} - {w, -1}:
        try:
          T.bit_slice_to_uint([False] * n, w)
          r = False
        except ValueError:
          r = True
        ob.true(f"width {w}: slice of length {n} rejected", r, hard=True)

  def run(rng, cnt, hints):
    T = repo(M)
    for q in range(cnt):
      h = hints[q] if q < len(hints) else {}
      w = h.get("width") or rng.choice(widths)
      x = rng.choice([rng.getrandbits(w), (1 << w) - 1, 1 << (w - 1), 0])
      run.unit.evals += 1
      run.unit.last_inputs = dict(x=x, width=w)
      b = T.uint_to_bit_slice(x, w)
      if [bool(t) for t in b] != [bool(x >> i & 1) for i in range(w)]:
        return dict(function="uint_to_bit_slice", x=x, width=w, got=b)
      y = T.bit_slice_to_uint(b, w)
      if y != x:
        return dict(function="bit_slice_to_uint", x=x, width=w, got=y)
    return None
  u = Unit(f"unsigned integers {tag}", [M + ".uint_to_bit_slice",
                                        M + ".bit_slice_to_uint"],
           prove=prove, concrete=run)
  run.unit = u
  return u


def u8_unit():
  def prove(ob):
    T = repo(M)

    def fwd(e):
      x = e.var("x", -1000, 1000)
      try:
        b = T.u8_to_bit_slice(x)
      except ValueError:
        return x, None, None
      return x, b, T.bit_slice_to_u8(b)
    for i, p in enumerate(pysym.explore(fwd, mods())):
      if p.raised is not None:
        ob.true(f"path {i}: does not raise", False, repr(p.raised))
        continue
      x, b, y = p.result
      c = p.c
      if b is None:
        # rejected: x < 0 or x > 255
        ok = c.bor(c.lt(val(x), 0), c.lt(255, val(x)))
        ob.eq(f"path {i}: rejected only outside a byte", c, ok, 1)
        continue
      ob.ge(f"path {i}: accepted value is not negative", c, val(x), 0)
      ob.ge(f"path {i}: accepted value is a byte", c, 255, val(x))
      for j, want in enumerate(bits_of(p.e, x, 8)):
        ob.eq(f"path {i}: bit {j}", c, val(b[j]), want)
      ob.eq(f"path {i}: round trip", c, val(y), val(x))
    for n in (0, 1, 7, 9, 16):
      try:
        T.bit_slice_to_u8([True] * n)
        r = False
      except ValueError:
        r = True
      ob.true(f"slice of length {n} rejected", r, hard=True)

  def run(rng, cnt, hints):
    T = repo(M)
    for x in range(-5, 262):
      run.unit.evals += 1
      run.unit.last_inputs = dict(x=x)
      try:
        b = T.u8_to_bit_slice(x)
      except ValueError:
        if 0 <= x < 256:
          return dict(function="u8_to_bit_slice", x=x, raised=True)
        continue
      if not 0 <= x < 256:
        return dict(function="u8_to_bit_slice", x=x, got=b, want="ValueError")
      if [bool(t) for t in b] != [bool(x >> i & 1) for i in range(8)]:
        return dict(function="u8_to_bit_slice", x=x, got=b)
      if T.bit_slice_to_u8(b) != x:
        return dict(function="bit_slice_to_u8", x=x, got=T.bit_slice_to_u8(b))
    return None
  u = Unit("single bytes", [M + ".u8_to_bit_slice", M + ".bit_slice_to_u8"],
           prove=prove, concrete=run)
  run.unit = u
  return u


def bytes_unit(lengths, tag):
  def prove(ob):
    T = repo(M)
    for n in lengths:
      ob.info = dict(length=n)

      def fwd(e, n=n):
        xs = [e.var(f"x{i}", 0, 255) for i in range(n)]
        b = T.u8_list_to_bit_slice(list(xs))
        return xs, b, T.bit_slice_to_bytes(b)

      def chk(t, p, n=n):
        xs, b, y = p.result
        c = p.c
        ob.true(f"{t}: {8 * n} bits", len(b) == 8 * n)
        for i in range(n):
          for j, want in enumerate(bits_of(p.e, xs[i], 8)):
            ob.eq(f"{t}: byte {i} bit {j}", c, val(b[8 * i + j]), want)
        ob.true(f"{t}: {n} bytes back", len(y) == n)
        for i, (a, z) in enumerate(zip(xs, y)):
          ob.eq(f"{t}: byte {i} round trip", c, val(z), val(a))
      all_paths(ob, f"{n} bytes", fwd, chk)

      def bwd(e, n=n):
        b = bools(e, "b", 8 * n)
        return b, T.bit_slice_to_bytes(list(b))

      def chk2(t, p, n=n):
        b, y = p.result
        c = p.c
        ob.true(f"{t}: {n} bytes", len(y) == n)
        for i, z in enumerate(y):
          ob.eq(f"{t}: byte {i}", c, val(z),
                c.total([c.mul(val(b[8 * i + j]), 1 << j) for j in range(8)]))
      all_paths(ob, f"{8 * n} bits", bwd, chk2)

      for static in (None, n, n + 1, n + 5):
        def txt(e, n=n, static=static):
          xs = [e.var(f"c{i}", 0, 127) for i in range(n)]
          b = T.str_to_cleartext(pysym.SymStr(xs), static)
          return xs, b, T.cleartext_to_str(b)

        def chk3(t, p, n=n, static=static):
          xs, b, y = p.result
          want = [val(x) for x in xs] + [32] * ((static or n) - n)
          ob.true(f"{t}: length", len(y) == len(want) and
                  len(b) == 8 * len(want))
          for i, (w_, z) in enumerate(zip(want, y.items)):
            ob.eq(f"{t}: character {i}", p.c, val(z), w_)
        all_paths(ob, f"text of {n} padded to {static}", txt, chk3)

  def run(rng, cnt, hints):
    T = repo(M)
    for q in range(cnt):
      h = hints[q] if q < len(hints) else {}
      n = h.get("length") or rng.choice(lengths)
      xs = [rng.choice([rng.randrange(256), 255, 128, 0]) for _ in range(n)]
      run.unit.evals += 1
      run.unit.last_inputs = dict(bytes=xs)
      b = T.u8_list_to_bit_slice(list(xs))
      if [bool(t) for t in b] != [bool(x >> i & 1) for x in xs
                                  for i in range(8)]:
        return dict(function="u8_list_to_bit_slice", bytes=xs, got=b)
      y = list(T.bit_slice_to_bytes(b))
      if y != xs:
        return dict(function="bit_slice_to_bytes", bytes=xs, got=y)
      s = "".join(chr(rng.randrange(128)) for _ in range(n))
      run.unit.last_inputs = dict(text=s)
      k = rng.choice([None, n, n + 1, n + rng.randrange(1, 9)])
      y = T.cleartext_to_str(T.str_to_cleartext(s, k))
      if y != s + " " * ((k or n) - n):
        return dict(function="cleartext_to_str(str_to_cleartext)", text=s,
                    static_len=k, got=y)
    return None
  u = Unit(f"byte lists and text {tag}",
           [M + f for f in (".u8_list_to_bit_slice", ".bit_slice_to_bytes",
                            ".str_to_cleartext", ".cleartext_to_str")],
           prove=prove, concrete=run, search=400)
  run.unit = u
  return u


def units(tier):
  big = [256, 384, 521] if tier == "quick" else [256, 384, 521, 1024, 2048]
  ws = list(range(1, 97)) + [127, 128, 129] + big
  us = [uint_unit(ws[i::5], f"{len(ws[i::5])} widths from {ws[i]}")
        for i in range(5)]
  us.append(u8_unit())
  ls = [1, 2, 3, 4, 5, 6, 8, 13] if tier == "quick" else list(range(1, 40))
  us += [bytes_unit(ls[i::3], f"lengths {ls[i::3]}") for i in range(3)]
  return us
