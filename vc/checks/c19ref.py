"""C19, reference library: jaxite_ec/algorithm/elliptic_curve.py.

The real classes run on symbolic field values (vc/reffield.py): every
coordinate is a rational function of the affine coordinates and the scaling
factor of the operands, and for the Weierstrass systems the curve parameters a
and b are symbolic too.  Every equality test forks.
"""

from vc import reffield
from vc.field import Ring, atom, power_product
from vc.harness import Unit, repo
from vc.limbs import Q
from vc.poly import Unsupported, pconst
from vc.reffield import ALG, F, run_field

ECM = ALG + "elliptic_curve:"


def config():
  return repo(ALG + "config_file")


class Sym:
  """Symbolic points of one coordinate system, and the law as fractions."""

  def __init__(self, kind, count, symbolic_ab=True):
    self.kind = kind
    self.R = R = Ring()
    self.pts = [tuple(R.var(f"{n}{i}") for n in "xyz") for i in range(count)]
    self.a = R.var("a") if symbolic_ab else R.const(0)
    self.b = R.var("b") if symbolic_ab else R.const(1)
    self.one = pconst(1)

  def coords(self, i, z=True):
    R = self.R
    x, y, z_ = self.pts[i]
    z_ = z_ if z else self.one
    if self.kind == "affine":
      return [x, y]
    if self.kind == "projective":
      return [R.mul(x, z_), R.mul(y, z_), z_]
    if self.kind == "xyzz":
      return [R.mul(x, z_, z_), R.mul(y, z_, z_, z_), R.pow(z_, 2),
              R.pow(z_, 3)]
    return [R.mul(x, z_), R.mul(y, z_), z_, R.mul(x, y, z_)]

  def law(self, dbl, minus=False):
    """-> nx, ny, d with x = nx/d^2, y = ny/d^3."""
    R = self.R
    x1, y1, _ = self.pts[0]
    x2, y2, _ = self.pts[0] if dbl else self.pts[1]
    if minus:
      y2 = R.scale(y2, -1)
    if dbl:
      n, d = R.add(R.scale(R.mul(x1, x1), 3), self.a), R.scale(y1, 2)
    else:
      n, d = R.sub(y2, y1), R.sub(x2, x1)
    dd = R.mul(d, d)
    nx = R.sub(R.mul(n, n), R.mul(R.add(x1, x2), dd))
    ny = R.sub(R.mul(n, R.sub(R.mul(x1, dd), nx)), R.mul(y1, R.mul(dd, d)))
    return nx, ny, d

  def on_curve(self, p):
    """Normal form modulo y_i^2 = x_i^3 + a x_i + b."""
    R = self.R
    for x, y, _ in self.pts:
      r = R.add(R.pow(x, 3), R.mul(x, self.a), self.b)

      def powers(e, r=r, y=y):
        q = R.pow(r, e // 2)
        return R.mul(q, y) if e % 2 else q
      p = R.subst(p, atom(y), powers)
    return p

  def system(self, k, cls):
    cfg = dict(config().config_BLS12_377_t if self.kind == "twisted"
               else config().config_BLS12_377)
    if self.kind != "twisted":
      cfg["a"] = F(k, self.a)
      cfg["b"] = F(k, self.b)
      if set(self.a.t) <= {()} and set(self.b.t) <= {()}:
        cfg["a"], cfg["b"] = (int(p.t.get((), 0)) for p in (self.a, self.b))
    return getattr(repo(ALG + "elliptic_curve"), cls)(cfg)

  def fe(self, k, p):
    ff = repo(ALG + "finite_field")
    bi = repo(ALG + "big_integer")
    return ff.FiniteFieldElement(bi.GMPBigInteger(F(k, p)), Q)


def linear_subst(R, eqs):
  """Substitutions c*v + k = 0 among path equalities, as a map on P."""
  subs = []
  for e in eqs:
    ms = [m for m in e.t if m]
    if len(ms) == 1 and len(ms[0]) == 1:
      v = -e.t.get((), 0) * pow(e.t[ms[0]], -1, R.q) % R.q
      subs.append((ms[0][0], v))

  def go(p):
    for a, v in subs:
      p = R.subst(p, a, lambda e, v=v: R.const(pow(v, e, R.q)))
    return p
  return go


def vf(k, v):
  """The field value of what the code returned."""
  for _ in range(4):
    if isinstance(v, F):
      return v
    if isinstance(v, int) or isinstance(v, reffield.MPZ):
      return F(k, k.R.const(int(v)))
    v = v.value
  raise Unsupported("not a field value")


class Post:
  """Obligations of one path."""

  def __init__(self, ob, tag, s, k, red=None):
    self.ob, self.tag, self.s, self.k, self.R = ob, tag, s, k, s.R
    self.sub = linear_subst(s.R, k.eqs)
    self.red = red or (lambda p: p)

  def poly(self, p):
    return self.red(self.sub(p))

  def same(self, what, a, b):
    R = self.R
    p = R.sub(R.mul(a.n, b.d), R.mul(b.n, a.d))
    self.ob.true(f"{self.tag}: {what}", not self.poly(p).t)

  def nonzero(self, what, f, factors):
    fs = [(self.sub(p), a) for p, a in factors]
    fs = [(p, a) for p, a in fs if any(a in m for m in p.t)]
    self.ob.true(f"{self.tag}: {what} not zero",
                 power_product(self.R, self.sub(f.n), fs))

  def divisors(self, factors):
    for i, d in enumerate(self.k.divs):
      self.nonzero(f"divisor {i}", F(self.k, d), factors)


def factors(s, dbl, d):
  out = [(z, atom(z)) for _, _, z in s.pts]
  out.append((d, atom(s.pts[0][1]) if dbl else atom(s.pts[1][0])))
  return out


def check_sum(ob, tag, s, k, cs, dbl, complete=False):
  """cs: coordinates of the returned point."""
  R = s.R
  nx, ny, d = s.law(dbl)
  wx = F(k, nx, R.pow(d, 2))
  wy = F(k, ny, R.pow(d, 3))
  po = Post(ob, tag, s, k, s.on_curve if complete else None)
  fs = factors(s, dbl, d)
  po.divisors(fs)
  cs = [vf(k, c) for c in cs]
  if s.kind == "affine":
    ob.true(f"{tag}: coordinates", len(cs) == 2)
    po.same("x", cs[0], wx)
    po.same("y", cs[1], wy)
    return
  if s.kind == "projective":
    X, Y, Z = cs
    po.same("x", X, wx * Z)
    po.same("y", Y, wy * Z)
    if complete and not dbl:
      # Z = c z1^i z2^j y(P - Q) d^3 on the curve: zero only if P - Q has
      # order two (excluded) or an operand is not a point
      _, my, _ = s.law(False, minus=True)
      (_, _, z1), (_, _, z2) = s.pts
      want = po.poly(R.mul(my, R.pow(z1, R.degree(Z.n, atom(z1))),
                           R.pow(z2, R.degree(Z.n, atom(z2)))))
      got = po.poly(Z.n)
      m = next(iter(want.t))
      ob.true(f"{tag}: z not zero", m in got.t and R.eq(got, R.scale(
          want, got.t[m] * pow(want.t[m], -1, Q) % Q)))
    else:
      po.nonzero("z", Z, fs)
    return
  X, Y, ZZ, ZZZ = cs
  po.same("x", X, wx * ZZ)
  po.same("y", Y, wy * ZZZ)
  po.same("zz^3 = zzz^2", ZZ * ZZ * ZZ, ZZZ * ZZZ)
  po.nonzero("zz", ZZ, fs)


def check_twisted_sum(ob, tag, s, k, cs, dbl):
  R = s.R
  dcf = int(config().config_BLS12_377_t["d"])
  X, Y, Z, T = [vf(k, c) for c in cs]
  x1, y1, z1 = s.pts[0]
  x2, y2, z2 = s.pts[0] if dbl else s.pts[1]
  nx = R.add(R.mul(x1, y2), R.mul(x2, y1))
  ny = R.add(R.mul(y1, y2), R.mul(x1, x2))
  if dbl:  # d x^2 y^2 = y^2 - x^2 - 1 on the curve
    dx = R.sub(R.mul(y1, y1), R.mul(x1, x1))
    dy = R.sub(R.const(2), dx)
  else:
    e = R.scale(R.mul(x1, x2, y1, y2), dcf)
    dx, dy = R.add(s.one, e), R.sub(s.one, e)
  po = Post(ob, tag, s, k)
  po.divisors([])
  po.same("x", X * F(k, dx), F(k, nx) * Z)
  po.same("y", Y * F(k, dy), F(k, ny) * Z)
  po.same("t z = x y", T * Z, X * Y)
  prod = R.mul(dx, dy)
  for _, _, z in s.pts[:1] if dbl else s.pts:
    prod = R.mul(prod, R.pow(z, R.degree(Z.n, atom(z))))
  prod, got = po.sub(prod), po.sub(Z.n)
  m = next(iter(prod.t))
  ob.true(f"{tag}: z not zero", m in got.t and R.eq(got, R.scale(
      prod, got.t[m] * pow(prod.t[m], -1, Q) % Q)))


def each(ob, name, s, fn, post, nonzero=(), excluded=None):
  mods = reffield.mods(repo)
  ps = run_field(fn, s.R, mods, nonzero)
  n = 0
  for i, (k, r, ex) in enumerate(ps):
    if excluded and excluded(k):
      continue
    tag = f"{name}, path {i}"
    if ex is not None:
      ob.true(f"{tag}: no exception", False, f"{type(ex).__name__}: {ex}")
      continue
    post(tag, k, r)
    n += 1
  ob.true(f"{name}: some path returns", n > 0)


def all_equal(s, z=(True, True)):
  """Path on which both operands have the same coordinates."""
  R = s.R
  diffs = [R.sub(a, b) for a, b in zip(s.coords(0, z[0]),
                                           s.coords(1, z[1]))]

  def up_to(p, o):
    if not (p.t and o.t):
      return not p.t and not o.t
    m = next(iter(o.t))
    return m in p.t and R.eq(p, R.scale(
        o, p.t[m] * pow(o.t[m], -1, R.q) % R.q))

  def ex(k):
    # one operand may have been fixed to z = 1 on this path
    sub = linear_subst(R, k.eqs)
    eqs = [sub(e) for e in k.eqs] + list(k.eqs)
    return all(any(up_to(e, d) or up_to(e, sub(d)) for e in eqs)
               or not sub(d).t for d in diffs)
  return ex


CLS = dict(affine="ECCSWeierstrassAffine",
           projective="ECCSWeierstrassProjective",
           xyzz="ECCSWeierstrassXYZZ", twisted="ECCSTwistedEdwardsExtended")


def gen(cs, s, k, i, z=True):
  els = [s.fe(k, p) for p in s.coords(i, z)]
  if s.kind == "twisted":
    return cs.generate_point(els, twist=False)
  return cs.generate_point(els)


def add_unit(kind, via, dbl, complete=False, z=(True, True), note=""):
  """via: '+', or a method name."""
  cls = CLS[kind]
  name = f"reference {kind} {'doubling' if dbl else 'addition'} by {via}{note}"
  method = "point_add" if via == "+" else via

  def prove(ob):
    s = Sym(kind, 1 if dbl else 2)
    R = s.R
    nz = []
    if not dbl and kind != "twisted":
      nz.append(R.sub(s.pts[1][0], s.pts[0][0]))
    if dbl and kind != "twisted":
      nz.append(s.pts[0][1])

    def fn(k):
      cs = s.system(k, cls)
      p = gen(cs, s, k, 0, z[0])
      if dbl and via == "double_general":
        return cs.double_general(p)[:]
      q = gen(cs, s, k, 0 if dbl else 1, z[0 if dbl else 1])
      if via == "+":
        return (p + q)[:]
      return getattr(cs, via)(p, q)[:]

    def post(tag, k, r):
      if kind == "twisted":
        check_twisted_sum(ob, tag, s, k, r, dbl)
      else:
        # which formula a path uses decides whether it needs the curve
        check_sum(ob, tag, s, k, r, dbl,
                  complete and not (z[0] is False or z[1] is False) and
                  not any(linear(e) for e in k.eqs))
    each(ob, name, s, fn, post, nz, None if dbl else all_equal(s, z))

  def linear(e):
    ms = [m for m in e.t if m]
    return len(ms) == 1 and len(ms[0]) == 1

  u = Unit(name, [ECM + f"{cls}.{method}"] + (
      [ECM + f"{cls}.double_general"] if dbl else
      [ECM + f"{cls}.add_general"] if kind in ("affine", "xyzz", "projective")
      and method == "point_add" else []), prove)
  u.concrete = lambda rng, n, hints: concrete_sum(u, rng, kind, via, dbl, z)
  u.assumes = ["reduced field values are canonical (C21)",
               "powmod(x, q-2, q) is the inverse of x modulo the prime q"]
  if complete:
    u.assumes.append("the difference of the operands does not have order two")
  return u


def value_of(c):
  v = c.value
  while hasattr(v, "value"):
    v = v.value
  return int(v)


def to_affine(kind, cs):
  from vc.checks.c19 import affine, inv
  if kind == "affine":
    return tuple(cs[:2])
  if kind == "projective":
    if cs[2] % Q == 0:
      return None
    return cs[0] * inv(cs[2]) % Q, cs[1] * inv(cs[2]) % Q
  return affine(kind, cs)


def plain(kind, ab=None):
  c = config()
  cfg = dict(c.config_BLS12_377_t if kind == "twisted"
             else c.config_BLS12_377)
  if ab is not None:
    cfg["a"], cfg["b"] = ab
  return getattr(repo(ALG + "elliptic_curve"), CLS[kind])(cfg)


def random_curve(rng, n):
  """Points (distinct abscissae) of a curve with random a and b."""
  from vc.checks.c19 import inv
  while True:
    ps = [(rng.randrange(1, Q), rng.randrange(1, Q)) for _ in range(2)]
    if ps[0][0] != ps[1][0]:
      break
  r = [(y * y - x * x * x) % Q for x, y in ps]
  a = (r[0] - r[1]) * inv(ps[0][0] - ps[1][0]) % Q
  return ps[:n], (a, (r[0] - a * ps[0][0]) % Q)


def mkpoint(cs, kind, co):
  return (cs.generate_point(co, twist=False) if kind == "twisted"
          else cs.generate_point(co))


def rnd(rng, kind, n, z=(True, True), sel=None):
  from vc.checks.c19 import pool, rep
  ps = pool(rng, kind)
  while sel is None:
    sel = [rng.choice(ps) for _ in range(n)]
    if n > 1 and kind != "twisted" and sel[0][0] == sel[1][0]:
      sel = None
  out = []
  for i, p in enumerate(sel):
    out.append(rep(rng, kind, p, Q - 1) if z[i] else
               dict(affine=[p[0], p[1]], projective=[p[0], p[1], 1],
                    xyzz=[p[0], p[1], 1, 1],
                    twisted=[p[0], p[1], 1, p[0] * p[1] % Q])[kind])
  return sel, out


def concrete_sum(u, rng, kind, via, dbl, z):
  from vc.checks.c19 import t_add, w_add
  for i in range(12):
    ab = sel = None
    if i % 2 and kind != "twisted":
      sel, ab = random_curve(rng, 1 if dbl else 2)
    sel, reps = rnd(rng, kind, 1 if dbl else 2, z, sel)
    cs = plain(kind, ab)
    p = mkpoint(cs, kind, reps[0])
    q = p if dbl else mkpoint(cs, kind, reps[1])
    if via == "+":
      r = p + q
    elif via == "double_general":
      r = cs.double_general(p)
    else:
      r = getattr(cs, via)(p, q)
    u.evals += 1
    b = sel[0] if dbl else sel[1]
    want = t_add(sel[0], b) if kind == "twisted" else w_add(
        sel[0], b, ab[0] if ab else 0)
    co = [value_of(c) for c in r[:]]
    if to_affine(kind, co) != want or any(not 0 <= c < Q for c in co):
      return dict(system=kind, call=via, curve=ab and [hex(v) for v in ab],
                  operands=[[hex(v) for v in x]
                                                   for x in reps],
                  got=[hex(v) for v in co], want=[hex(v) for v in want])
  return None


# -- neutral element, repeated doubling ------------------------------------------


def neutral_unit(kind):
  cls = CLS[kind]
  name = f"reference {kind} neutral element"

  def prove(ob):
    s = Sym(kind, 1)

    def run(order):
      def fn(k):
        cs = s.system(k, cls)
        p = gen(cs, s, k, 0)
        o = cs.generate_point(zero=True)
        r = p + o if order else o + p
        return r[:], r.is_zero()

      def post(tag, k, r):
        co, zero = r
        po = Post(ob, tag, s, k)
        want = s.coords(0)
        ob.true(f"{tag}: not the neutral element", not zero)
        ob.true(f"{tag}: coordinates", len(co) == len(want))
        if kind == "twisted":
          co = [vf(k, c) for c in co]
          w = [F(k, p) for p in want]
          for i in (0, 1, 3):
            po.same(f"coordinate {i}", co[i] * w[2], w[i] * co[2])
          po.nonzero("z", co[2], [(s.pts[0][2], atom(s.pts[0][2]))])
        else:
          for i, (c, w) in enumerate(zip(co, want)):
            po.same(f"coordinate {i}", vf(k, c), F(k, w))
      each(ob, f"{name}, {'right' if order else 'left'}", s, fn, post)
    run(True)
    run(False)

    def both(k):
      cs = s.system(k, cls)
      o = cs.generate_point(zero=True)
      r = o + cs.generate_point(zero=True)
      return r[:] if r.coordinates is not None else None, r.is_zero(), (
          o << 3).is_zero()

    def post2(tag, k, r):
      co, zero, shifted = r
      if kind == "twisted":
        X, Y, Z, T = [vf(k, c) for c in co]
        R = s.R
        ob.true(f"{tag}: sum of neutral elements", not X.n.t and not T.n.t and
                R.eq(R.mul(Y.n, Z.d), R.mul(Z.n, Y.d)) and bool(Z.n.t))
      else:
        ob.true(f"{tag}: sum of neutral elements", zero)
      ob.true(f"{tag}: doubled neutral element", shifted)
    each(ob, f"{name}, both", s, both, post2)

  u = Unit(name, [ECM + f"{cls}.point_add", ECM + f"{cls}.generate_point",
                  ECM + "ECPoint.copy", ECM + "ECPoint.__add__",
                  ECM + "ECPoint.__lshift__"], prove)

  def concrete(rng, n, hints):
    for _ in range(4):
      sel, reps = rnd(rng, kind, 1)
      cs = plain(kind)
      for order in (0, 1):
        p, o = mkpoint(cs, kind, reps[0]), cs.generate_point(zero=True)
        r = p + o if order else o + p
        u.evals += 1
        if to_affine(kind, [value_of(c) for c in r[:]]) != sel[0]:
          return dict(system=kind, operand=[hex(v) for v in reps[0]],
                      order=order, got=str(r))
    return None
  u.concrete = concrete
  return u


class Tok:
  """A point about which only 'doubled n times' is known."""

  def __init__(self, n): self.n = n

  def is_zero(self): return False

  def copy(self): return Tok(self.n)


def shift_unit(kind):
  cls = CLS[kind]
  name = f"reference {kind} repeated doubling"

  def prove(ob):
    with reffield.shims(reffield.mods(repo)):
      cs = plain(kind)
      cs.double_general = lambda p: Tok(p.n + 1)
      for n in list(range(0, 34)) + [63, 64, 65, 127, 128, 253, 255, 256, 257,
                                     384, 512, 1000, 1024, 4097, 70000]:
        r = cs.point_lshift(Tok(0), n)
        ob.true(f"{name}: {n}", isinstance(r, Tok) and r.n == n,
                f"{getattr(r, 'n', r)} doublings")

  u = Unit(name, [ECM + f"{cls}.point_lshift", ECM + "ECPoint.__lshift__"],
           prove)

  def concrete(rng, n, hints):
    from vc.checks.c19 import t_add, w_add
    for sh in (0, 1, 2, 3, 4, 5, 9, 17, 33, 64, 129, 256, 300):
      sel, reps = rnd(rng, kind, 1)
      cs = plain(kind)
      r = mkpoint(cs, kind, reps[0]) << sh
      want = sel[0]
      for _ in range(sh):
        want = (t_add if kind == "twisted" else w_add)(want, want)
      u.evals += 1
      if to_affine(kind, [value_of(c) for c in r[:]]) != want:
        return dict(system=kind, operand=[hex(v) for v in reps[0]], shift=sh,
                    got=str(r), want=[hex(v) for v in want])
    return None
  u.concrete = concrete
  u.assumes = ["double_general meets its contract (proved)"]
  return u


# -- conversions -----------------------------------------------------------------


def conv_unit(kind):
  cls = CLS[kind]
  name = f"reference {kind} conversions"

  def prove(ob):
    s = Sym(kind, 1)
    R = s.R
    x, y, z = s.pts[0]
    fs = [(z, atom(z))]

    def fn(k):
      cs = s.system(k, cls)
      r = gen(cs, s, k, 0).convert_to_affine()
      return r[:], r.is_zero()

    def post(tag, k, r):
      po = Post(ob, tag, s, k)
      po.divisors(fs)
      po.same("x", vf(k, r[0][0]), F(k, x))
      po.same("y", vf(k, r[0][1]), F(k, y))
      ob.true(f"{tag}: finite", not r[1])
      for i, c in enumerate(r[0][2:]):
        po.same(f"coordinate {i + 2} is one", vf(k, c), F(k, s.one))
    each(ob, f"{name}: to affine", s, fn, post)
    if kind == "affine":
      return

    def frm(k):
      cs = s.system(k, cls)
      ap = s.system(k, CLS["affine"]).generate_point(
          [s.fe(k, x), s.fe(k, y)])
      r = cs.convert_from_affine(ap)
      return r[:], r.is_zero(), r.get_type() == cs.get_type(), ap[:]

    def post2(tag, k, r):
      po = Post(ob, tag, s, k)
      want = s.coords(0, False)
      ob.true(f"{tag}: shape", len(r[0]) == len(want) and not r[1] and r[2])
      for i, (c, w) in enumerate(zip(r[0], want)):
        po.same(f"coordinate {i}", vf(k, c), F(k, w))
      ob.true(f"{tag}: operand untouched", len(r[3]) == 2)
      po.same("operand x", vf(k, r[3][0]), F(k, x))
      po.same("operand y", vf(k, r[3][1]), F(k, y))
    each(ob, f"{name}: from affine", s, frm, post2)

    def zero(k):
      cs = s.system(k, cls)
      o = s.system(k, CLS["affine"]).generate_point(zero=True)
      return cs.convert_from_affine(o).is_zero(), cs.convert_to_affine(
          cs.generate_point(zero=True)).is_zero()
    each(ob, f"{name}: neutral element", s, zero,
         lambda tag, k, r: ob.true(tag, all(r)))

  u = Unit(name, [ECM + f"{cls}.convert_to_affine"] +
           ([] if kind == "affine" else [ECM + f"{cls}.convert_from_affine"]),
           prove)

  def concrete(rng, n, hints):
    for _ in range(8):
      sel, reps = rnd(rng, kind, 1)
      cs = plain(kind)
      r = mkpoint(cs, kind, reps[0]).convert_to_affine()
      u.evals += 1
      got = tuple(value_of(c) for c in r[:2])
      if got != sel[0]:
        return dict(system=kind, operand=[hex(v) for v in reps[0]],
                    got=[hex(v) for v in got])
      if kind != "affine":
        ap = plain("affine").generate_point(list(sel[0]))
        q = cs.convert_from_affine(ap)
        if to_affine(kind, [value_of(c) for c in q[:]]) != sel[0]:
          return dict(system=kind, affine=[hex(v) for v in sel[0]],
                      got=str(q))
    return None
  u.concrete = concrete
  return u


def formal_unit():
  """Points built from two coordinates or from integers."""
  name = "reference points from integers"

  def prove(ob):
    for kind in CLS:
      s = Sym(kind, 1)
      x, y, _ = s.pts[0]

      def fn(k, kind=kind, s=s, x=x, y=y):
        cs = s.system(k, CLS[kind])
        out = []
        if kind == "projective":
          lists = [s.coords(0)]
        else:
          lists = [s.coords(0, False)[:2]] + (
              [s.coords(0)] if kind != "affine" else [])
        for l in lists:
          v = [F(k, p) for p in l]
          out.append((cs.generate_point(v, twist=False) if kind == "twisted"
                      else cs.generate_point(v))[:])
        return out

      def post(tag, k, r, kind=kind, s=s):
        po = Post(ob, tag, s, k)
        for j, co in enumerate(r):
          full = kind == "projective" or j == 1
          want = s.coords(0, full)
          ob.true(f"{tag}: length {j}", len(co) == len(want))
          for i, (c, w) in enumerate(zip(co, want)):
            po.same(f"coordinate {j}.{i}", vf(k, c), F(k, w))
      each(ob, f"{name}: {kind}", s, fn, post)

  u = Unit(name, [ECM + f"{c}.generate_formal_coordinates"
                  for c in CLS.values() if c != CLS["projective"]] +
           [ECM + "ECCSWeierstrass.generate_formal_coordinates",
            ECM + "ECPoint.__init__"], prove)

  def concrete(rng, n, hints):
    for kind in CLS:
      sel, reps = rnd(rng, kind, 1, (False,))
      cs = plain(kind)
      cases = [reps[0]] + ([] if kind == "projective" else [list(sel[0])])
      for co in cases:
        p = mkpoint(cs, kind, co)
        u.evals += 1
        if to_affine(kind, [value_of(c) for c in p[:]]) != sel[0]:
          return dict(system=kind, coordinates=[hex(v) for v in co],
                      got=str(p))
    return None
  u.concrete = concrete
  return u


# -- the twist ---------------------------------------------------------------------


def twist_consts():
  c = config().config_BLS12_377_t
  return {n: int(c[n]) % Q for n in ("a", "d", "alpha", "s", "MA", "MB", "t")}


def py_twist(p):
  from vc.checks.c19 import inv
  c = twist_consts()
  x, y = p
  xm, ym = c["s"] * (x - c["alpha"]) % Q, c["s"] * y % Q
  return (c["t"] * xm * inv(ym) % Q, (xm - 1) * inv(xm + 1) % Q)


def twist_unit():
  cls = CLS["twisted"]
  name = "reference twist and untwist"

  def prove(ob):
    s = Sym("twisted", 2, symbolic_ab=False)
    R = s.R
    c = twist_consts()
    x, y, z = s.pts[0]
    # not a point of order two, and xm + 1 != 0 (not on the curve's image)
    xm1 = R.add(R.scale(x, c["s"]), R.const(1 - c["s"] * c["alpha"]))
    nz = [y, xm1]
    xe = R.sub(x, R.const(c["alpha"]))
    fs = [(y, atom(y)), (xm1, atom(x))]

    def on_twisted(po, what, xt, yt):
      k = po.k
      one = F(k, s.one)
      xx, yy = xt * xt, yt * yt
      po.same(what, yy - xx, one + xx * yy * F(k, R.const(c["d"])))

    def tw(k):
      cs = s.system(k, cls)
      t = cs.twist([s.fe(k, x), s.fe(k, y)])
      p = cs.generate_point([s.fe(k, x), s.fe(k, y)])
      pi = cs.generate_point([F(k, x), F(k, y)])
      return t, p[:], pi[:], list(k.divs)

    def post(tag, k, r):
      po = Post(ob, tag, s, k, s.on_curve)
      t, p, pi, divs = r
      for i, d in enumerate(divs):
        po.nonzero(f"divisor {i}", F(k, d), fs)
      on_twisted(po, "image on the twisted curve", vf(k, t[0]), vf(k, t[1]))
      for q, w in ((p, "field elements"), (pi, "integers")):
        ob.true(f"{tag}: four coordinates from {w}", len(q) == 4)
        X, Y, Z, T = [vf(k, v) for v in q]
        po.same(f"x from {w}", X, vf(k, t[0]) * Z)
        po.same(f"y from {w}", Y, vf(k, t[1]) * Z)
        po.same(f"t from {w}", T * Z, X * Y)
        po.same(f"z from {w}", Z, F(k, s.one))
    each(ob, f"{name}: image", s, tw, post, nz)

    # xm = s (x - alpha) divides once the images are inverted: x = alpha is
    # the point of order two
    def fn2(k):
      cs = s.system(k, cls)
      r = cs.untwist(cs.twist([s.fe(k, x), s.fe(k, y)]))
      k.divs[:] = [d for d in k.divs if set(d.t) != {()}]
      return r

    def post2b(tag, k, r):
      po = Post(ob, tag, s, k)
      po.same("x comes back", vf(k, r[0]), F(k, x))
      po.same("y comes back", vf(k, r[1]), F(k, y))
      for i, d in enumerate(k.divs):
        ok = False
        for ey in range(4):
          for e1 in range(4):
            for ex in range(4):
              prod = R.mul(R.pow(y, ey), R.pow(xm1, e1), R.pow(xe, ex))
              m = next(iter(prod.t))
              if len(prod.t) == len(d.t) and m in d.t and R.eq(
                  d, R.scale(prod, d.t[m] * pow(prod.t[m], -1, Q) % Q)):
                ok = True
        ob.true(f"{tag}: divisor {i} not zero", ok)
    each(ob, f"{name}: round trip", s, fn2, post2b, nz + [xe])

    # untwist after twist is the identity; the other way round
    xt, yt, _ = s.pts[1]

    def back(k):
      cs = s.system(k, cls)
      w = cs.untwist([s.fe(k, xt), s.fe(k, yt)])
      return cs.twist(w)

    def post3(tag, k, r):
      po = Post(ob, tag, s, k)
      po.same("x comes back", vf(k, r[0]), F(k, xt))
      po.same("y comes back", vf(k, r[1]), F(k, yt))
    each(ob, f"{name}: reverse round trip", s, back, post3,
         excluded=lambda k: bool(k.eqs))

    # projective point to affine
    def cv(k):
      cs = s.system(k, cls)
      p = gen(cs, s, k, 1)
      e = cs.convert_to_twisted_edwards_affine(p)
      a = p.convert_to_affine()
      return e[:], a[:], cs.untwist([s.fe(k, xt), s.fe(k, yt)])

    def post4(tag, k, r):
      po = Post(ob, tag, s, k)
      e, a, w = r
      po.same("twisted x", vf(k, e[0]), F(k, xt))
      po.same("twisted y", vf(k, e[1]), F(k, yt))
      po.same("twisted z is one", vf(k, e[2]), F(k, s.one))
      po.same("affine z is one", vf(k, a[2]), F(k, s.one))
      po.same("affine x", vf(k, a[0]), vf(k, w[0]))
      po.same("affine y", vf(k, a[1]), vf(k, w[1]))
    each(ob, f"{name}: to affine", s, cv, post4)

  u = Unit(name, [ECM + f"{cls}.{m}" for m in (
      "twist", "untwist", "generate_point", "convert_to_affine",
      "convert_to_twisted_edwards_affine", "twist_int_coordinates")], prove)

  def concrete(rng, n, hints):
    from vc.checks.c19 import pool
    ps = pool(rng, "xyzz")
    for _ in range(12):
      p = rng.choice(ps)
      cs = plain("twisted")
      g = cs.generate_point(list(p))
      u.evals += 1
      want = py_twist(p)
      co = [value_of(c) for c in g[:]]
      ti = cs.twist_int_coordinates(list(p))
      back = [value_of(c) for c in g.convert_to_affine()[:2]]
      big = cs.point_lshift(g, rng.randrange(1, 3))
      te = [value_of(c) for c in
            cs.convert_to_twisted_edwards_affine(big)[:3]]
      if (te[2] != 1 or tuple(te[:2]) !=
          to_affine("twisted", [value_of(c) for c in big[:]])):
        return dict(function="convert_to_twisted_edwards_affine",
                    point=str(big), got=[hex(v) for v in te])
      if (to_affine("twisted", co) != want or tuple(back) != p or
          to_affine("twisted", ti) != want or
          any(not 0 <= int(t) < Q for t in ti)):
        return dict(point=[hex(v) for v in p], twisted=[hex(v) for v in co],
                    ints=[hex(int(v)) for v in ti],
                    back=[hex(v) for v in back])
    return None
  u.concrete = concrete
  u.assumes = ["operands are not points of order two"]
  return u


def hom_unit():
  """The twist maps the Weierstrass sum to the twisted sum."""
  cls = CLS["twisted"]
  name = "reference twist is a homomorphism"

  def prove(ob):
    s = Sym("twisted", 2, symbolic_ab=False)
    R = s.R
    c = twist_consts()
    for dbl in (False, True):
      def fn(k):
        cs = s.system(k, cls)
        p = [s.fe(k, v) for v in s.pts[0][:2]]
        q = p if dbl else [s.fe(k, v) for v in s.pts[1][:2]]
        nx, ny, d = s.law(dbl)
        w = [F(k, nx, R.pow(d, 2)), F(k, ny, R.pow(d, 3))]
        tp, tq = cs.twist(p), cs.twist(q)
        tw = cs.twist([s_elem(k, v) for v in w])
        return [[vf(k, v) for v in t] for t in (tp, tq, tw)]

      def s_elem(k, v):
        ff = repo(ALG + "finite_field")
        bi = repo(ALG + "big_integer")
        return ff.FiniteFieldElement(bi.GMPBigInteger(v), Q)

      def post(tag, k, r):
        po = Post(ob, tag, s, k, s.on_curve)
        (x1, y1), (x2, y2), (x3, y3) = r
        one = F(k, s.one)
        e = x1 * x2 * y1 * y2 * F(k, R.const(c["d"]))
        po.same("x", x3 * (one + e), x1 * y2 + x2 * y1)
        po.same("y", y3 * (one - e), y1 * y2 + x1 * x2)
      each(ob, f"{name}, {'doubling' if dbl else 'addition'}", s, fn, post,
           excluded=lambda k: bool(k.eqs))

  u = Unit(name, [ECM + f"{cls}.twist"], prove)

  def concrete(rng, n, hints):
    from vc.checks.c19 import t_add, w_add
    for _ in range(8):
      sel, _ = rnd(rng, "xyzz", 2)
      cs = plain("twisted")
      tp = [tuple(value_of(c) for c in cs.generate_point(list(p))[:2])
            for p in (sel[0], sel[1], w_add(*sel))]
      u.evals += 1
      if t_add(tp[0], tp[1]) != tp[2]:
        return dict(points=[[hex(v) for v in p] for p in sel])
    return None
  u.concrete = concrete
  u.assumes = ["neither operand nor the sum has order two"]
  return u


def units():
  us = []
  for kind in ("affine", "xyzz"):
    us.append(add_unit(kind, "+", False))
    us.append(add_unit(kind, "add_general", False))
    us.append(add_unit(kind, "+", True))
    us.append(add_unit(kind, "double_general", True))
  us.append(add_unit("projective", "+", False, complete=True))
  us.append(add_unit("projective", "+", False, z=(True, False),
                     note=", second operand with z = 1"))
  us.append(add_unit("projective", "+", False, z=(False, True),
                     note=", first operand with z = 1"))
  us.append(add_unit("projective", "+", False, z=(False, False),
                     note=", both operands with z = 1"))
  us.append(add_unit("projective", "add_general", False, complete=True))
  us.append(add_unit("projective", "+", True))
  us.append(add_unit("projective", "double_general", True))
  us.append(add_unit("twisted", "+", False))
  us.append(add_unit("twisted", "double_general", True))
  for kind in CLS:
    us.append(neutral_unit(kind))
    us.append(shift_unit(kind))
  for kind in ("affine", "projective", "xyzz"):
    us.append(conv_unit(kind))
  us.append(formal_unit())
  us.append(twist_unit())
  us.append(hom_unit())
  return us
