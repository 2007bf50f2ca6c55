"""C19: point formulas implement the elliptic-curve group law."""

import numpy as np

from vc import field, jx, limbs, rns
from vc.checks import c17, c18
from vc.field import Ring, atom, power_product
from vc.harness import Unit, repo
from vc.limbs import FF, Q, UT, dec, enc, value, vec
from vc.poly import P, Unsupported, V, pconst
from vc.rns import system

X64 = True
U16 = np.uint16
EC = "jaxite.jaxite_ec.elliptic_curve:"
QS = Q << 16
LAZY = c17.LAZY
D_TW = 122268283598675559488486339158635529096981886914877139579534153582033676785385790730042363341236035746924960903179

# -- specifications -----------------------------------------------------------


class Spec:
  """Symbolic affine points with general representatives, and the group law."""

  def __init__(self, kind, count):
    self.kind = kind
    self.R = R = Ring()
    self.pts = []
    for i in range(count):
      x, y, z = (R.var(f"{n}{i}") for n in "xyz")
      self.pts.append((x, y, z))

  def coords(self, i):
    R = self.R
    x, y, z = self.pts[i]
    if self.kind == "xyzz":
      z2, z3 = R.pow(z, 2), R.pow(z, 3)
      return [R.mul(x, z2), R.mul(y, z3), z2, z3]
    if self.kind == "projective":
      return [R.mul(x, z), R.mul(y, z), z]
    if self.kind == "affine":
      return [x, y]
    return [R.mul(x, z), R.mul(y, z), z, R.mul(x, y, z)]

  def law(self, dbl, a=0):
    """(num_x, num_y, den): affine sum; den^2, den^3 below x and y."""
    R = self.R
    x1, y1, _ = self.pts[0]
    x2, y2, _ = self.pts[0] if dbl else self.pts[1]
    if dbl:
      n, d = R.add(R.scale(R.mul(x1, x1), 3), R.const(a)), R.scale(y1, 2)
    else:
      n, d = R.sub(y2, y1), R.sub(x2, x1)
    dd = R.mul(d, d)
    nx = R.sub(R.mul(n, n), R.mul(R.add(x1, x2), dd))
    ny = R.sub(R.mul(n, R.sub(R.mul(x1, dd), nx)), R.mul(y1, R.mul(dd, d)))
    return nx, ny, d

  def factors(self, dbl, d):
    """What may be assumed not to vanish."""
    out = [(z, atom(z)) for _, _, z in self.pts]
    out.append((d, atom(self.pts[0][1]) if dbl else atom(self.pts[1][0])))
    return out

  def weierstrass(self, ob, tag, out, dbl, a=0, yon=None):
    """yon: reduce even powers of y with the curve equation (b given)."""
    R = self.R
    nx, ny, d = self.law(dbl, a)
    d2, d3 = R.pow(d, 2), R.pow(d, 3)
    red = self.reduce_y(yon) if yon is not None else (lambda p: p)
    if self.kind == "xyzz":
      X, Y, ZZ, ZZZ = out
      ob.true(f"{tag}: x", R.eq(red(R.mul(X, d2)), red(R.mul(nx, ZZ))))
      ob.true(f"{tag}: y", R.eq(red(R.mul(Y, d3)), red(R.mul(ny, ZZZ))))
      ob.true(f"{tag}: zz^3 = zzz^2", R.eq(R.pow(ZZ, 3), R.pow(ZZZ, 2)))
      ob.true(f"{tag}: zz not zero", power_product(R, ZZ,
                                                   self.factors(dbl, d)))
      return
    X, Y, Z = out
    ob.true(f"{tag}: x", R.eq(red(R.mul(X, d2)), red(R.mul(nx, Z))))
    ob.true(f"{tag}: y", R.eq(red(R.mul(Y, d3)), red(R.mul(ny, Z))))
    if yon is None:
      ob.true(f"{tag}: z not zero", power_product(R, Z,
                                                  self.factors(dbl, d)))

  def reduce_y(self, ab):
    """Normal form modulo y_i^2 = x_i^3 + a x_i + b."""
    R = self.R
    a, b = ab

    def red(p):
      for x, y, _ in self.pts:
        r = R.add(R.pow(x, 3), R.scale(x, a), R.const(b))

        def powers(e, r=r, y=y):
          q = R.pow(r, e // 2)
          return R.mul(q, y) if e % 2 else q
        p = R.subst(p, atom(y), powers)
      return p
    return red

  def twisted(self, ob, tag, out, dbl, d=D_TW):
    R = self.R
    X, Y, Z, T = out
    x1, y1, z1 = self.pts[0]
    x2, y2, z2 = self.pts[0] if dbl else self.pts[1]
    nx = R.add(R.mul(x1, y2), R.mul(x2, y1))
    ny = R.add(R.mul(y1, y2), R.mul(x1, x2))
    if dbl:  # d x^2 y^2 = y^2 - x^2 - 1 on the curve
      yy, xx = R.mul(y1, y1), R.mul(x1, x1)
      dx = R.sub(yy, xx)
      dy = R.sub(R.const(2), dx)
    else:
      e = R.scale(R.mul(x1, x2, y1, y2), d)
      dx = R.add(R.const(1), e)
      dy = R.sub(R.const(1), e)
    ob.true(f"{tag}: x", R.eq(R.mul(X, dx), R.mul(nx, Z)))
    ob.true(f"{tag}: y", R.eq(R.mul(Y, dy), R.mul(ny, Z)))
    ob.true(f"{tag}: t z = x y", R.eq(R.mul(T, Z), R.mul(X, Y)))
    # z vanishes only with an input z or a denominator of the law
    dd = R.mul(dx, dy)
    zs = [z for _, _, z in self.pts]
    prod = dd
    for z in zs:
      prod = R.mul(prod, R.pow(z, R.degree(Z, atom(z))))
    ok = bool(Z.t)
    if ok:
      m = next(iter(prod.t))
      ok = m in Z.t and R.eq(Z, R.scale(
          prod, Z.t[m] * pow(prod.t[m], -1, Q) % Q))
    ob.true(f"{tag}: z not zero", ok)


# -- limb kernels --------------------------------------------------------------


class LimbContracts:
  """Contracts of the field operations (proved in C17) at their call sites.

  A contract is used only if the called jaxpr is the one C17 proves: the
  function traced afresh with the parameters of a proved configuration.
  """

  def __init__(self, ob, c):
    self.ob, self.c = ob, c
    self.n = 0
    self.table = {k: getattr(self, k) for k in (
        "mod_mul_barrett_2u16", "mod_mul_lazy_2u16", "cond_sub_2u16",
        "cond_sub_mod_u16", "sub_2u16")}

  def handlers(self):
    return {k: self.wrap(k) for k in self.table}

  def wrap(self, name):
    def h(interp, closed, ins):
      if not same_code(FF + name, closed, self.configs(name)):
        return None
      return self.table[name](closed, ins)
    return h

  def configs(self, name):
    t = repo(UT)
    ext = dict(modulus_377_int_chunk=t.MODULUS_377_S16_INT_CHUNK,
               chunk_num_u16=25)
    if name in ("cond_sub_2u16", "cond_sub_mod_u16"):
      return [{}, ext]
    if name == "sub_2u16":
      return [{}, dict(chunk_num_u16=25)]
    return [{}]

  def need(self, what, a, b):
    self.n += 1
    self.ob.ge(f"call {self.n}: {what}", self.c, a, b)

  def fresh(self, shape, hi, cong, n):
    c = self.c
    out = np.empty(shape, object)
    for ix in np.ndindex(*shape):
      p = c.modnorm(c.poly(cong[ix]), Q)
      v = c.var(f"f{len(c.atoms)}", 0, hi[ix], "fresh")
      c.modrep[(len(c.atoms) - 1, Q)] = p
      out[ix] = v
    return [vec(c, out, n)]

  def vals(self, ins):
    v = [value(self.c, x) for x in ins]
    v = [x.reshape((1,)) if x.ndim == 0 else x for x in v]
    return np.broadcast_arrays(*v)

  def pair(self, closed, ins, pre, hi, cong):
    n = closed.jaxpr.outvars[0].aval.shape[-1]
    vs = self.vals(ins)
    h = np.empty(vs[0].shape, object)
    g = np.empty(vs[0].shape, object)
    for ix in np.ndindex(*h.shape):
      a = [v[ix] for v in vs]
      pre(n, *a)
      h[ix] = hi(n, *a)
      g[ix] = cong(*a)
    return self.fresh(h.shape, h, g, n)

  def mod_mul_barrett_2u16(self, closed, ins):
    def pre(n, a, b):
      self.need("barrett operand", 8 * Q, a)
      self.need("barrett operand", 8 * Q, b)
    return self.pair(closed, ins, pre, lambda n, a, b: Q - 1, self.c.mul)

  def mod_mul_lazy_2u16(self, closed, ins):
    return self.pair(closed, ins, lambda *_: None, lambda n, a, b: LAZY,
                     self.c.mul)

  def modulus(self, n):
    return Q if n == 24 else QS

  def cond_sub_2u16(self, closed, ins):
    def pre(n, a, b):
      self.need("minuend", ((1 << (16 * n - 1)) - 1) // 2, a)
      self.need("subtrahend", self.modulus(n), b)
    return self.pair(closed, ins, pre, lambda n, a, b: max(
        self.c.rng(a)[1], self.modulus(n) - 1), self.c.sub)

  def cond_sub_mod_u16(self, closed, ins):
    def pre(n, a):
      self.need("operand", (1 << (16 * n - 1)) - 1, a)
    return self.pair(closed, ins, pre, lambda n, a: max(
        self.c.rng(a)[1] - self.modulus(n), self.modulus(n) - 1),
                     lambda a: a)

  def sub_2u16(self, closed, ins):
    def pre(n, a, b):
      self.need("minuend", (1 << (16 * n - 1)) - 1, a)
      self.need("difference", a, b)
    return self.pair(closed, ins, pre, lambda n, a, b: self.c.rng(a)[1],
                     self.c.sub)


_CODE = {}


def same_code(path, closed, configs):
  """closed is the jaxpr of the named function at some listed configuration."""
  import jax
  avals = tuple((v.aval.shape, str(v.aval.dtype)) for v in
                closed.jaxpr.invars)
  f = repo(path)
  for kw in configs:
    key = (path, avals, tuple(sorted((k, str(v)) for k, v in kw.items())))
    if key not in _CODE:
      try:
        ref = jax.make_jaxpr(lambda *a, kw=kw: f(*a, **kw))(
            *[jax.ShapeDtypeStruct(s, d) for s, d in avals])
        eq = [e for e in ref.jaxpr.eqns if "jaxpr" in e.params]
        body = eq[0].params["jaxpr"] if len(ref.jaxpr.eqns) == 1 else None
        # hoisted constants arrive as leading operands
        _CODE[key] = (str(body) if body is not None else None,
                      [np.asarray(x) for x in body.consts] if body is not None
                      else [])
      except Exception:  # pylint: disable=broad-except
        _CODE[key] = (None, [])
    s, consts = _CODE[key]
    if s is not None and s == str(closed) and len(consts) == len(
        closed.consts) and all(np.array_equal(a, np.asarray(b))
                               for a, b in zip(consts, closed.consts)):
      return True
  return False


def limb_kernel(name, kind, call, count, n, hi, out_hi, pack, dbl,
                neg=False, batch=1, first=False):
  """One accelerator kernel on limb vectors."""
  def prove(ob):
    s = Spec(kind, count)
    d = limbs.dom()
    c = d.c
    # the context's atoms continue those of the polynomial ring
    c.atoms.extend(s.R.c.atoms)
    args, pts = [], []
    for i in range(count):
      cs = s.coords(i)
      g = np.empty((len(cs), batch), object)
      for k, p in enumerate(cs):
        for b in range(batch):
          g[k, b] = c.var(f"c{i}{k}{b}", 0, hi)
          c.modrep[(len(c.atoms) - 1, Q)] = p
      pts.append(vec(c, g, n))
    if pack:
      args = [((p.transpose(1, 0, 2) if first else p), U16) for p in pts]
    else:
      args = [(p[k], U16) for p in pts for k in range(p.shape[0])]
    lc = LimbContracts(ob, c)
    (o,), _ = limbs.run(repo(EC + call), args, d, ob,
                        contracts=lc.handlers())
    ob.true("shape", o.shape == (4, batch, n), str(o.shape))
    v = value(c, o)
    for b in range(batch):
      out = [s.R.norm(c.modnorm(c.poly(v[k, b]), Q)) for k in range(4)]
      for k in range(4):
        ob.ge(f"coordinate {k} range", c, out_hi, v[k, b])
      if neg:
        R = s.R
        x, y, z = s.pts[0]
        X, Y, Z, T = out
        ob.true("negation x", R.eq(X, R.scale(R.mul(x, Z), -1)))
        ob.true("negation y", R.eq(Y, R.mul(y, Z)))
        ob.true("negation t", R.eq(R.mul(T, Z), R.mul(X, Y)))
        ob.true("z not zero", power_product(R, Z, [(z, atom(z))]))
      elif kind == "twisted":
        s.twisted(ob, call, out, dbl)
      else:
        s.weierstrass(ob, call, out, dbl)

  def concrete(rng, cnt, hints):
    return run_concrete(
        u, rng, max(2, cnt // 10), call, kind, count, dbl, neg,
        lambda reps: enc(reps, n), dec, pack, hi, out_hi, first)

  u = Unit(name, [EC + call], prove, concrete,
           assumes=["field operations by their contracts (C17)"])
  return u


# -- residue kernels -----------------------------------------------------------


class RE:
  """Word j of the residue representation of a ghost integer."""

  __slots__ = ("g", "j")

  def __init__(self, g, j):
    self.g, self.j = g, j


class Ghost:
  """Integer in [0, hi] congruent to a polynomial modulo q."""

  __slots__ = ("p", "hi", "wide")

  def __init__(self, p, hi, wide=False):
    self.p, self.hi, self.wide = p, hi, wide


class RnsContracts:
  """Contracts of the residue operations (proved in C18)."""

  def __init__(self, ob, R):
    self.ob, self.R = ob, R
    self.s = system()
    self.n = 0
    self.zero_ok = True
    self.table = dict(
        mod_mul_rns_2u16=self.mul, add_sub_rns_var=self.add,
        add_rns_2u16=self.add, add_rns_3u16=self.add,
        negate_rns_for_var_add=self.neg,
        negate_rns_for_var_add_zero_check=self.neg)

  def handlers(self):
    return {k: self.wrap(k) for k in self.table}

  def wrap(self, name):
    def h(interp, closed, ins):
      if not same_code(FF + name, closed, [{}]):
        return None
      return self.table[name](closed, ins)
    return h

  def rows(self, x):
    s = self.s
    x = np.asarray(x) if jx.is_concrete(x) else jx.to_obj(x)
    if x.shape[-1] != s.n:
      raise Unsupported("not a residue array")
    out = np.empty(x.shape[:-1], object)
    for ix in np.ndindex(*out.shape):
      r = x[ix]
      if all(isinstance(e, (int, np.integer)) for e in r):
        v = s.crt(r)
        out[ix] = Ghost(self.R.const(v), v)
        continue
      g = r[0].g if isinstance(r[0], RE) else None
      if g is None or any(not isinstance(e, RE) or e.g is not g or e.j != j
                          for j, e in enumerate(r)):
        raise Unsupported("residues of different integers mixed")
      out[ix] = g
    return out

  def arr(self, gs):
    out = np.empty(gs.shape + (self.s.n,), object)
    for ix in np.ndindex(*gs.shape):
      for j in range(self.s.n):
        out[ix + (j,)] = RE(gs[ix], j)
    return [out]

  def need(self, what, cond, detail=""):
    self.n += 1
    self.ob.true(f"call {self.n}: {what}", cond, detail)

  def mul(self, closed, ins):
    a, b = np.broadcast_arrays(self.rows(ins[0]), self.rows(ins[1]))
    o = np.empty(a.shape, object)
    for ix in np.ndindex(*a.shape):
      x, y = a[ix], b[ix]
      self.need("product within the representation",
                x.hi * y.hi <= self.s.xmax,
                f"{x.hi // Q} q times {y.hi // Q} q")
      self.need("16-bit words", not x.wide and not y.wide)
      o[ix] = Ghost(self.R.mul(x.p, y.p), self.s.ymax)
    return self.arr(o)

  def add(self, closed, ins):
    vs = np.broadcast_arrays(*[self.rows(x) for x in ins])
    o = np.empty(vs[0].shape, object)
    for ix in np.ndindex(*o.shape):
      g = [v[ix] for v in vs]
      hi = sum(x.hi for x in g)
      self.need("sum within the representation", hi < self.s.M and
                len(g) < 100)
      o[ix] = Ghost(self.R.add(*[x.p for x in g]), hi)
    return self.arr(o)

  def neg(self, closed, ins):
    a = self.rows(ins[0])
    o = np.empty(a.shape, object)
    for ix in np.ndindex(*a.shape):
      self.need("negated value at most the constant", a[ix].hi <= self.s.K,
                f"{a[ix].hi // Q} q against {self.s.K // Q} q")
      self.need("16-bit words", not a[ix].wide)
      o[ix] = Ghost(self.R.scale(a[ix].p, -1), self.s.K, True)
    return self.arr(o)


def rns_bounds(kind):
  s = system()
  y, K = s.ymax, s.K
  if kind == "twisted":
    return [y, y, y, y]
  return [y + 3 * K, y + K, y, y]


def rns_kernel(name, kind, call, count, dbl, pack=True, batch=1):
  def prove(ob):
    sp = Spec(kind, count)
    s = system()
    bounds = rns_bounds(kind)
    rc = RnsContracts(ob, sp.R)
    args = []
    for i in range(count):
      g = np.empty((4, batch), object)
      for k, p in enumerate(sp.coords(i)):
        for b in range(batch):
          g[k, b] = Ghost(p, bounds[k])
      args.append(rc.arr(g)[0])
    if not pack:
      args = [a[k] for a in args for k in range(4)]
    d = limbs.dom()
    flat, _, _ = jx.run_sym(repo(EC + call), [(a, U16) for a in args], d,
                            contracts=rc.handlers())
    o = rc.rows(flat[0])
    ob.true("shape", o.shape == (4, batch), str(o.shape))
    for b in range(batch):
      for k in range(4):
        ob.true(f"coordinate {k} range", o[k, b].hi <= bounds[k],
                f"{o[k, b].hi // Q} q, at most {bounds[k] // Q} q")
        ob.true(f"coordinate {k} words", not o[k, b].wide)
      out = [o[k, b].p for k in range(4)]
      if kind == "twisted":
        sp.twisted(ob, call, out, dbl)
      else:
        sp.weierstrass(ob, call, out, dbl)

  def concrete(rng, cnt, hints):
    s = system()
    bounds = rns_bounds(kind)

    def encode(reps):
      a = np.asarray(reps, dtype=object)
      return np.stack([s.enc(int(x), rng) for x in a.ravel()]).reshape(
          a.shape + (s.n,))
    return run_concrete(u, rng, max(4, cnt // 4), call, kind, count, dbl,
                        False, encode, s.lift, pack, bounds, bounds, False,
                        batch=32)

  u = Unit(name, [EC + call], prove, concrete,
           assumes=["residue operations by their contracts (C18)"])
  return u


# -- concrete points -----------------------------------------------------------


def inv(x):
  return pow(x, -1, Q)


def w_add(p, q, a=0):
  (x1, y1), (x2, y2) = p, q
  if p == q:
    l = (3 * x1 * x1 + a) * inv(2 * y1) % Q
  else:
    l = (y2 - y1) * inv(x2 - x1) % Q
  x = (l * l - x1 - x2) % Q
  return x, (l * (x1 - x) - y1) % Q


def t_add(p, q):
  (x1, y1), (x2, y2) = p, q
  e = D_TW * x1 * x2 * y1 * y2 % Q
  return ((x1 * y2 + x2 * y1) * inv(1 + e) % Q,
          (y1 * y2 + x1 * x2) * inv(1 - e) % Q)


def sqrt(a):
  """Tonelli-Shanks modulo Q; None for a non-residue."""
  if a % Q == 0:
    return 0
  if pow(a, (Q - 1) // 2, Q) != 1:
    return None
  s, d = 0, Q - 1
  while d % 2 == 0:
    s, d = s + 1, d // 2
  z = 2
  while pow(z, (Q - 1) // 2, Q) == 1:
    z += 1
  m, c, t, r = s, pow(z, d, Q), pow(a, d, Q), pow(a, (d + 1) // 2, Q)
  while t != 1:
    i, t2 = 0, t
    while t2 != 1:
      t2 = t2 * t2 % Q
      i += 1
    b = pow(c, 1 << (m - i - 1), Q)
    m, c, t, r = i, b * b % Q, t * b * b % Q, r * b % Q
  return r


def point(rng, kind):
  """A point of the curve, small abscissae included."""
  while True:
    x = rng.choice([rng.randrange(Q), rng.randrange(1, 1 << 20),
                    Q - rng.randrange(1, 1 << 20)])
    if kind == "twisted":
      den = (1 - D_TW * x * x) % Q
      y = sqrt((1 + x * x) * inv(den) % Q) if den else None
    else:
      y = sqrt((pow(x, 3, Q) + 1) % Q)
    if y and rng.random() < .5:
      y = Q - y
    if y and x:
      return x, y


_POOL = {}


def pool(rng, kind):
  if kind not in _POOL:
    ps = [point(rng, kind) for _ in range(12)]
    add = t_add if kind == "twisted" else w_add
    for i in range(60):
      a, b = rng.sample(ps, 2)
      if kind == "twisted" or a[0] != b[0]:
        ps.append(add(a, b))
    _POOL[kind] = ps
  return _POOL[kind]


def rep(rng, kind, p, hi, small=False):
  """A representative of p, coordinates up to the bounds."""
  x, y = p
  z = rng.choice([1, rng.randrange(1, Q), rng.randrange(1, 1 << 10)])
  if kind == "twisted":
    cs = [x * z % Q, y * z % Q, z, x * y * z % Q]
  elif kind == "projective":
    cs = [x * z % Q, y * z % Q, z]
  elif kind == "affine":
    cs = [x, y]
  else:
    cs = [x * z * z % Q, y * pow(z, 3, Q) % Q, z * z % Q, pow(z, 3, Q)]
  out = []
  for k, c in enumerate(cs):
    h = hi[k] if isinstance(hi, list) else hi
    m = (h - c) // Q
    t = rng.choice([0, 0, m, rng.randint(0, m)]) if m > 0 else 0
    out.append(c + t * Q)
  return out


def affine(kind, cs):
  """Affine point of a representative (None: not a representative)."""
  cs = [int(c) % Q for c in cs]
  if kind == "twisted":
    X, Y, Z, T = cs
    if Z == 0 or (T * Z - X * Y) % Q:
      return None
    return X * inv(Z) % Q, Y * inv(Z) % Q
  X, Y, ZZ, ZZZ = cs
  if ZZ == 0 or (pow(ZZ, 3, Q) - ZZZ * ZZZ) % Q:
    return None
  return X * inv(ZZ) % Q, Y * inv(ZZZ) % Q


def run_concrete(u, rng, rounds, call, kind, count, dbl, neg, encode, decode,
                 pack, hi, out_hi, first, batch=8):
  ps = pool(rng, kind)
  f = repo(EC + call)
  for _ in range(rounds):
    pts, want = [], []
    for _ in range(batch):
      while True:
        sel = [rng.choice(ps) for _ in range(count)]
        if count == 1 or kind == "twisted" or sel[0][0] != sel[1][0]:
          break
      pts.append(sel)
      if neg:
        want.append(((-sel[0][0]) % Q, sel[0][1]))
      elif kind == "twisted":
        want.append(t_add(sel[0], sel[0] if dbl else sel[1]))
      else:
        want.append(w_add(sel[0], sel[0] if dbl else sel[1]))
    reps = [[rep(rng, kind, s[i], hi) for s in pts] for i in range(count)]
    args = []
    for i in range(count):
      a = encode([[r[k] for r in reps[i]] for k in range(4)])
      args.append(a.transpose(1, 0, 2) if first else a)
    if not pack:
      args = [a[k] for a in args for k in range(4)]
    got = np.asarray(f(*args))
    u.evals += batch
    g = decode(got)
    for b in range(batch):
      cs = [int(g[k, b]) for k in range(4)]
      bad = affine(kind, cs) != want[b]
      for k in range(4):
        h = out_hi[k] if isinstance(out_hi, list) else out_hi
        bad = bad or cs[k] > h
      if bad:
        return dict(function=call, points=[[hex(v) for v in p]
                                           for p in pts[b]],
                    representatives=[[hex(v) for v in reps[i][b]]
                                     for i in range(count)],
                    got=[hex(v) for v in cs], want=[hex(v) for v in want[b]])
  return None


def units(tier):
  us = []
  K = limb_kernel
  us += [
      K("barrett xyzz addition", "xyzz", "padd_barret_xyzz", 2, 24, Q - 1,
        Q - 1, False, False),
      K("barrett xyzz addition, packed", "xyzz", "padd_barrett_xyzz_pack", 2,
        24, Q - 1, Q - 1, True, False, batch=2),
      K("barrett xyzz addition, batch first", "xyzz",
        "padd_barrett_xyzz_pack_batch_first", 2, 24, Q - 1, Q - 1, True,
        False, first=True),
      K("barrett xyzz doubling", "xyzz", "pdul_barret_xyzz", 1, 24, Q - 1,
        Q - 1, False, True),
      K("barrett xyzz doubling, packed", "xyzz", "pdul_barrett_xyzz_pack", 1,
        24, Q - 1, Q - 1, True, True, batch=2),
      K("barrett xyzz doubling, batch first", "xyzz",
        "pdul_barrett_xyzz_pack_batch_first", 1, 24, Q - 1, Q - 1, True,
        True, first=True),
      K("lazy xyzz addition", "xyzz", "padd_lazy_xyzz", 2, 25, QS, QS, False,
        False),
      K("lazy xyzz addition, packed", "xyzz", "padd_lazy_xyzz_pack", 2, 25,
        QS, QS, True, False, batch=2),
      K("lazy xyzz doubling", "xyzz", "pdul_lazy_xyzz", 1, 25, QS, QS, False,
        True),
      K("lazy xyzz doubling, packed", "xyzz", "pdul_lazy_xyzz_pack", 1, 25,
        QS, QS, True, True, batch=2),
      K("lazy twisted addition", "twisted", "padd_lazy_twisted", 2, 25, QS,
        QS, False, False),
      K("lazy twisted addition, packed", "twisted", "padd_lazy_twisted_pack",
        2, 25, QS, QS, True, False, batch=2),
      K("lazy twisted doubling", "twisted", "pdul_lazy_twisted", 1, 25, QS,
        QS, False, True),
      K("lazy twisted doubling, packed", "twisted", "pdul_lazy_twisted_pack",
        1, 25, QS, QS, True, True, batch=2),
      K("lazy twisted negation", "twisted", "pneg_lazy_twisted", 1, 25, QS,
        QS, False, False, neg=True),
      K("lazy twisted negation, packed", "twisted", "pneg_lazy_twisted_pack",
        1, 25, QS, QS, True, False, neg=True, batch=2),
  ]
  us += [
      rns_kernel("rns xyzz addition", "xyzz", "padd_rns_xyzz_pack", 2, False),
      rns_kernel("rns xyzz addition, batch", "xyzz", "padd_rns_xyzz_pack", 2,
                 False, batch=2),
      rns_kernel("rns xyzz doubling", "xyzz", "pdul_rns_xyzz_pack", 1, True),
      rns_kernel("rns xyzz doubling, unpacked", "xyzz", "pdul_rns_xyzz", 1,
                 True, pack=False, batch=2),
      rns_kernel("rns twisted addition", "twisted", "padd_rns_twisted_pack",
                 2, False),
      rns_kernel("rns twisted addition, batch", "twisted",
                 "padd_rns_twisted_pack", 2, False, batch=2),
      rns_kernel("rns twisted doubling", "twisted", "pdul_rns_twisted_pack",
                 1, True),
      rns_kernel("rns twisted doubling, unpacked", "twisted",
                 "pdul_rns_twisted", 1, True, pack=False, batch=2),
  ]
  from vc.checks import c19ref
  us += c19ref.units()
  return us
