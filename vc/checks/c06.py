"""C06: torus polynomial arithmetic is exact negacyclic arithmetic."""

import numpy as np

from vc import jx, movement, ring, pallas_sim
from vc.harness import Unit, repo
from vc.jx import IntDom, sym_array
from vc.paths import patched
from vc.poly import Unsupported

M = "jaxite.jaxite_cggi.matrix_utils"
K = "jaxite.jaxite_cggi.polymul_kernel"
W = 1 << 32


def rnd(rng, shape):
  a = np.array([rng.choice([rng.getrandbits(32), rng.getrandbits(32), 0, 1,
                            W - 1, 1 << 31, rng.getrandbits(8)])
                for _ in range(int(np.prod(shape)))], dtype=np.uint64)
  return a.astype(np.uint32).reshape(shape)


def ints(a):
  return [int(x) for x in np.asarray(a).ravel()]


def product_unit(name, fpath, n, spec_sym, build, spec_int, cross_n=None,
                 functions=(), dtype=np.uint32, cross=6):
  """A function of word arrays that must equal an integer spec modulo 2^32.

  build(n) -> list of shapes; spec_sym(ctx, *symbolic arrays) -> list of values
  spec_int(*int arrays) -> list of ints.
  """
  def prove(ob):
    fn = repo(fpath)
    dom = IntDom()
    arrs = [sym_array(dom, f"x{i}", s, dtype) for i, s in enumerate(build(n))]
    flat, _, _ = jx.run_sym(fn, [(a, dtype) for a in arrs], dom)
    out = jx.to_obj(flat[0]).ravel()
    want = spec_sym(dom.c, *arrs)
    ob.true("output size", len(out) == len(want), f"{len(out)} {len(want)}")
    for i, (o, w) in enumerate(zip(out, want)):
      ob.zero_mod(f"coefficient {i} modulo 2^32", dom.c, dom.c.sub(o, w), W)

  def run(rng, k, hints):
    fn = repo(fpath)
    for _ in range(k):
      nn = rng.choice([n, cross_n or n])
      args = [rnd(rng, s) for s in build(nn)]
      run.unit.evals += 1
      run.unit.last_inputs = dict(args=[a.tolist() for a in args])
      got = [x % W for x in ints(fn(*[a.astype(dtype) for a in args]))]
      want = [x % W for x in spec_int(*[a.astype(object) for a in args])]
      if got != want:
        i = next((j for j in range(min(len(got), len(want)))
                  if got[j] != want[j]), -1)
        return dict(function=fpath, args=[a.tolist() for a in args]
                    if nn <= 16 else f"N={nn}", index=i,
                    got=got[i], want=want[i])
    return None

  u = Unit(name, list(functions) or [fpath.replace(":", ".")], prove=prove,
           concrete=run, cross=cross, search=150)
  run.unit = u
  return u


def polydot_sym(c, a, b):
  tot = None
  for x, y in zip(a, b):
    r = ring.negacyclic(c, list(x), list(y))
    tot = r if tot is None else [c.add(p, q) for p, q in zip(tot, r)]
  return tot


def polydot_int(a, b):
  tot = None
  for x, y in zip(a, b):
    r = ring.negacyclic_int(list(x), list(y))
    tot = r if tot is None else [p + q for p, q in zip(tot, r)]
  return tot


def vecmat_sym(c, v, m):
  out = []
  for col in range(m.shape[1]):
    out += polydot_sym(c, v, m[:, col])
  return out


def vecmat_int(v, m):
  out = []
  for col in range(m.shape[1]):
    out += polydot_int(v, m[:, col])
  return out


def matvec_sym(c, x, y):
  return [c.dot(list(x), list(y[:, k])) for k in range(y.shape[1])]


def matmul_sym(c, x, y):
  return [c.dot(list(x[i]), list(y[:, k])) for i in range(x.shape[0])
          for k in range(y.shape[1])]


def matmul_int(x, y):
  return [sum(int(a) * int(b) for a, b in zip(x[i], y[:, k]))
          for i in range(x.shape[0]) for k in range(y.shape[1])]


def monomial_unit(fname, n, log_mod, dtype, ddtype, tier):
  """Monomial products: every residue class of the exponent modulo 2N, each
  with a symbolic multiple of 2N added, so every 32-bit exponent is covered."""
  fpath = f"{M}:{fname}"
  mod = 1 << log_mod if 0 < log_mod < 32 else W
  signed_d = ddtype == np.int32

  def call(fn):
    if fname == "monomial_mul":
      return lambda p, d: fn(p, d, log_mod)
    if fname == "monomial_mul_list":
      return lambda p, d: fn(p, d, log_mod)
    if fname == "scale_by_x_power_n_minus_1":
      return lambda p, d: fn(d, p, log_mod)
    raise KeyError(fname)

  def shape():
    return {"monomial_mul": (n,), "monomial_mul_list": (2, n),
            "scale_by_x_power_n_minus_1": (1, 2, n)}[fname]

  def expect(c, rows, v):
    out = []
    for r in rows:
      m = ring.monomial(c, list(r), v)
      if fname == "scale_by_x_power_n_minus_1":
        m = [c.sub(x, y) for x, y in zip(m, r)]
      out += m
    return out

  def prove(ob):
    fn = call(repo(fpath))
    for v in range(2 * n):
      dom = IntDom()
      c = dom.c
      lo, hi = (-(1 << 31), (1 << 31) - 1) if signed_d else (0, W - 1)
      kk = c.var("k", -((v - lo) // (2 * n)), (hi - v) // (2 * n))
      deg = np.empty((), object)
      deg[()] = c.add(c.mul(kk, 2 * n), v)
      x = sym_array(dom, "x", shape(), dtype)
      flat, _, _ = jx.run_sym(fn, [(x, dtype), (deg, ddtype)], dom)
      out = jx.to_obj(flat[0]).ravel()
      want = expect(c, x.reshape(-1, n), v)
      ob.info = dict(v=v)
      ob.true(f"exponent {v}: size", len(out) == len(want))
      for i, (o, w) in enumerate(zip(out, want)):
        ob.zero_mod(f"exponent {v} mod {2*n}: coefficient {i} modulo "
                    f"2^{log_mod or 32}", c, c.sub(o, w), mod)
        if mod < W:
          ob.ge(f"exponent {v}: coefficient {i} reduced", c, mod - 1, o)
          ob.ge(f"exponent {v}: coefficient {i} non-negative", c, o, 0)

  def run(rng, k, hints):
    fn = call(repo(fpath))
    for _ in range(k):
      x = rnd(rng, shape()).astype(dtype)
      d = rng.choice([rng.randrange(-4 * n, 4 * n + 1) if signed_d
                      else rng.randrange(0, 4 * n + 1), n, 2 * n, n - 1, 0,
                      rng.getrandbits(31)])
      run.unit.evals += 1
      got = [int(z) % mod for z in ints(fn(x, ddtype(d)))]
      want = []
      for r in x.reshape(-1, n):
        r = [int(z) for z in r]
        m = ring.monomial_int(r, d)
        if fname == "scale_by_x_power_n_minus_1":
          m = [p - q for p, q in zip(m, r)]
        want += [z % mod for z in m]
      if got != want:
        return dict(function=fpath, poly=x.tolist(), degree=int(d),
                    log_modulus=log_mod, got=got, want=want)
    return None

  u = Unit(f"{fname} N={n} log_modulus={log_mod} {np.dtype(dtype).name} "
           f"exponent {np.dtype(ddtype).name}", [fpath.replace(":", ".")],
           prove=prove, concrete=run, cross=10, search=400)
  run.unit = u
  return u


def monomial_scale_unit(n):
  """monomial_mul at a degree of practice, for every polynomial: the function
  only moves and negates words, so its selection decides, at every exponent
  from -2N to 4N (the exponents that occur lie between 0 and 2N)."""
  def prove(ob):
    fn = repo(M + ":monomial_mul")
    idx = np.arange(n)
    bad, cnt = [], 0
    for v, (o,) in movement.selections(
        lambda p, d: fn(p, d, 32), [(n,)], range(-2 * n, 4 * n + 1), np.uint32):
      cnt += 1
      src = (idx - v) % (2 * n)
      want = np.where(src < n, src + 1, -(src - n + 1))
      if o.shape != (n,) or (o != want).any():
        bad.append(v)
    ob.true("the selection at every exponent from -2N to 4N is that of the "
            "monomial", not bad and cnt == 6 * n + 1, str(bad[:5]))

  def run(rng, k, hints):
    fn = repo(M + ":monomial_mul")
    for _ in range(k):
      x = rnd(rng, (n,)).astype(np.uint32)
      d = rng.choice([rng.randrange(-2 * n, 4 * n), n, 2 * n - 1, n - 1, -1])
      run.unit.evals += 1
      got = [int(z) % W for z in ints(fn(x, np.int32(d), 32))]
      want = [z % W for z in ring.monomial_int([int(z) for z in x], d)]
      if got != want:
        return dict(function="monomial_mul", degree=int(d), N=n,
                    poly=x.tolist())
    return None
  u = Unit(f"monomial_mul N={n}, exponents -2N to 4N", [M + ".monomial_mul"],
           prove=prove, concrete=run, cross=10, search=200)
  run.unit = u
  return u


def xpow_unit(n):
  fpath = M + ":x_power_n_minus_1"

  def prove(ob):
    fn = repo(fpath)
    for dd in (np.uint32, np.int32):
      for v in range(2 * n):
        dom = IntDom()
        c = dom.c
        lo, hi = (-(1 << 31), (1 << 31) - 1) if dd == np.int32 else (0, W - 1)
        kk = c.var("k", -((v - lo) // (2 * n)), (hi - v) // (2 * n))
        deg = np.empty((), object)
        deg[()] = c.add(c.mul(kk, 2 * n), v)
        flat, _, _ = jx.run_sym(lambda d: fn(d, n), [(deg, dd)], dom)
        out = jx.to_obj(flat[0]).ravel()
        want = ring.monomial_int([1] + [0] * (n - 1), v)
        want[0] -= 1
        for i in range(n):
          ob.eq(f"{np.dtype(dd).name} exponent {v}: coefficient {i}", c,
                out[i], want[i])

  def run(rng, k, hints):
    fn = repo(fpath)
    for _ in range(k):
      d = rng.choice([rng.randrange(0, 4 * n), rng.getrandbits(30)])
      run.unit.evals += 1
      got = ints(fn(d, n))
      want = ring.monomial_int([1] + [0] * (n - 1), d)
      want[0] -= 1
      if [g % W for g in got] != [w % W for w in want]:
        return dict(function=fpath, n=d, degree=n, got=got, want=want)
    return None
  u = Unit(f"x_power_n_minus_1 N={n}", [fpath.replace(":", ".")], prove=prove,
           concrete=run, cross=10, search=200)
  run.unit = u
  return u


def integer_div_unit():
  fpath = M + ":integer_div"
  divs = sorted(set([1, 2, 3, 5, 7, 10, 255, 256, 257, 65535, 65537,
                     (1 << 31) - 1, (1 << 31) + 1, W - 1, W - 5, 12289]
                    + [1 << k for k in range(32)]))

  def prove(ob):
    fn = repo(fpath)
    for d in divs:
      dom = IntDom()
      c = dom.c
      x = sym_array(dom, "x", (1,), np.uint32)
      ob.info = dict(d=d)
      flat, _, _ = jx.run_sym(lambda v: fn(v, np.uint32(d)), [(x, np.uint32)],
                              dom)
      o = jx.to_obj(flat[0]).ravel()[0]
      # 2*x - d <= 2*d*o <= 2*x + d  (nearest), up to wrap at 2^32 for d = 1
      t = c.sub(c.mul(o, 2 * d), c.mul(x[0], 2))
      ob.ge(f"divisor {d}: not below nearest", c, t, -d)
      ob.ge(f"divisor {d}: not above nearest", c, d, t)

  def run(rng, k, hints):
    fn = repo(fpath)
    for i in range(k):
      h = hints[i] if i < len(hints) else {}
      d = h.get("d") or rng.choice(divs + [rng.getrandbits(
          rng.randrange(1, 33)) or 1])
      x = rng.choice([rng.getrandbits(32), W - 1, 0, d // 2, d - 1,
                      min(W - 1, d + d // 2)])
      for a, b in h.items():
        if a.isdigit():
          x = b
      run.unit.evals += 1
      got = int(fn(np.array([x], np.uint32), np.uint32(d))[0])
      if abs(2 * got * d - 2 * x) > d:
        return dict(function=fpath, value=x, divisor=d, got=got)
    return None
  u = Unit(f"integer_div at {len(divs)} divisors", [fpath.replace(":", ".")],
           prove=prove, concrete=run, cross=30, search=1500)
  run.unit = u
  return u


def kernel_unit(b, m, n):
  """The accelerator polynomial-product kernel, with Pallas as documented."""
  fpath = K + ":negacyclic_vector_matrix_polymul"

  def prove(ob):
    dom = IntDom()
    with pallas_sim.simulated():
      fn = repo(fpath)
      v = sym_array(dom, "d", (b, n), np.int32, lo=-64, hi=64)
      mat = sym_array(dom, "x", (b, m, n), np.uint32)
      # digits arrive as words: -d is represented as 2^32 - d
      flat, _, _ = jx.run_sym(
          lambda vv, mm: fn(vv.astype(np.uint32), mm, 4),
          [(v, np.int32), (mat, np.uint32)], dom)
    out = jx.to_obj(flat[0]).ravel()
    want = vecmat_sym(dom.c, v, mat)
    ob.true("output size", len(out) == len(want))
    for i, (o, w) in enumerate(zip(out, want)):
      ob.zero_mod(f"coefficient {i} modulo 2^32", dom.c, dom.c.sub(o, w), W)

  def run(rng, k, hints):
    for _ in range(k):
      v = np.array([[rng.randrange(-8, 9) for _ in range(n)]
                    for _ in range(b)])
      mat = rnd(rng, (b, m, n))
      run.unit.evals += 1
      with pallas_sim.simulated():
        got = [x % W for x in ints(repo(fpath)(v.astype(np.uint32), mat, 4))]
      A = np.zeros((m, n), object)
      for j in range(m):
        for bb in range(b):
          A[j] += np.array(ring.negacyclic_int(
              [int(z) for z in v[bb]], [int(z) for z in mat[bb, j]]))
      want = [int(x) % W for x in A.ravel()]
      if got != want:
        return dict(function=fpath, path="accelerator kernel (Pallas "
                    "stand-in)", b=b, m=m, n=n)
    return None
  u = Unit(f"accelerator vector-matrix kernel b={b} m={m} N={n}",
           [K + "._decomposed_vector_matrix_polymul",
            K + "._i32_matmul_unreduced_cggi"], prove=prove, concrete=run,
           cross=1, search=3,
           assumes=["pallas_call, BlockSpec and pltpu.roll behave as "
                    "documented (vc/pallas_sim.py)"])
  run.unit = u
  return u


def movement_ob(ob, name, got, want):
  ob.true(f"{name}: every one of {want.size} words", got.shape == want.shape and
          bool((got == want).all()), backend="data-independence")


def kernel_glue_unit(b, m, n):
  """The accelerator kernel around its matrix product, at real degrees: the
  product is given the padded matrix and the signed Toeplitz matrix, and its
  results are summed."""
  def prove(ob):
    mod = repo(K)
    fn = repo(K + ":_decomposed_vector_matrix_polymul")
    repo(K + ":_i32_matmul_unreduced_cggi")
    import jax.numpy as jnp

    def probed(v, mat, res=None):
      seen = []

      def probe(lhs, rhs):
        seen.append((lhs, rhs))
        if res is not None:
          return res[len(seen) - 1]
        return jnp.zeros((lhs.shape[0] // 2, rhs.shape[1]), jnp.int32)
      with patched(mod, "_i32_matmul_unreduced_cggi", probe):
        o = fn(v, mat)
      if len(seen) != b:
        raise Unsupported("another number of matrix products")
      return [x for t in seen for x in t] if res is None else o
    with pallas_sim.simulated():
      outs = movement.selection(probed, [(b, n), (b, m, n)])
      for t in range(b):
        lhs, rhs = outs[2 * t], outs[2 * t + 1]
        movement_ob(ob, f"Toeplitz matrix {t}", rhs,
                    movement.toeplitz(n, 1 + t * n))
        w = np.zeros((8, n), np.int64)
        row = 1 + b * n + t * m * n + np.arange(m * n).reshape(m, n)
        w[:m] = w[4:4 + m] = row
        movement_ob(ob, f"matrix rows {t}, twice and padded", lhs, w)
      dom = IntDom()
      r = sym_array(dom, "r", (b, 4, n), np.int32)
      flat, _, _ = jx.run_sym(
          probed, [np.ones((b, n), np.int32), np.ones((b, m, n), np.int32),
                   (r, np.int32)], dom)
    o = jx.to_obj(flat[0])
    ob.true("output shape", o.shape == (m, n))
    for x, y in np.ndindex(m, n):
      ob.zero_mod(f"output {x},{y} sums the products", dom.c,
                  dom.c.sub(o[x, y], dom.c.total([r[t, x, y]
                                                  for t in range(b)])), W)

  def run(rng, k, hints):
    fpath = K + ":negacyclic_vector_matrix_polymul"
    for t in range(k):
      lb = rng.choice([4, 6, 7])
      d = 1 << (lb - 1)
      v = np.array([[rng.randint(-d, d) for _ in range(n)] for _ in range(b)])
      if t % 2:
        v[...] = rng.choice([d, -d])
      mat = rnd(rng, (b, m, n)) if t % 3 else np.full((b, m, n), W - 1,
                                                      np.uint32)
      run.unit.evals += 1
      with pallas_sim.simulated():
        o = np.asarray(repo(fpath)(v.astype(np.uint32), mat, lb))
      want = fast_vecmat(v, mat)
      if o.shape != want.shape or (o != want).any():
        return dict(function=fpath, path="accelerator kernel (Pallas "
                    "stand-in)", b=b, m=m, n=n, log_base=lb)
    return None
  u = Unit(f"accelerator kernel around its product b={b} m={m} N={n}",
           [K + "._decomposed_vector_matrix_polymul"], prove=prove,
           concrete=run, cross=3, search=6,
           assumes=["pallas_call, BlockSpec and pltpu.roll behave as "
                    "documented (vc/pallas_sim.py)"])
  run.unit = u
  return u


def fast_vecmat(v, mat):
  """Vector times matrix of polynomials modulo 2^32, numpy, any word values."""
  b, n = v.shape
  m = mat.shape[1]
  out = np.zeros((m, n), np.uint64)
  i, j = np.indices((n, n))
  for t in range(b):
    a = v[t].astype(np.int64).astype(np.uint64)
    T = a[(j - i) % n]
    T = np.where(j < i, (~T) + np.uint64(1), T)
    with np.errstate(over="ignore"):
      out += mat[t].astype(np.uint64) @ T
  return (out & np.uint64(W - 1)).astype(np.uint32)


def cggi_matmul_unit(m, k, n, big=False):
  """Byte-split product of words and small digits; exact in float32."""
  def prove(ob):
    dom = IntDom()
    c = dom.c
    lhs = sym_array(dom, "x", (m, k), np.uint32)
    both = np.concatenate([lhs, lhs], axis=0)
    rhs = sym_array(dom, "d", (k, n), np.int32, lo=-64, hi=64)
    flat, _, _ = jx.run_sym(
        lambda a, b: repo(K + ":_i32_matmul_unreduced_cggi")(
            a.astype(np.int32), b),
        [(both, np.uint32), (rhs, np.int32)], dom)
    o = jx.to_obj(flat[0]).reshape(m, n)
    for i in range(m):
      for j in range(n):
        w = c.total([c.mul(lhs[i, t], rhs[t, j]) for t in range(k)])
        ob.zero_mod(f"entry {i},{j}", c, c.sub(o[i, j], w), W)

  def run(rng, cnt, hints):
    for t in range(cnt):
      lhs = rnd(rng, (m, k)) if t % 2 else np.full((m, k), W - 1, np.uint32)
      rhs = np.array([[rng.randint(-64, 64) for _ in range(n)]
                      for _ in range(k)], np.int32)
      if t % 3 == 0:
        rhs[...] = rng.choice([64, -64])
      run.unit.evals += 1
      both = np.concatenate([lhs, lhs]).astype(np.int32)
      o = np.asarray(repo(K + ":_i32_matmul_unreduced_cggi")(both, rhs))
      want = (lhs.astype(object) @ rhs.astype(object)) % W
      if o.shape != want.shape or (o.astype(object) % W != want).any():
        return dict(function="_i32_matmul_unreduced_cggi", lhs=lhs, rhs=rhs,
                    got=o, want=want)
    return None
  u = Unit(f"_i32_matmul_unreduced_cggi {m}x{k}x{n}",
           [K + "._i32_matmul_unreduced_cggi"], prove=prove, concrete=run,
           cross=4, search=20, assumes=[
               "float32 accumulation of integers is exact while every partial "
               "sum stays within 2^24 (checked by interval)"])
  run.unit = u
  return u


def bat_kernel_unit(n, b=18, m=2):
  """The accelerator branch of the byte-matrix product."""
  fpath = K + ":negacyclic_vector_matrix_polymul_bat"

  def prove(ob):
    mod = repo(K)
    fn = unjit(repo(fpath))
    repo(K + ":bat_matmul")

    def probed(v):
      seen = []
      mat = np.zeros((b, m, n, 4, 4), np.uint8)
      with patched(mod, "bat_matmul", lambda l, r: seen.append((l, r)) or r):
        o = fn(v.view(np.uint32) if isinstance(v, np.ndarray) else
               v.astype(np.uint32), mat)
      if len(seen) != 1 or seen[0][0] is not mat:
        raise Unsupported("another use of the byte-matrix product")
      return [seen[0][1], o]
    with pallas_sim.simulated():
      t, o = movement.selection(probed, [(b, n)])
    want = np.stack([movement.toeplitz(n, 1 + i * n) for i in range(b)])
    movement_ob(ob, "Toeplitz matrices handed to the product", t, want)
    ob.true("the product is the result", bool((o == t).all()))

  def run(rng, k, hints):
    for _ in range(k):
      v = np.array([[rng.randrange(-64, 65) for _ in range(n)]
                    for _ in range(b)])
      mat = rnd(rng, (b, m, n))
      comp = np.zeros((b, m, n, 4, 4), np.uint8)
      for p in range(4):  # modulo 2^32: column q holds the bytes of x << 8q
        for q in range(p + 1):
          comp[..., p, q] = (mat >> np.uint32(8 * (p - q))) & np.uint32(255)
      run.unit.evals += 1
      with pallas_sim.simulated():
        o = np.asarray(repo(fpath)(v.astype(np.uint32), comp))
      want = fast_vecmat(v, mat)
      if o.shape != want.shape or (o != want).any():
        return dict(function=fpath, path="accelerator branch (Pallas "
                    "stand-in)", b=b, m=m, n=n)
    return None
  u = Unit(f"accelerator byte-matrix kernel b={b} N={n}", [
      K + ".negacyclic_vector_matrix_polymul_bat"], prove=prove, concrete=run,
           cross=1, search=2, assumes=[
               "pallas_call, BlockSpec and pltpu.roll behave as documented "
               "(vc/pallas_sim.py)"])
  run.unit = u
  return u


def unjit(f):
  while hasattr(f, "__wrapped__"):
    f = f.__wrapped__
  return f


def toeplitz_kernel_unit(n):
  def symbolic(ob):
    dom = IntDom()
    with pallas_sim.simulated():
      a = sym_array(dom, "a", (n,), np.uint32)
      flat, _, _ = jx.run_sym(
          lambda x: repo(M + ":toeplitz_kernelized")(x.astype(np.int32)),
          [(a, np.uint32)], dom)
    t = jx.to_obj(flat[0])
    c = dom.c
    for i in range(n):
      for j in range(n):
        w = c.neg(a[j - i + n]) if j < i else a[j - i]
        ob.zero_mod(f"entry {i},{j}", c, c.sub(t[i, j], w), W)

  def prove(ob):
    try:
      with pallas_sim.simulated():
        t, = movement.selection(repo(M + ":toeplitz_kernelized"), [(n,)])
    except Unsupported:
      if n > 128:
        raise
      return symbolic(ob)
    movement_ob(ob, "Toeplitz matrix", t, movement.toeplitz(n))

  def run(rng, k, hints):
    for _ in range(k):
      a, b = rnd(rng, (n,)), rnd(rng, (n,))
      run.unit.evals += 1
      with pallas_sim.simulated():
        got = [x % W for x in ints(repo(M + ":poly_mul")(a, b))]
      want = ring.negacyclic_int(ints(a), ints(b), W)
      if got != want:
        return dict(function=M + ":poly_mul", path="accelerator (Pallas "
                    "stand-in)", a=ints(a), b=ints(b))
    return None
  u = Unit(f"accelerator Toeplitz kernel N={n}", [M + ".toeplitz_kernelized"],
           prove=prove, concrete=run, cross=2, search=10,
           assumes=["pallas_call and pltpu.roll behave as documented "
                    "(vc/pallas_sim.py)"])
  run.unit = u
  return u


def toeplitz_unit(n):
  def prove(ob):
    dom = IntDom()
    a = sym_array(dom, "a", (n,), np.uint32)
    flat, _, _ = jx.run_sym(repo(M + ":toeplitz"), [(a, np.uint32)], dom)
    t = jx.to_obj(flat[0])
    ob.true("shape", t.shape == (n, n))
    for i in range(n):
      for j in range(n):
        ob.eq(f"entry {i},{j}", dom.c, t[i, j], a[(j - i) % n])
  def run(rng, k, hints):
    for _ in range(k):
      nn = rng.choice([n, 64])
      a = rnd(rng, (nn,))
      run.unit.evals += 1
      t = np.asarray(repo(M + ":toeplitz")(a))
      w = np.stack([np.roll(a, i) for i in range(nn)])
      if not np.array_equal(t, w):
        return dict(function="toeplitz", a=a.tolist())
    return None
  u = Unit(f"toeplitz N={n}", [M + ".toeplitz"], prove=prove, concrete=run,
           cross=3, search=20)
  run.unit = u
  return u


def bat_unit():
  """Dense byte matrices of a scalar: column j recomposes to x * 2^(8j)."""
  def run(rng, k, hints):
    f = repo(M + ":smul_as_dense_gemv_bat")
    for i in range(k):
      q = rng.choice([1 << 32, 4294967291, (1 << 32) - 5, 1 << 31, 268369921])
      x = rng.choice([rng.getrandbits(32), W - 1, 255, 256, rng.getrandbits(8),
                      rng.getrandbits(16), 0, 1 << 24])
      x = x % q
      run.unit.evals += 1
      run.unit.last_inputs = dict(x=x, q=q)
      m = np.asarray(f(x, 32, 8, q))
      for j in range(4):
        v = sum(int(m[p, j]) << (8 * p) for p in range(4))
        if (v - (x << (8 * j))) % q:
          return dict(function="smul_as_dense_gemv_bat", x=x, q=q, column=j,
                      got=v % q, want=(x << (8 * j)) % q)
    return None
  u = Unit("smul_as_dense_gemv_bat", [M + ".smul_as_dense_gemv_bat",
                                      M + ".rechunkify_after_chunkwise_add",
                                      M + ".chunk_decomposition"],
           concrete=run, cross=25,
           bounded="data-dependent host loops: sampled words and five moduli")
  run.unit = u
  return u


def bat_matmul_unit():
  """Byte-matrix product against the words it encodes, for every byte matrix."""
  def prove(ob):
    for fname, mod in (("hpmatmul_bat_adapt", W),):
      dom = IntDom()
      c = dom.c
      m, n, k = 2, 2, 2
      lhs = sym_array(dom, "l", (m, n, 4, 4), np.uint16, lo=0, hi=255)
      y = sym_array(dom, "y", (n, k), np.uint32)
      flat, _, _ = jx.run_sym(repo(f"{M}:{fname}"), [
          (lhs, np.uint16), (y, np.uint32)], dom)
      out = jx.to_obj(flat[0])
      for i in range(m):
        for kk in range(k):
          terms = []
          for j in range(n):
            by = dom.bytes_of(y[j, kk], 32, 8)
            for p in range(4):
              for q in range(4):
                terms.append(c.mul(c.mul(lhs[i, j, p, q], by[q]), 1 << 8 * p))
          ob.zero_mod(f"{fname} entry {i},{kk}", c,
                      c.sub(out[i, kk], c.total(terms)), mod)
    dom = IntDom()
    c = dom.c
    C, m, n, k = 2, 2, 2, 2
    lhs = sym_array(dom, "l", (C, m, n, 4, 4), np.uint8)
    y = sym_array(dom, "y", (C, n, k), np.uint32)
    flat, _, _ = jx.run_sym(repo(K + ":bat_matmul"), [
        (lhs, np.uint8), (y, np.uint32)], dom)
    out = jx.to_obj(flat[0])
    for i in range(m):
      for kk in range(k):
        terms = []
        for ch in range(C):
          for j in range(n):
            by = dom.bytes_of(y[ch, j, kk], 32, 8)
            for p in range(4):
              for q in range(4):
                terms.append(c.mul(c.mul(lhs[ch, i, j, p, q], by[q]),
                                   1 << 8 * p))
        ob.zero_mod(f"bat_matmul entry {i},{kk}", c,
                    c.sub(out[i, kk], c.total(terms)), W)

  def run(rng, k, hints):
    MM = repo(M)
    for _ in range(k):
      a, b = rnd(rng, (3, 2)), rnd(rng, (2, 3))
      run.unit.evals += 1
      comp = MM.hpmatmul_offline_compile_bat(a, W)
      got = [x % W for x in ints(MM.hpmatmul_bat_adapt(comp, b))]
      want = [x % W for x in matmul_int(a.astype(object), b.astype(object))]
      if got != want:
        return dict(function="hpmatmul_bat_adapt", a=a.tolist(), b=b.tolist(),
                    got=got, want=want)
      gold = MM.hpmatmul_golden(a, b, W)
      if [int(x) for r in gold for x in r] != want:
        return dict(function="hpmatmul_golden", a=a.tolist(), b=b.tolist())
      v = rnd(rng, (2, 4))
      mat = rnd(rng, (2, 2, 4))
      comp = np.zeros((2, 2, 4, 4, 4), np.uint8)
      for ix in np.ndindex(2, 2, 4):
        comp[ix] = np.asarray(MM.smul_as_dense_gemv_bat(int(mat[ix]), 32, 8, W))
      got = [x % W for x in ints(repo(
          K + ":negacyclic_vector_matrix_polymul_bat")(v, comp))]
      want = [x % W for x in vecmat_int(v.astype(object), mat.astype(object))]
      if got != want:
        return dict(function="negacyclic_vector_matrix_polymul_bat",
                    v=v.tolist(), mat=mat.tolist(), got=got, want=want)
    return None
  u = Unit("byte-matrix products", [M + ".hpmatmul_bat_adapt",
                                    K + ".bat_matmul"], prove=prove,
           concrete=run, cross=3, search=20)
  run.unit = u
  return u


def i32_matmul_unit(m, k, n):
  def prove(ob):
    dom = IntDom()
    x = sym_array(dom, "x", (m, k), np.uint32)
    y = sym_array(dom, "y", (k, n), np.uint32)
    flat, _, _ = jx.run_sym(
        lambda a, b: repo(K + ":_i32_matmul_unreduced")(
            a.astype(np.int32), b.astype(np.int32)),
        [(x, np.uint32), (y, np.uint32)], dom)
    o = jx.to_obj(flat[0]).reshape(4, m, n)
    c = dom.c
    want = matmul_sym(c, x, y)
    for i in range(m * n):
      s = c.total([o[p].ravel()[i] for p in range(4)])
      ob.zero_mod(f"entry {i}", c, c.sub(s, want[i]), W)
  def run(rng, kk, hints):
    for _ in range(kk):
      a, b = rnd(rng, (m, 64)), rnd(rng, (64, n))
      run.unit.evals += 1
      o = np.asarray(repo(K + ":_i32_matmul_unreduced")(
          a.astype(np.int32), b.astype(np.int32)))
      got = [int(z) % W for z in o.reshape(4, m, n).astype(np.int64).sum(
          0).ravel()]
      want = [z % W for z in matmul_int(a.astype(object), b.astype(object))]
      if got != want:
        return dict(function="_i32_matmul_unreduced", a=a.tolist(),
                    b=b.tolist())
    return None
  u = Unit(f"_i32_matmul_unreduced {m}x{k}x{n}",
           [K + "._i32_matmul_unreduced"], prove=prove, concrete=run, cross=2,
           search=20)
  run.unit = u
  return u


def units(tier):
  us = []
  big = tier == "thorough"
  for n in (1, 2, 3, 4, 8) + ((16, 32) if big else ()):
    us.append(product_unit(
        f"poly_mul N={n}", M + ":poly_mul", n,
        lambda c, a, b: ring.negacyclic(c, list(a), list(b)),
        lambda n: [(n,), (n,)],
        lambda a, b: ring.negacyclic_int(list(a), list(b)), cross_n=128,
        functions=[M + ".poly_mul", M + ".toeplitz_poly_mul", M + ".toeplitz",
                   M + "._generate_sign_matrix", M + ".i32_as_u8_matmul"]))
  for v, n in ((1, 4), (2, 4), (3, 4)):
    us.append(product_unit(
        f"poly_dot_product len={v} N={n}", M + ":poly_dot_product", n,
        polydot_sym, lambda n, v=v: [(v, n), (v, n)], polydot_int,
        cross_n=32))
  us.append(product_unit(
      "vector-matrix polynomial product", K + ":fallback_vector_matrix_polymul",
      4, vecmat_sym, lambda n: [(2, n), (2, 3, n)], vecmat_int, cross_n=16))
  us.append(product_unit(
      "i32_as_u8_matmul", M + ":i32_as_u8_matmul", 3, matvec_sym,
      lambda n: [(n,), (n, 3)],
      lambda x, y: matmul_int(x[None, :], y), cross_n=64))
  us.append(product_unit(
      "hpmatmul_conv_adapt_outer_product",
      M + ":hpmatmul_conv_adapt_outer_product", 2, matmul_sym,
      lambda n: [(2, n), (n, 3)], matmul_int, cross_n=32))
  us.append(product_unit(
      "hpmatmul_conv_adapt_conv", M + ":hpmatmul_conv_adapt_conv", 2,
      matmul_sym, lambda n: [(2, n), (n, 3)], matmul_int, cross_n=32))
  for fname, n in (("poly_mul_list", 3), ("poly_mul_const_list", 3),
                   ("poly_mul_const_matrix", 3)):
    if fname == "poly_mul_list":
      sh = lambda n: [(2, n), (2, n)]
      ss = lambda c, a, b: sum((ring.negacyclic(c, list(x), list(y))
                                for x, y in zip(a, b)), [])
      si = lambda a, b: sum((ring.negacyclic_int(list(x), list(y))
                             for x, y in zip(a, b)), [])
    elif fname == "poly_mul_const_list":
      sh = lambda n: [(n,), (2, n)]
      ss = lambda c, a, b: sum((ring.negacyclic(c, list(a), list(y))
                                for y in b), [])
      si = lambda a, b: sum((ring.negacyclic_int(list(a), list(y))
                             for y in b), [])
    else:
      sh = lambda n: [(n,), (2, 2, n)]
      ss = lambda c, a, b: sum((ring.negacyclic(c, list(a), list(y))
                                for y in b.reshape(4, -1)), [])
      si = lambda a, b: sum((ring.negacyclic_int(list(a), list(y))
                             for y in b.reshape(4, -1)), [])
    us.append(product_unit(fname, f"{M}:{fname}", n, ss, sh, si))
  for n in (1, 4, 5) + ((8, 16) if big else ()):
    for lm in (32, 0, 10):
      for dd in (np.uint32, np.int32):
        if n == 5 and lm != 32:
          continue
        us.append(monomial_unit("monomial_mul", n, lm, np.uint32, dd, tier))
        us.append(monomial_unit("scale_by_x_power_n_minus_1", n, lm,
                                np.uint32, dd, tier))
  us.append(monomial_unit("monomial_mul", 4, 32, np.int32, np.int32, tier))
  us.append(monomial_unit("monomial_mul_list", 4, 32, np.uint32, np.int32,
                          tier))
  us += [monomial_scale_unit(n) for n in (512, 1024)]
  for n in (1, 4, 8):
    us.append(xpow_unit(n))
  us.append(integer_div_unit())
  us.append(bat_unit())
  us.append(bat_matmul_unit())
  us.append(i32_matmul_unit(2, 3, 2))
  us.append(toeplitz_unit(8))
  us.append(toeplitz_unit(5))
  for n in (128, 256, 1024):
    us.append(toeplitz_kernel_unit(n))
  for n in (128, 256, 1024) + ((512,) if big else ()):
    us.append(kernel_glue_unit(2 if n < 1024 else 1, 2 if n < 1024 else 1, n))
  us.append(bat_kernel_unit(256))
  us.append(cggi_matmul_unit(4, 3, 2))
  us.append(cggi_matmul_unit(4, 1024, 1))
  us.append(kernel_unit(1, 1, 128))
  us.append(kernel_unit(2, 3, 128) if big else kernel_unit(2, 1, 128))
  return us[::-1]
