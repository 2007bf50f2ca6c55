"""Shared contracts of the CKKS code: Barrett reduction, transforms, bases."""

import numpy as np

from . import jx
from .harness import repo
from .jx import IntDom, to_obj
from .poly import Unsupported, V

C = "jaxite.jaxite_ckks."
U32, U64 = np.uint32, np.uint64


def isprime(n):
  if n < 2:
    return False
  for p in (2, 3, 5, 7, 11, 13, 17, 19, 23, 29, 31, 37):
    if n % p == 0:
      return n == p
  d, s = n - 1, 0
  while d % 2 == 0:
    d //= 2
    s += 1
  for a in (2, 3, 5, 7, 11, 13, 17, 19, 23, 29, 31, 37):
    x = pow(a, d, n)
    if x in (1, n - 1):
      continue
    for _ in range(s - 1):
      x = x * x % n
      if x == n - 1:
        break
    else:
      return False
  return True


def primes(bits, two_n, count, start=None):
  """`count` primes of the given bit length that are 1 modulo two_n."""
  q = (start or (1 << bits)) // two_n * two_n + 1
  out = []
  while len(out) < count:
    q -= two_n
    if q.bit_length() < bits:
      raise ValueError("not enough primes")
    if q.bit_length() == bits and isprime(q):
      out.append(q)
  return out


def barrett_s(w, sw):
  return w + sw


def valid_barrett(q, m, w, sw):
  """Constants for which the code's Barrett step is exact on [0, 2^s).

  The proof of modular_reduction (C09) is for these constants.
  """
  s = w + sw
  return (m == (1 << s) // q and m <= 1 << 32 and s < 64 and
          (w == 32 or (sw == 0 and w < 32)) and (q - 1) ** 2 < 1 << s)


class Calls:
  """Contract of barrett.modular_reduction, checked at every call."""

  def __init__(self, ob=None, name="modular_reduction"):
    self.ob = ob
    self.count = 0
    self.bad = []
    self.name = name

  def __call__(self, interp, closed, ins):
    names = len(ins)
    if names != 5:
      return None  # not the signature the contract is about: inline it
    z, m, q, w, sw = ins
    if not all(jx.is_concrete(x) for x in (m, q, w, sw)):
      return None
    out = closed.jaxpr.outvars[0].aval
    if np.dtype(out.dtype) != U32:
      return None
    shape = out.shape
    z = np.broadcast_to(to_obj(z), shape)
    m, q, w, sw = [np.broadcast_to(np.asarray(x), shape) for x in (m, q, w, sw)]
    c = interp.dom.c
    res = np.empty(shape, object)
    for ix in np.ndindex(*shape):
      qi = int(q[ix])
      if not valid_barrett(qi, int(m[ix]), int(w[ix]), int(sw[ix])):
        return None
      lo, hi = c.rng(z[ix])
      s = int(w[ix]) + int(sw[ix])
      if lo is None or lo < 0 or hi is None or hi >= 1 << s:
        return None  # precondition not established: use the body itself
      res[ix] = c.residue(z[ix], qi)
      self.count += 1
    return [res]


def dom():
  d = IntDom()
  d.residues = True
  d.c.boolwrap = True
  return d


def run(fn, args, d, ob=None, **kw):
  calls = Calls(ob)
  flat, closed, it = jx.run_sym(fn, args, d,
                                contracts={"modular_reduction": calls}, **kw)
  return [to_obj(x) for x in flat], calls


def residues(d, name, shape, moduli, dtype=U32):
  """Symbolic array of canonical residues, moduli along the last axis."""
  out = np.empty(shape, object)
  for ix in np.ndindex(*shape):
    out[ix] = d.input(name + "".join(f"_{i}" for i in ix), dtype, 0,
                      int(moduli[ix[-1]]) - 1)
  return out


def eq_mod(ob, c, name, v, want, q):
  """v is canonical and congruent to want modulo q."""
  lo, hi = c.rng(v)
  ob.ge(name + ": not negative", c, v, 0)
  ob.ge(name + ": below the modulus", c, q - 1, v)
  return ob.zero_mod(name, c, c.sub(v, want), q)


def special(rng, n, q):
  """A list of n residues of one of the shapes code likes to special-case."""
  k = rng.randrange(9)
  x = rng.choice([1, q - 1, q // 2, rng.randrange(q), rng.randrange(q)])
  v = [0] * n
  if k == 0:
    v[0] = x
  elif k == 1:
    v[rng.randrange(n)] = x
  elif k == 2:
    v[-1] = x
  elif k == 3:
    v = [x] * n
  elif k == 4:
    v = [rng.randrange(min(q, 8)) for _ in range(n)]
  elif k == 5:
    v = [x if i % 2 else (q - x) % q for i in range(n)]
  elif k == 6:
    v = [q - 1 if i < n // 2 else 0 for i in range(n)]
  elif k == 7:
    v = [i % q for i in range(n)]
  return v


def rand_res(rng, shape, moduli, dtype=np.uint32):
  out = np.empty(shape, object if max(moduli) >= 1 << 32 else dtype)
  if shape and rng.random() < .3:
    n = int(np.prod(shape[:-1]))
    flat = out.reshape(n, shape[-1])
    same = rng.random() < .5
    v = special(rng, n, int(min(moduli)))
    for m in range(shape[-1]):
      flat[:, m] = v if same else special(rng, n, int(moduli[m]))
    return out
  for ix in np.ndindex(*shape):
    q = int(moduli[ix[-1]])
    out[ix] = rng.choice([rng.randrange(q), rng.randrange(q), q - 1, 0,
                          rng.randrange(q), q // 2, (q + 1) // 2])
  return out


def bitrev(i, bits):
  r = 0
  for _ in range(bits):
    r = r << 1 | i & 1
    i >>= 1
  return r


def root(n, q):
  return int(repo(C + "math:root_of_unity")(2 * n, q))


def points(n, q, psi=None):
  """Evaluation points in transform output order."""
  psi = root(n, q) if psi is None else psi
  bits = n.bit_length() - 1
  return [pow(psi, 2 * bitrev(i, bits) + 1, q) for i in range(n)]


def spec_ntt(c, v, q):
  """Canonical residues of the evaluations of the coefficient list v."""
  n = len(v)
  return [c.residue(c.total([c.mul(v[i], pow(x, i, q)) for i in range(n)]), q)
          for x in points(n, q)]


def spec_intt(c, y, q):
  n = len(y)
  pts = points(n, q)
  ni = pow(n, -1, q)
  return [c.residue(c.total([c.mul(y[j], pow(pts[j], -i, q) * ni % q)
                             for j in range(n)]), q) for i in range(n)]


def int_ntt(v, q):
  n = len(v)
  return [sum(int(v[i]) * pow(x, i, q) for i in range(n)) % q
          for x in points(n, q)]


def int_intt(y, q):
  n = len(y)
  pts = points(n, q)
  ni = pow(n, -1, q)
  return [sum(int(y[j]) * pow(pts[j], -i, q) for j in range(n)) * ni % q
          for i in range(n)]


def crt(rs, qs):
  """The integer in [0, prod qs) with the given residues."""
  Q = 1
  for q in qs:
    Q *= q
  return sum(int(r) * pow(Q // q, -1, q) % q * (Q // q)
             for r, q in zip(rs, qs)) % Q


class Ints:
  """The context interface of the specifications, on Python ints."""

  @staticmethod
  def add(a, b): return a + b
  @staticmethod
  def sub(a, b): return a - b
  @staticmethod
  def mul(a, b): return a * b
  @staticmethod
  def total(xs): return sum(xs)
  @staticmethod
  def residue(a, q): return a % q
  @staticmethod
  def le(a, b): return int(a <= b)


def prod(xs):
  r = 1
  for x in xs:
    r *= int(x)
  return r


def spec_lift(c, cols, src):
  """Integer lift of residues (list over limbs of coefficient lists)."""
  Q = prod(src)
  n = len(cols[0])
  return [c.total([c.mul(c.residue(c.mul(cols[m][i], pow(Q // q, -1, q)), q),
                         Q // q) for m, q in enumerate(src)])
          for i in range(n)]


def spec_convert(c, ev, src, dst):
  """Evaluation form over src (dict modulus -> values) to dst moduli."""
  co = [spec_intt(c, ev[q], q) for q in src]
  lift = spec_lift(c, co, src)
  return {p: spec_ntt(c, [c.residue(x, p) for x in lift], p) for p in dst}


def part_bounds(num_q, dnum):
  alpha = -(-num_q // dnum)
  out = []
  for i in range(dnum):
    lo, hi = i * alpha, min((i + 1) * alpha, num_q)
    if lo < hi:
      out.append((lo, hi))
  return out


def spec_digits(c, c1, qs, ps, dnum):
  """Digits of c1 (n, M) extended to all moduli: list of (n, M + K)."""
  al = list(qs) + list(ps)
  n = c1.shape[0]
  out = []
  for lo, hi in part_bounds(len(qs), dnum):
    src = list(qs[lo:hi])
    dst = [q for m, q in enumerate(al) if not lo <= m < hi]
    cv = spec_convert(c, {q: list(c1[:, lo + k]) for k, q in enumerate(src)},
                      src, dst)
    d = np.empty((n, len(al)), object)
    for m, q in enumerate(al):
      d[:, m] = c1[:, m] if lo <= m < hi else cv[q]
    out.append(d)
  return out


def spec_inner(c, digits, key, al):
  """sum_i D_i key_i, not reduced."""
  n = digits[0].shape[0]
  o = np.empty((n, len(al)), object)
  for ix in np.ndindex(*o.shape):
    o[ix] = c.total([c.mul(d[ix], key[i][ix]) for i, d in enumerate(digits)])
  return o


def spec_key_switch(c, ct, a, b, qs, ps, dnum):
  """(2, n, M + K) canonical residues."""
  al = list(qs) + list(ps)
  P = prod(ps)
  n = ct.shape[1]
  dg = spec_digits(c, ct[1], qs, ps, dnum)
  k0, k1 = spec_inner(c, dg, b, al), spec_inner(c, dg, a, al)
  o = np.empty((2, n, len(al)), object)
  for i in range(n):
    for m, q in enumerate(al):
      t = c.mul(ct[0, i, m], P) if m < len(qs) else 0
      o[0, i, m] = c.residue(c.add(t, k0[i, m]), q)
      o[1, i, m] = c.residue(k1[i, m], q)
  return o, dg


def spec_rescale(c, data, moduli, num):
  """(comps, n, M) -> (comps, n, M - num)."""
  comps, n, M = data.shape
  o = np.empty((comps, n, M - num), object)
  for e in range(comps):
    cur = {m: list(data[e, :, m]) for m in range(M)}
    for it in range(num):
      L = M - 1 - it
      qL = int(moduli[L])
      last = spec_intt(c, cur[L], qL)
      cen = [c.sub(x, c.mul(qL, c.le((qL + 1) // 2, x))) for x in last]
      for m in range(L):
        q = int(moduli[m])
        inv = pow(qL, -1, q)
        ev = [c.total([c.mul(cen[i], pow(x, i, q)) for i in range(n)])
              for x in points(n, q)]
        cur[m] = [c.residue(c.mul(c.sub(cur[m][i], ev[i]), inv), q)
                  for i in range(n)]
    for m in range(M - num):
      o[e, :, m] = cur[m]
  return o


def auto_index(n, g):
  """Evaluation i of f(X^g) is evaluation auto_index[i] of f."""
  bits = n.bit_length() - 1
  out = []
  for i in range(n):
    k = (2 * bitrev(i, bits) + 1) * g % (2 * n)
    out.append(bitrev((k - 1) // 2, bits))
  return out


class MulContract:
  """MulPlaintextCiphertextBarrett by its contract (C09): the canonical
  residue of the product.  The moduli comparison of the real kernel needs
  concrete arrays, so a traced caller is given this stand-in, which calls the
  real reduction on the real constants."""

  def __init__(self, constants):
    self.barrett_constants = constants

  def mul(self, ct, pt):
    import jax.numpy as jnp
    r = repo(C + "barrett:modular_reduction")(
        ct.data.astype(jnp.uint64) * pt.data.astype(jnp.uint64),
        self.barrett_constants)
    return repo(C + "types:Ciphertext")(data=r.astype(jnp.uint32),
                                        moduli=ct.moduli)


class Keep:
  """Records ciphertexts, plaintexts and keys handed to the code, to compare
  their arrays after the call (concrete runs)."""

  def __init__(self): self.kept = []

  def __call__(self, o):
    self.kept.append((o, {n: np.array(np.asarray(v)) for n, v in vars(
        o).items() if hasattr(v, "shape")}))
    return o

  def changed(self):
    for o, was in self.kept:
      for n, v in was.items():
        w = np.asarray(getattr(o, n))
        if w.shape != v.shape or (w != v).any():
          return f"the caller's {type(o).__name__}.{n} is changed"
    return None
