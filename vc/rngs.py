"""Random sources whose draws are symbolic inputs of the proof.

The real code is traced twice: once with a source that records which draws it
asks for, and once with a source that hands out fresh inputs of the jaxpr for
every draw.  What is proved about the result therefore holds for every value
the draws can take.
"""

import numpy as np
import jax
import jax.numpy as jnp

from . import jx, paths
from .harness import repo


class Draw:
  def __init__(self, kind, shape, dtype):
    self.kind, self.shape, self.dtype = kind, shape, dtype
    self.sym = None


def source(give):
  """A RandomSource of the repository whose draws come from give(draw)."""
  base = repo("jaxite.jaxite_cggi.random_source:RandomSource")

  def mk(kind):
    def f(self, shape=(1,), dtype=jnp.uint32, *a, **k):
      shape = tuple(int(x) for x in shape)
      return give(Draw(kind, shape, np.dtype(dtype)))
    return f

  cls = type("SymbolicSource", (base,), dict(
      uniform=mk("uniform"), rounded_normal=mk("normal"),
      sk_uniform=mk("sk_uniform")))
  return cls()


def run(fn, args, dom, contracts=None, normal=(None, None), runner=None):
  """fn(prg, *args) with symbolic args and draws.

  Returns (flat outputs, draws) where each draw has .sym, an object array.
  """
  rec = []

  def note(d):
    rec.append(d)
    return jnp.zeros(d.shape, d.dtype)

  avals = [jax.ShapeDtypeStruct(a[0].shape, a[1]) if isinstance(a, tuple)
           else jax.ShapeDtypeStruct(np.shape(a), np.asarray(a).dtype)
           for a in args]
  if runner is None:
    jax.make_jaxpr(lambda *xs: fn(source(note), *xs))(*avals)
  else:
    best = []

    def recording(*xs):
      del rec[:]
      try:
        return fn(source(note), *xs)
      finally:
        if len(rec) > len(best):
          best[:] = rec
    paths.trace_paths(recording, [(a.shape, a.dtype) for a in avals])
    rec = best
  for i, d in enumerate(rec):
    lo, hi = (0, 1) if d.kind == "sk_uniform" else (
        normal if d.kind == "normal" else (None, None))
    d.sym = jx.sym_array(dom, f"{d.kind}{i}", d.shape, d.dtype, lo, hi)

  def with_draws(*xs):
    ds = list(xs[len(args):])
    it = iter(ds)

    def give(d):
      x = next(it)
      assert x.shape == d.shape
      return x
    return fn(source(give), *xs[:len(args)])

  if runner is not None:
    return runner(with_draws, list(args) + [(d.sym, d.dtype) for d in rec]), rec
  flat, _, _ = jx.run_sym(with_draws,
                          list(args) + [(d.sym, d.dtype) for d in rec], dom,
                          contracts)
  return flat, rec


def concrete(values):
  """values(draw) -> numpy array; a concrete source that logs its draws."""
  log = []

  def give(d):
    v = np.asarray(values(d)).astype(d.dtype).reshape(d.shape)
    log.append((d.kind, v))
    return jnp.asarray(v)
  return source(give), log


def random_values(rng, noise=1 << 32):
  """Adversarial 32-bit draws."""
  def f(d):
    n = int(np.prod(d.shape)) if d.shape else 1
    if d.kind == "sk_uniform":
      xs = [rng.getrandbits(1) for _ in range(n)]
    elif d.kind == "uniform":
      xs = [rng.choice([rng.getrandbits(32), rng.getrandbits(32), 0,
                        (1 << 32) - 1, 1 << 31]) for _ in range(n)]
    else:
      xs = [rng.choice([rng.randrange(noise), 0, noise - 1, noise // 2])
            for _ in range(n)]
      if noise < 1 << 32:
        xs = [(x if rng.getrandbits(1) else -x) % (1 << 32) for x in xs]
    return np.array(xs, np.uint64)
  return f


def find_atom(c, v, draws, kind, m, used):
  """v == (one element of a draw of that kind) modulo m: returns its index."""
  p = c.modnorm(c.poly(v), m)
  if len(p.t) != 1:
    return None
  ((mono, co),) = p.t.items()
  if co != 1 or len(mono) != 1:
    return None
  for i, d in enumerate(draws):
    if d.kind != kind:
      continue
    for ix in np.ndindex(*d.shape):
      s = d.sym[ix]
      if mono in s.p.t and (i, ix) not in used:
        return (i, ix)
  return None
