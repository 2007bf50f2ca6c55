"""Executable contract of the Pallas primitives the kernels use.

Pallas kernels target an accelerator that is not here.  The kernel *body* is the
real code; pallas_call, BlockSpec blocking and pltpu.roll are replaced by their
documented meaning (an assumed contract on the dependency): for every grid step
the kernel reads the blocks its index maps name and writes its output block.
"""

import contextlib
import itertools

import jax
import jax.numpy as jnp
from jax.experimental import pallas as pl
from jax.experimental.pallas import tpu as pltpu
import numpy as np

from .paths import patched


class Ref:
  def __init__(self, a):
    self.a = a

  @property
  def shape(self):
    return self.a.shape

  @property
  def dtype(self):
    return self.a.dtype

  @property
  def ndim(self):
    return self.a.ndim

  def _ix(self, ix):
    if not isinstance(ix, tuple):
      ix = (ix,)
    out = []
    for i in ix:
      if hasattr(i, "start") and hasattr(i, "size") and not isinstance(
          i, slice):
        out.append(slice(i.start, i.start + i.size))
      else:
        out.append(i)
    return tuple(out)

  def __getitem__(self, ix):
    return self.a[self._ix(ix)]

  def __setitem__(self, ix, v):
    v = jnp.asarray(v)
    self.a = self.a.at[self._ix(ix)].set(v.astype(self.a.dtype))


def _roll(x, shift, axis, *, stride=None, stride_axis=None):
  if stride is None:
    return jnp.roll(x, shift, axis)
  if x.ndim != 2 or {axis % 2, stride_axis % 2} != {0, 1}:
    raise NotImplementedError("strided roll of another rank")
  r, c = np.indices(x.shape)
  if axis % 2 == 1:
    return x[r, (c - shift - stride * r) % x.shape[1]]
  return x[(r - shift - stride * c) % x.shape[0], c]


def _pallas_call(kernel, out_shape, *, grid_spec=None, grid=(), in_specs=None,
                 out_specs=None, **_):
  if grid_spec is not None:
    grid, in_specs, out_specs = (grid_spec.grid, grid_spec.in_specs,
                                 grid_spec.out_specs)
  if isinstance(grid, int):
    grid = (grid,)

  def block(spec, shape):
    if spec is None or getattr(spec, "block_shape", None) is None:
      return shape, lambda *a: (0,) * len(shape)
    return tuple(spec.block_shape), spec.index_map

  def run(*args):
    multi = isinstance(out_shape, (list, tuple))
    outs = list(out_shape) if multi else [out_shape]
    ospecs = (list(out_specs) if isinstance(out_specs, (list, tuple))
              else [out_specs] * len(outs))
    ispecs = list(in_specs) if in_specs is not None and isinstance(
        in_specs, (list, tuple)) else [None] * len(args)
    bufs = [jnp.zeros(o.shape, o.dtype) for o in outs]
    for step in itertools.product(*[range(g) for g in grid]):
      irefs = []
      for a, s in zip(args, ispecs):
        bs, im = block(s, a.shape)
        pos = im(*step)
        sl = tuple(slice(int(p) * b, int(p) * b + b)
                   for p, b in zip(pos, bs))
        irefs.append(Ref(a[sl]))
      orefs, osl = [], []
      for buf, s in zip(bufs, ospecs):
        bs, im = block(s, buf.shape)
        pos = im(*step)
        sl = tuple(slice(int(p) * b, int(p) * b + b)
                   for p, b in zip(pos, bs))
        orefs.append(Ref(buf[sl]))
        osl.append(sl)
      kernel(*irefs, *orefs)
      bufs = [b.at[s].set(r.a) for b, s, r in zip(bufs, osl, orefs)]
    return bufs if multi else bufs[0]

  return run


@contextlib.contextmanager
def simulated(tpu_version=5):
  from .harness import repo  # pylint: disable=g-import-not-at-top
  h = repo("jaxite.jaxite_cggi.jax_helpers")
  jax.clear_caches()
  with contextlib.ExitStack() as st:
    st.enter_context(patched(pl, "pallas_call", _pallas_call))
    st.enter_context(patched(pltpu, "roll", _roll))
    if hasattr(h, "get_tpu_version"):
      st.enter_context(patched(h, "get_tpu_version", lambda: tpu_version))
    try:
      yield
    finally:
      jax.clear_caches()
