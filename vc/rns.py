"""Residue-number-system representation of jaxite_ec: constants and contracts."""

import functools
import math

import numpy as np

from .harness import repo
from .limbs import Q, UT

FFM = "jaxite.jaxite_ec.finite_field"


class Sys:
  """The representation the code's constants define, re-derived from them."""

  def __init__(self, t=None):
    t = t or repo(UT)
    self.m = [int(x) for x in t.MODULI]
    self.t = [int(x) for x in t.RNS_MODULI_T]
    self.n = len(self.m)
    self.M = math.prod(self.m)
    self.prec = int(t.RNS_PRECISION)
    mat = np.array(t.RNS_MAT[0], dtype=object)
    cor = np.array(t.RNS_MAT[1], dtype=object)
    self.shape_ok = (mat.shape == (2 * self.n, 2 * self.n + 2) and
                     cor.shape == (1, self.n))
    w16 = mat[:, 0::2] + 256 * mat[:, 1::2]
    self.rows = [[int(x) for x in r[:self.n]] for r in w16]
    self.sqe = [int(r[self.n]) for r in w16]
    self.cor = [int(x) for x in cor[0]]
    self.sub = [int(x) for x in t.MODULI_SUB]
    self.inv = [pow(self.M // m, -1, m) for m in self.m]
    # integers each row of the reduction matrix stands for
    self.g = [self.crt(r) for r in self.rows]
    self.w = self.crt(self.cor)
    self.K = self.crt([s + (1 << 16) for s in self.sub])
    # byte b of residue i stands for 256^b times its interpolation factor
    self.chunk = []
    for i, m in enumerate(self.m):
      f = self.M // m * self.inv[i]
      for b in range(2):
        self.chunk.append(((f << (8 * b)) % self.M))
    err = [s * self.M - (c << 16) for s, c in zip(self.sqe, self.chunk)]
    self.err_min, self.err_max = min(err), 255 * sum(max(0, e) for e in err)
    # largest represented integer whose quotient estimate is exact
    self.xmax = self.M - 1 - -(-self.err_max // (1 << 16))
    self.kmax = 255 * sum(self.sqe) >> 16
    self.ymax = 255 * sum(self.g) + self.kmax * self.w

  def crt(self, rs):
    return sum(self.M // m * ((int(r) * i) % m)
               for r, m, i in zip(rs, self.m, self.inv)) % self.M

  def lift(self, arr):
    """Represented integers (in [0, M)) of concrete residue rows."""
    a = np.asarray(arr)
    out = np.empty(a.shape[:-1], object)
    for ix in np.ndindex(*out.shape):
      out[ix] = self.crt(a[ix])
    return out

  def enc(self, x, rng=None, dtype=np.uint16):
    """Residues of x; with rng, representatives up to 16 bits at random."""
    r = []
    for m in self.m:
      v = x % m
      if rng is not None and v + m < 1 << 16 and rng.random() < .5:
        v += m
      r.append(v)
    return np.array(r, dtype)


@functools.lru_cache(maxsize=1)
def system():
  return Sys()
