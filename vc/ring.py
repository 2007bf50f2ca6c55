"""Executable and symbolic reference semantics of negacyclic rings."""

import numpy as np


def negacyclic(ctx, a, b):
  """Product in Z[X]/(X^N+1) over ctx values (exact integers)."""
  n = len(a)
  out = []
  for k in range(n):
    xs, ys = [], []
    for i in range(n):
      j = k - i
      if j >= 0:
        xs.append(a[i])
        ys.append(b[j])
      else:
        xs.append(a[i])
        ys.append(ctx.neg(b[j + n]))
    out.append(ctx.dot(xs, ys))
  return out


def negacyclic_int(a, b, mod=None):
  n = len(a)
  out = [0] * n
  for i in range(n):
    if a[i] == 0:
      continue
    for j in range(n):
      k = i + j
      if k < n:
        out[k] += a[i] * b[j]
      else:
        out[k - n] -= a[i] * b[j]
  return [x % mod for x in out] if mod else out


def monomial_int(a, d, mod=None):
  """a * X^d in Z[X]/(X^N+1) for any integer d."""
  n = len(a)
  out = [0] * n
  for i, x in enumerate(a):
    q, r = divmod(i + d, n)
    out[r] += -x if q % 2 else x
  return [x % mod for x in out] if mod else out


def monomial(ctx, a, d):
  n = len(a)
  out = [0] * n
  for i, x in enumerate(a):
    q, r = divmod(i + d, n)
    out[r] = ctx.neg(x) if q % 2 else x
  return out


def objarr(vals, shape=None):
  out = np.empty(len(vals), dtype=object)
  for i, v in enumerate(vals):
    out[i] = v
  return out if shape is None else out.reshape(shape)
