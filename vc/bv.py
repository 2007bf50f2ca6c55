"""z3 bit-vector word semantics for the jaxpr interpreter.

Exact machine semantics (two's complement wrap-around, truncating division,
out-of-range shifts as XLA defines them); complete for element-wise code.
Booleans are z3 Bool terms.
"""

import time
import z3

from .poly import Unsupported, Result


class BVDom:

  def __init__(self):
    self.inputs = []  # (name, z3 var, signed)
    self.queries = 0
    self.solver_s = 0.0

  def is_sym(self, x):
    return isinstance(x, z3.ExprRef)

  def input(self, name, dtype, lo=None, hi=None):
    from .jx import dt_bits  # pylint: disable=g-import-not-at-top
    bits, signed, boolean = dt_bits(dtype)
    v = z3.Bool(name) if boolean else z3.BitVec(name, bits)
    self.inputs.append((name, v, signed))
    return v

  def lift(self, x, dt):
    bits, signed, boolean = dt
    if isinstance(x, z3.ExprRef):
      return x
    if boolean:
      return z3.BoolVal(bool(x))
    return z3.BitVecVal(int(x), bits)

  def simp(self, e, dt):
    s = z3.simplify(e)
    bits, signed, boolean = dt
    if boolean:
      if z3.is_true(s):
        return 1
      if z3.is_false(s):
        return 0
      return s
    if z3.is_bv_value(s):
      return s.as_signed_long() if signed else s.as_long()
    return s

  def total(self, xs, dt):
    r = self.lift(0, dt)
    for x in xs:
      r = r + self.lift(x, dt)
    return self.simp(r, dt)

  def dot(self, xs, ys, dt):
    r = self.lift(0, dt)
    for x, y in zip(xs, ys):
      if not isinstance(x, z3.ExprRef) and x == 0:
        continue
      if not isinstance(y, z3.ExprRef) and y == 0:
        continue
      r = r + self.lift(x, dt) * self.lift(y, dt)
    return self.simp(r, dt)

  def convert(self, x, src, dst):
    if not isinstance(x, z3.ExprRef):
      if dst[2]:
        return int(x != 0)
      m = (1 << dst[0]) - 1
      v = int(x) & m
      if dst[1] and v >> (dst[0] - 1):
        v -= 1 << dst[0]
      return v
    if src[2]:
      if dst[2]:
        return x
      return z3.If(x, z3.BitVecVal(1, dst[0]), z3.BitVecVal(0, dst[0]))
    if dst[2]:
      return self.simp(x != 0, dst)
    sb, db = src[0], dst[0]
    if db == sb:
      return x
    if db < sb:
      return self.simp(z3.Extract(db - 1, 0, x), dst)
    return z3.SignExt(db - sb, x) if src[1] else z3.ZeroExt(db - sb, x)

  def op(self, name, dt, xs, params=None):
    bits, signed, boolean = dt
    out = dt
    if name == "select":
      p, cases = xs[0], xs[1:]
      if len(cases) != 2:
        raise Unsupported("select with more than two cases")
      if not isinstance(p, z3.ExprRef):
        return cases[1] if p else cases[0]
      return self.simp(
          z3.If(p, self.lift(cases[1], dt), self.lift(cases[0], dt)), dt)
    if not any(isinstance(x, z3.ExprRef) for x in xs):
      from .jx import IntDom  # pylint: disable=g-import-not-at-top
      return IntDom().op(name, dt, xs, params)
    e = [self.lift(x, dt) for x in xs]
    B = (1, False, True)
    if boolean:
      if name == "and":
        return self.simp(z3.And(*e), B)
      if name in ("or", "add"):
        return self.simp(z3.Or(*e), B)
      if name in ("xor", "ne"):
        return self.simp(z3.Xor(*e), B)
      if name == "not":
        return self.simp(z3.Not(e[0]), B)
      if name == "eq":
        return self.simp(e[0] == e[1], B)
      raise Unsupported(f"boolean {name}")
    a = e[0]
    b = e[1] if len(e) > 1 else None
    if name == "add":
      r = a + b
    elif name == "sub":
      r = a - b
    elif name == "mul":
      r = a * b
    elif name == "neg":
      r = -a
    elif name == "and":
      r = a & b
    elif name == "or":
      r = a | b
    elif name == "xor":
      r = a ^ b
    elif name == "not":
      r = ~a
    elif name in ("max", "min"):
      ge = (a >= b) if signed else z3.UGE(a, b)
      r = z3.If(ge, a, b) if name == "max" else z3.If(ge, b, a)
    elif name == "eq":
      return self.simp(a == b, B)
    elif name == "ne":
      return self.simp(a != b, B)
    elif name == "lt":
      return self.simp(a < b if signed else z3.ULT(a, b), B)
    elif name == "le":
      return self.simp(a <= b if signed else z3.ULE(a, b), B)
    elif name == "gt":
      return self.simp(a > b if signed else z3.UGT(a, b), B)
    elif name == "ge":
      return self.simp(a >= b if signed else z3.UGE(a, b), B)
    elif name == "shift_left":
      r = z3.If(z3.UGE(b, bits), z3.BitVecVal(0, bits), a << b)
    elif name == "shift_right_logical":
      r = z3.If(z3.UGE(b, bits), z3.BitVecVal(0, bits), z3.LShR(a, b))
    elif name == "shift_right_arithmetic":
      if signed:
        r = z3.If(z3.UGE(b, bits), a >> (bits - 1), a >> b)
      else:
        # XLA shifts in the sign bit whatever the type says.
        r = z3.If(z3.UGE(b, bits), a >> (bits - 1), a >> b)
    elif name == "div":
      if isinstance(xs[1], z3.ExprRef) or xs[1] == 0:
        raise Unsupported("division by a symbolic word")
      r = a / b if signed else z3.UDiv(a, b)
    elif name == "rem":
      if isinstance(xs[1], z3.ExprRef) or xs[1] == 0:
        raise Unsupported("division by a symbolic word")
      r = z3.SRem(a, b) if signed else z3.URem(a, b)
    elif name == "sign":
      if signed:
        r = z3.If(a == 0, z3.BitVecVal(0, bits),
                  z3.If(a < 0, z3.BitVecVal(-1, bits), z3.BitVecVal(1, bits)))
      else:
        r = z3.If(a == 0, z3.BitVecVal(0, bits), z3.BitVecVal(1, bits))
    elif name == "abs":
      r = z3.If(a < 0, -a, a) if signed else a
    elif name == "clamp":
      lo, x, hi = e
      le = (lambda u, v: u <= v) if signed else z3.ULE
      x = z3.If(le(lo, x), x, lo)
      r = z3.If(le(x, hi), x, hi)
    elif name == "integer_pow":
      r = z3.BitVecVal(1, bits)
      for _ in range(params["y"]):
        r = r * a
    else:
      raise Unsupported(f"elementwise {name}")
    return self.simp(r, out)

  def all_of(self, xs):
    return self.simp(z3.And([self.lift(x, (1, 0, True)) for x in xs]),
                     (1, False, True))

  def any_of(self, xs):
    return self.simp(z3.Or([self.lift(x, (1, 0, True)) for x in xs]),
                     (1, False, True))

  def bytes_of(self, x, bits, lane):
    x = self.lift(x, (bits, False, False))
    return [self.simp(z3.Extract(lane * (i + 1) - 1, lane * i, x),
                      (lane, False, False)) for i in range(bits // lane)]

  def join(self, lanes, lane):
    e = [self.lift(x, (lane, False, False)) for x in lanes]
    return self.simp(z3.Concat(*reversed(e)), (lane * len(e), False, False))

  def prove(self, goal, hyps=(), timeout_ms=60000):
    """Validity of goal (z3 Bool) under hyps."""
    t0 = time.time()
    s = z3.SolverFor("QF_BV")
    s.set("timeout", timeout_ms)
    s.add(*hyps)
    s.add(z3.Not(goal))
    r = s.check()
    self.queries += 1
    dt = time.time() - t0
    self.solver_s += dt
    if r == z3.unsat:
      return Result("proved", backend="z3-bv", secs=dt)
    if r == z3.sat:
      m = s.model()
      mod = {}
      for name, v, signed in self.inputs:
        x = m.eval(v, model_completion=True)
        if z3.is_bool(x):
          mod[name] = z3.is_true(x)
        else:
          mod[name] = x.as_signed_long() if signed else x.as_long()
      return Result("refuted", model=mod, backend="z3-bv", secs=dt,
                    detail=str(mod))
    return Result("unknown", detail=s.reason_unknown(), backend="z3-bv",
                  secs=dt)
