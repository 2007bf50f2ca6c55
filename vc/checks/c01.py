"""C01: Boolean gates and lookup tables compute their truth tables.

A gate is verified against the contract of the bootstrapper (C08): handed a
ciphertext of phase 2^28*m + noise and a test polynomial, it returns an
encryption of the polynomial's value at rotation m.  The bootstrapper is
replaced by a recorder with that contract; the gate's own code runs on symbolic
ciphertexts.  The obligations are that the recorded ciphertext is one fixed
integer combination of the inputs, that for every combination of input bits the
recorded polynomial holds the encoding of the truth-table value at every
rotation of that phase's window, that keys and parameters are passed through,
and that the bootstrapper's result is returned unchanged.
"""

import contextlib
import copy
import importlib.util
import inspect
import itertools
import random

import numpy as np

import jax
import jax.numpy as jnp

from vc import jx, paths, ring
from vc.harness import Unit, repo
from vc.jx import IntDom, sym_array

JB = "jaxite.jaxite_bool.jaxite_bool"
BP = "jaxite.jaxite_bool.bool_params"
LUT = "jaxite.jaxite_bool.lut"
BS = "jaxite.jaxite_cggi.bootstrap"
W = 1 << 32
U = np.uint32

GATES2 = {
    "and_": lambda x, y: x and y, "andny_": lambda x, y: (not x) and y,
    "andyn_": lambda x, y: x and not y, "nand_": lambda x, y: not (x and y),
    "nor_": lambda x, y: not (x or y), "or_": lambda x, y: x or y,
    "orny_": lambda x, y: (not x) or y, "oryn_": lambda x, y: x or not y,
    "xnor_": lambda x, y: x == y, "xor_": lambda x, y: x != y,
}


class Keys:
  """A server key set whose parts are recognisable objects."""

  def __init__(self, bmmp=True, bat=False, callback=None):
    self.bsk = repo(BS + ":BootstrappingKey")(
        encrypted_lwe_sk_bits=np.arange(7, dtype=U), use_bmmp=bmmp,
        use_bat=bat)
    self.ksk = repo("jaxite.jaxite_cggi.key_switch:LweKeySwitchingKey")(
        modulus=0, lwe_dimension=4, decomposition_log_base=4,
        decomposition_level_count=8, lwe_size=5,
        key_data=np.arange(5, dtype=U))
    self.bootstrap_callback = callback


def fake_pmap(fn=None, axis_name=None, *, in_axes=0, out_axes=0,
              static_broadcasted_argnums=(), **kw):
  """pmap's documented meaning: one call per index of the mapped axes."""
  if fn is None:
    return lambda f: fake_pmap(f, in_axes=in_axes, out_axes=out_axes,
                               static_broadcasted_argnums=
                               static_broadcasted_argnums)
  st = static_broadcasted_argnums
  st = (st,) if isinstance(st, int) else tuple(st)

  def call(*args):
    ax = (in_axes,) * len(args) if not isinstance(in_axes, (tuple, list)) \
        else tuple(in_axes)
    mapped = [i for i in range(len(args)) if i not in st and ax[i] is not None]
    sizes = {args[i].shape[ax[i]] for i in mapped}
    if len(sizes) != 1:
      raise ValueError("pmap got inconsistent sizes")
    outs = []
    for k in range(sizes.pop()):
      outs.append(fn(*[jnp.take(jnp.asarray(a), k, axis=ax[i])
                       if i in mapped else a for i, a in enumerate(args)]))
    return jax.tree_util.tree_map(
        lambda *x: jnp.stack(x, axis=out_axes if isinstance(out_axes, int)
                             else 0), *outs)
  call.__wrapped__ = fn
  return call


def fresh_module():
  """The gate module re-executed from /repo with pmap as a plain loop."""
  real = repo(JB)
  old = jax.pmap
  jax.pmap = fake_pmap
  try:
    spec = importlib.util.spec_from_file_location("vc_jaxite_bool",
                                                  real.__file__)
    m = importlib.util.module_from_spec(spec)
    spec.loader.exec_module(m)
  finally:
    jax.pmap = old
  return m


def eager(fn):
  def f(*a, **k):
    with jax.ensure_compile_time_eval():
      return fn(*a, **k)
  return f


@contextlib.contextmanager
def recorder(give, log):
  """Replaces the bootstrapper by its contract."""
  B = repo(BS)

  def rec(kind, real):
    sig = inspect.signature(inspect.unwrap(real))

    def stub(*a, **k):
      b = sig.bind(*a, **k)
      b.apply_defaults()
      log.append((kind, dict(b.arguments)))
      return give(len(log) - 1)
    return stub
  with contextlib.ExitStack() as st:
    st.enter_context(paths.patched(B, "bootstrap", rec("bootstrap",
                                                       B.bootstrap)))
    st.enter_context(paths.patched(B, "jit_bootstrap",
                                   rec("jit_bootstrap", B.jit_bootstrap)))
    # tables are concrete: build them eagerly even while the gate is traced
    T = repo("jaxite.jaxite_cggi.test_polynomial")
    C = repo(LUT + ":LookUpTable")
    st.enter_context(paths.patched(T, "gen_and_encrypt",
                                   eager(T.gen_and_encrypt)))
    st.enter_context(paths.patched(C, "as_rlwe_test_polynomial",
                                   eager(C.as_rlwe_test_polynomial)))
    yield


def window(n):
  """Rotations of message m's window at degree n with 3+1 bits."""
  bw = n // 8
  half = bw // 2
  return bw, range(-half, bw - half)


def table_ok(poly, m, want, n):
  """Does the trivial test polynomial hold `want` everywhere around m?"""
  if any(int(x) for x in poly[:-1].ravel()):
    return "mask is not zero"
  row = [int(x) for x in poly[-1]]
  bw, ds = window(n)
  for d in ds:
    J = (m * bw + d) % (2 * n)
    v = row[J] if J < n else (-row[J - n]) % W
    if v != (int(want) << 28):
      return f"rotation {J} (message {m}) reads {v:#x}, not {int(want) << 28:#x}"
  return None


def check_call(ob, tag, c, call, ins, fn, keys, params, nargs):
  """One recorded bootstrap call against the contract."""
  kind, a = call[0], call[1]
  ct = call[2]
  dim = ins[0].shape[0]
  ob.true(f"{tag}: ciphertext shape", ct.shape == ins[0].shape)
  # weights from the first coordinate
  w = []
  p0 = c.poly(ct[0])
  for x in ins:
    (m,), = x[0].p.t.keys(),
    w.append(None)
  lin = c.modnorm(p0, W)
  const = lin.t.get((), 0)
  for k, x in enumerate(ins):
    (m,) = [t for t in x[0].p.t]
    w[k] = lin.t.get(m, 0)
  for i in range(dim):
    want = c.total([c.mul(w[k], x[i]) for k, x in enumerate(ins)])
    ob.zero_mod(f"{tag}: coordinate {i} is the combination {w}", c,
                c.sub(ct[i], want), W)
  ob.true(f"{tag}: no constant", const == 0, str(const))
  poly = (a["test_poly_ciphertext"].message if kind == "bootstrap"
          else a["test_poly_ciphertext_message"])
  poly = np.asarray(poly)
  n = params.scheme_params.polynomial_modulus_degree
  ob.true(f"{tag}: polynomial shape", poly.shape ==
          (params.scheme_params.rlwe_dimension + 1, n))
  for bits in itertools.product((0, 1), repeat=nargs):
    m = sum(x * y for x, y in zip(w, bits)) % W
    why = "phase outside the message space" if m > 7 else table_ok(
        poly, m, bool(fn(*bits)), n)
    ob.true(f"{tag}: inputs {bits} give {int(bool(fn(*bits)))}", why is None,
            str(why), backend="evaluation")
  if kind == "bootstrap":
    ob.true(f"{tag}: keys", a["bsk"] is keys.bsk and a["ksk"] is keys.ksk)
  else:
    ob.true(f"{tag}: keys", a["bsk_encrypted_lwe_sk_bits"] is
            keys.bsk.encrypted_lwe_sk_bits and
            a["ksk_key_data"] is keys.ksk.key_data)
    ob.true(f"{tag}: key flags", a["bsk_use_bmmp"] == keys.bsk.use_bmmp and
            a["bsk_use_bat"] == keys.bsk.use_bat)
  ob.true(f"{tag}: parameters",
          a["ks_decomposition_params"] == params.ks_decomp_params and
          a["bs_decomposition_params"] == params.bs_decomp_params and
          a["scheme_params"] == params.scheme_params)
  if keys.bootstrap_callback is not None:
    # an observer of the bootstrap: handed over, told the table in use
    ob.true(f"{tag}: callback", a.get("callback") is keys.bootstrap_callback)
    t = a.get("kwargs", {}).get("callback_lut")
    ob.true(f"{tag}: callback_lut", t is not None and all(
        bool(t[sum(x * y for x, y in zip(w, bits)) % W]) == bool(fn(*bits))
        for bits in itertools.product((0, 1), repeat=nargs)), str(t))


def watch(stage, value, **kw):
  """An observing callback that does nothing."""


def sym_gate(ob, tag, gate, nargs, fn, keys, params):
  """gate(cts, keys, params) -> ct, one bootstrap expected (or none)."""
  dim = params.scheme_params.lwe_dimension + 1
  dom = IntDom()
  c = dom.c
  ins = [sym_array(dom, f"x{i}", (dim,), U) for i in range(nargs)]
  r = sym_array(dom, "r", (dim,), U)
  log = []

  def traced(r_, *xs):
    with recorder(lambda i: r_, log):
      out = gate(*xs)
    cts = [jnp.asarray(l[1]["ciphertext"]) for l in log]
    return out, cts
  flat, _, _ = jx.run_sym(traced, [(r, U)] + [(x, U) for x in ins], dom)
  out = jx.to_obj(flat[0])
  ob.true(f"{tag}: one bootstrap", len(log) == 1, f"{len(log)} calls")
  if len(log) != 1:
    return
  check_call(ob, tag, c, (log[0][0], log[0][1], jx.to_obj(flat[1])), ins, fn,
             keys, params, nargs)
  for i in range(dim):
    ob.zero_mod(f"{tag}: coordinate {i} of the result", c,
                c.sub(out[i], r[i]), W)


def param_sets():
  P = repo(BP)
  ps = [("test", P.get_params_for_test()),
        ("128-bit", P.get_params_for_128_bit_security())]
  return ps


def small(params, dim=3, n=None):
  """Same parameters with a small LWE dimension, for symbolic ciphertexts."""
  sp = params.scheme_params
  SP = repo("jaxite.jaxite_cggi.parameters:SchemeParameters")(
      lwe_dimension=dim, plaintext_modulus=sp.plaintext_modulus,
      rlwe_dimension=sp.rlwe_dimension,
      polynomial_modulus_degree=n or sp.polynomial_modulus_degree)
  return repo(BP + ":Parameters")(SP, params.ks_decomp_params,
                                  params.bs_decomp_params)


def cmux(v1, v0, ctrl):
  return v1 if ctrl else v0


def lut_fn(tt):
  return lambda *bits: tt >> sum(b << i for i, b in enumerate(bits)) & 1


# -- concrete: real encryption, real bootstrap ------------------------------
STATE = {}


def env(which):
  if which not in STATE:
    J, P = repo(JB), repo(BP)
    params = P.get_params_for_test()
    sp = repo("jaxite.jaxite_cggi.parameters:SchemeParameters")(
        lwe_dimension=4 if which == "test" else 6,
        plaintext_modulus=1 << 32, rlwe_dimension=1 if which == "test" else 2,
        polynomial_modulus_degree=128)
    params = P.Parameters(sp, params.ks_decomp_params, params.bs_decomp_params)
    lr, rr = P.get_rng_for_test(1), P.get_rng_for_test(2)
    cks = J.ClientKeySet(params, lr, rr)
    sks = J.ServerKeySet(cks, params, lr, rr)
    STATE[which] = (J, params, cks, sks, lr)
  return STATE[which]


def concrete(kind, names=None, tts=None, which="test", watched=False):
  def run(rng, cnt, hints):
    J, params, cks, sks, prg = env(which)
    cts = {b: [J.encrypt(bool(b), cks, prg) for _ in range(2)]
           for b in (0, 1)}
    for b in (0, 1):
      for ct in cts[b]:
        if bool(J.decrypt(ct, cks)) != bool(b):
          return dict(function="decrypt(encrypt)", bit=b)
    enc = lambda b: rng.choice(cts[b])
    if watched:
      sks = copy.copy(sks)
      sks.bootstrap_callback = watch
    for q in range(cnt):
      h = hints[q] if q < len(hints) else {}
      run.unit.evals += 1
      if kind == "gates":
        nm = h.get("gate") or rng.choice(sorted(GATES2))
        bits = [rng.randrange(2) for _ in range(2)]
        run.unit.last_inputs = dict(gate=nm, bits=bits)
        for bits in itertools.product((0, 1), repeat=2):
          got = bool(J.decrypt(getattr(J, nm)(enc(bits[0]), enc(bits[1]), sks,
                                              params), cks))
          want = bool(GATES2[nm](*bits))
          if got != want:
            return dict(function=nm, inputs=bits, got=got, want=want)
      elif kind == "simple":
        for b in (0, 1):
          r = [("not_", J.not_(enc(b), params), 1 - b)]
          r += [("constant", J.constant(bool(b), params), b)]
          for tt in range(4):
            r.append((f"lut1 table {tt}", J.lut1(enc(b), tt, sks, params),
                      tt >> b & 1))
          x = J.not_(J.not_(enc(b), params), params)
          r.append(("not_(not_)", x, b))
          x = J.and_(J.not_(enc(b), params), J.constant(True, params), sks,
                     params)
          r.append(("and_(not_, True)", x, 1 - b))
          for nm, ct, want in r:
            got = bool(J.decrypt(ct, cks))
            if got != bool(want):
              return dict(function=nm, inputs=[b], got=got, want=bool(want))
      elif kind == "cmux":
        for bits in itertools.product((0, 1), repeat=3):
          run.unit.last_inputs = dict(bits=bits)
          got = bool(J.decrypt(J.cmux_(*[enc(b) for b in bits], sks, params),
                               cks))
          if got != bool(cmux(*bits)):
            return dict(function="cmux_", inputs=bits, got=got,
                        want=bool(cmux(*bits)))
      elif kind in ("lut2", "lut3"):
        k = int(kind[3])
        tt = h.get("table")
        tt = rng.choice(tts) if tt is None else tt
        for bits in itertools.product((0, 1), repeat=k):
          run.unit.last_inputs = dict(table=tt, bits=bits)
          got = bool(J.decrypt(getattr(J, kind)(*[enc(b) for b in bits], tt,
                                                sks, params), cks))
          if got != bool(lut_fn(tt)(*bits)):
            return dict(function=kind, table=tt, inputs=bits, got=got,
                        want=not got)
      else:  # pmap
        k = int(kind[-1])
        rows, want = [], []
        # more rows than this host has devices: pmap as the plain loop
        many = q % 3 == 1
        for _ in range(rng.randrange(9, 20) if many
                       else rng.choice([1, 2, 3, 4])):
          bits = [rng.randrange(2) for _ in range(k)]
          tt = rng.randrange(1 << (1 << k))
          rows.append(tuple(enc(b) for b in bits) + (tt,))
          want.append((tt, bits, bool(lut_fn(tt)(*bits))))
        run.unit.last_inputs = dict(rows=[w[:2] for w in want])
        o = getattr(fresh_module() if many else J, f"pmap_lut{k}")(
            rows, sks, params)
        got = [bool(J.decrypt(x, cks)) for x in o]
        if got != [w[2] for w in want]:
          return dict(function=f"pmap_lut{k}", rows=[w[:2] for w in want],
                      got=got, want=[w[2] for w in want])
    return None
  return run


def gates_unit(pname, names):
  def prove(ob):
    J = fresh_module()
    params = small(dict(param_sets())[pname])
    for nm in names:
      ob.info = dict(gate=nm)
      keys = Keys()
      sym_gate(ob, f"{pname} {nm}", lambda a, b: getattr(J, nm)(
          a, b, keys, params), 2, GATES2[nm], keys, params)
  run = concrete("gates")
  u = Unit(f"two-input gates {','.join(names)} ({pname} parameters)",
           [JB + "." + n for n in names] + [LUT + ".LutCache.lut_by_name"],
           prove=prove, concrete=run, cross=2, search=len(names) * 3)
  run.unit = u
  return u


def watched_unit(kind, names, tts=()):
  """The same contracts with an observing bootstrap callback installed."""
  def prove(ob):
    J = fresh_module()
    params = small(dict(param_sets())["test"])
    keys = Keys(callback=watch)
    for nm in names:
      if nm == "cmux_":
        sym_gate(ob, nm, lambda a, b, s: J.cmux_(a, b, s, keys, params), 3,
                 cmux, keys, params)
      elif nm in GATES2:
        ob.info = dict(gate=nm)
        sym_gate(ob, nm, lambda a, b: getattr(J, nm)(a, b, keys, params), 2,
                 GATES2[nm], keys, params)
      else:
        for tt in tts:
          ob.info = dict(table=tt)
          sym_gate(ob, f"{nm} table {tt}", lambda *x: getattr(J, nm)(
              *x, tt, keys, params), int(nm[3]), lut_fn(tt), keys, params)
  run = concrete(kind, tts=list(tts), watched=True)
  u = Unit(f"observed bootstrap: {','.join(names)}",
           [JB + "." + n for n in names] + [JB + ".ServerKeySet"],
           prove=prove, concrete=run, cross=1, search=6)
  run.unit = u
  return u


def cmux_unit(pname):
  def prove(ob):
    J = fresh_module()
    params = small(dict(param_sets())[pname])
    keys = Keys()
    sym_gate(ob, f"{pname} cmux_", lambda a, b, s: J.cmux_(a, b, s, keys,
                                                           params), 3, cmux,
             keys, params)
    t = params.lut_by_name("cmux")
    for bits in itertools.product((0, 1), repeat=3):
      m = 4 * bits[0] + 2 * bits[1] + bits[2]
      ob.true(f"table of cmux at {bits}", t.num_inputs == 3 and
              int(t.as_cleartext_list[m]) == int(cmux(*bits)), hard=True)
  run = concrete("cmux")
  u = Unit(f"cmux_ ({pname} parameters)", [JB + ".cmux_"], prove=prove,
           concrete=run, cross=1, search=2)
  run.unit = u
  return u


def simple_unit(pname):
  """Gates without a bootstrap: phase equations."""
  def prove(ob):
    J = fresh_module()
    params = small(dict(param_sets())[pname])
    dim = params.scheme_params.lwe_dimension
    keys = Keys()
    for nm, g, fn in (
        [("not_", lambda a: J.not_(a, params), (1, -1))] +
        [(f"constant({b})", lambda a, b=b: J.constant(b, params), (int(b), 0))
         for b in (True, False)] +
        [(f"lut1 table {tt}", lambda a, tt=tt: J.lut1(a, tt, keys, params),
          [(0, 0), (1, -1), (0, 1), (1, 0)][tt]) for tt in range(4)]):
      dom = IntDom()
      c = dom.c
      a = sym_array(dom, "a", (dim + 1,), U)
      s = sym_array(dom, "s", (dim,), U, 0, 1)
      with jax.ensure_compile_time_eval():
        params.noiseless_true, params.noiseless_false  # cached constants
      flat, _, _ = jx.run_sym(lambda x: jnp.asarray(g(x)), [(a, U)], dom)
      o = jx.to_obj(flat[0])
      ob.true(f"{nm}: shape", o.shape == (dim + 1,))
      ph = lambda t: c.sub(t[dim], c.dot(list(t[:dim]), list(s)))
      want = c.add(fn[0] << 28, c.mul(fn[1], ph(a)))
      ob.zero_mod(f"{nm}: phase is {fn[0]}*2^28 + {fn[1]}*phase(a)", c,
                  c.sub(ph(o), want), W)
    for tt in (-1, 4, 5, 17):
      try:
        J.lut1(jnp.zeros(dim + 1, jnp.uint32), tt, keys, params)
        r = False
      except ValueError:
        r = True
      ob.true(f"lut1 rejects table {tt}", r)
  run = concrete("simple")
  u = Unit(f"negation, constants, one-input tables ({pname} parameters)",
           [JB + ".not_", JB + ".constant", JB + ".lut1",
            BP + ".Parameters.noiseless_true",
            BP + ".Parameters.noiseless_false"], prove=prove, concrete=run,
           cross=1, search=4)
  run.unit = u
  return u


def lut_unit(k, tts, pname, tag, n=None):
  def prove(ob):
    J = fresh_module()
    params = small(dict(param_sets())[pname], dim=2, n=n)
    keys = Keys()
    f = getattr(J, f"lut{k}")
    for tt in tts:
      ob.info = dict(table=tt)
      sym_gate(ob, f"lut{k} table {tt}", lambda *x: f(*x, tt, keys, params), k,
               lut_fn(tt), keys, params)
  run = concrete(f"lut{k}", tts=tts)
  u = Unit(f"lut{k} {tag} ({pname} parameters)",
           [JB + f".lut{k}", LUT + ".LutCache.lut", LUT + ".LutCache.lut_poly",
            LUT + ".LookUpTable.as_cleartext_list",
            LUT + ".LookUpTable.as_rlwe_test_polynomial"],
           prove=prove, concrete=run, cross=2, search=16)
  run.unit = u
  return u


def pmap_unit(k, rows, bmmp=True):
  def prove(ob):
    J = fresh_module()
    params = small(dict(param_sets())["test"], dim=2)
    keys = Keys(bmmp=bmmp)
    rng = random.Random(5)
    tts = [rng.randrange(1 << (1 << k)) for _ in range(rows)]
    dim = 3
    dom = IntDom()
    c = dom.c
    ins = [[sym_array(dom, f"x{j}_{i}", (dim,), U) for i in range(k)]
           for j in range(rows)]
    rs = sym_array(dom, "r", (rows, dim), U)
    log = []

    def traced(r_, *xs):
      it = iter(xs)
      arg = [tuple(next(it) for _ in range(k)) + (tts[j],)
             for j in range(rows)]
      with recorder(lambda i: r_[min(i, rows - 1)], log):
        out = getattr(J, f"pmap_lut{k}")(arg, keys, params)
      polys = [l[1].pop("test_poly_ciphertext_message") for l in log
               if l[0] == "jit_bootstrap"]
      return out, [l[1]["ciphertext"] for l in log], polys
    flat, _, _ = jx.run_sym(traced, [(rs, U)] + [(x, U) for r in ins
                                                 for x in r], dom)
    ob.true("one bootstrap per row", len(log) == rows and
            len(flat) == 1 + 2 * rows, str(len(log)))
    if len(flat) != 1 + 2 * rows:
      return
    out = jx.to_obj(flat[0])
    ob.true("one result per row", out.shape == (rows, dim))
    for j in range(rows):
      log[j][1]["test_poly_ciphertext_message"] = flat[1 + rows + j]
      check_call(ob, f"row {j} table {tts[j]}", c,
                 (log[j][0], log[j][1], jx.to_obj(flat[1 + j])), ins[j],
                 lut_fn(tts[j]), keys, params, k)
      for i in range(dim):
        ob.zero_mod(f"row {j}: coordinate {i} of the result", c,
                    c.sub(out[j, i], rs[j, i]), W)
  run = concrete(f"pmap{k}")
  u = Unit(f"pmap_lut{k} of {rows} rows", [JB + f".pmap_lut{k}",
                                           JB + f".pmap_lut{k}_impl"],
           prove=prove, concrete=run, cross=1, search=8,
           assumes=["jax.pmap runs its function once per index of the mapped "
                    "axes"])
  run.unit = u
  return u


def table_unit():
  """Tables, tables by name, tables from callables, and the cache."""
  def tables(L, T, k):
    for tt in range(1 << (1 << k)):
      t = L.LookUpTable(k, tt)
      want = [tt >> i & 1 for i in range(1 << k)]
      if [int(x) for x in t.as_cleartext_list] != want:
        return dict(function="as_cleartext_list", table=tt, inputs=k)
      f = lambda *bits: bool(tt >> sum(int(b) << (k - 1 - i) for i, b in
                                       enumerate(bits)) & 1)
      g = L.from_callable(k, f)
      if (g.num_inputs, g.truth_table) != (k, tt):
        return dict(function="from_callable", table=tt, inputs=k,
                    got=g.truth_table)
    return None

  def cache(L, P, rng, cnt):
    p = small(P.get_params_for_test(), dim=2)
    c = L.LutCache(p.scheme_params)
    n = p.scheme_params.polynomial_modulus_degree
    names = dict(GATES2)
    for _ in range(cnt):
      run.unit.evals += 1
      r = rng.random()
      if r < 0.35:
        nm = rng.choice(sorted(names) + ["cmux"])
        key = nm.rstrip("_")
        k = 3 if nm == "cmux" else 2
        f = cmux if nm == "cmux" else names[nm]
        t, poly = c.lut_by_name(key), c.lut_poly_by_name(key)
        fn = lambda i: f(*[i >> (k - 1 - j) & 1 for j in range(k)])
        lab = key
      else:
        k = rng.choice([1, 2, 3])
        tt = rng.randrange(1 << (1 << k))
        if r < 0.6:
          tt = rng.choice([1, 2, 6, 8, 14])
          tt %= 1 << (1 << k)
        t, poly = c.lut(k, tt), c.lut_poly(k, tt)
        fn = lambda i: tt >> i & 1
        lab = f"table {tt} of {k}"
      run.unit.last_inputs = dict(lookup=lab)
      if t.num_inputs != k or [int(x) for x in t.as_cleartext_list] != [
          int(bool(fn(i))) for i in range(1 << k)]:
        return dict(function="LutCache.lut", what=lab,
                    got=[int(x) for x in t.as_cleartext_list])
      for m in range(1 << k):
        why = table_ok(np.asarray(poly.message), m, fn(m), n)
        if why:
          return dict(function="LutCache.lut_poly", what=lab, why=why)
    return None

  def prove(ob):
    L, T, P = repo(LUT), None, repo(BP)
    for k in (1, 2, 3):
      bad = tables(L, T, k)
      ob.true(f"all {1 << (1 << k)} tables of {k} inputs and from_callable",
              bad is None, str(bad), backend="exhaustive")
    for nm, f in list(GATES2.items()) + [("cmux", cmux)]:
      k = 3 if nm == "cmux" else 2
      t = L.FUNC_NAME_TO_LUT2[nm.rstrip("_")]
      ob.true(f"named table {nm}", t.num_inputs == k and t.truth_table == sum(
          int(bool(f(*[i >> (k - 1 - j) & 1 for j in range(k)]))) << i
          for i in range(1 << k)), backend="exhaustive")

  def run(rng, cnt, hints):
    L, P = repo(LUT), repo(BP)
    for k in (1, 2, 3):
      bad = tables(L, None, k)
      if bad:
        return bad
    return cache(L, P, rng, cnt * 10)
  u = Unit("tables and table cache", [LUT + ".LookUpTable",
                                      LUT + ".from_callable",
                                      LUT + ".LutCache.lut_by_name",
                                      LUT + ".LutCache.lut_poly_by_name"],
           prove=prove, concrete=run, cross=30, search=60)
  run.unit = u
  return u


def keyset_unit():
  """encrypt/decrypt use the message space of the gates; key generation wires
  the right secret keys into the server keys."""
  def prove(ob):
    E = repo("jaxite.jaxite_bool.bool_encoding")
    ep = E.ENCODING_PARAMS
    ob.true("encoding is 3 message bits, 1 padding bit in 32",
            (ep.total_bit_length, ep.message_bit_length,
             ep.padding_bit_length) == (32, 3, 1))
    ob.true("true is 1 and false is 0", int(E.CLEARTEXT_TRUE) == 1 and
            int(E.CLEARTEXT_FALSE) == 0)
    J = fresh_module()
    P = repo(BP)
    sp = repo("jaxite.jaxite_cggi.parameters:SchemeParameters")(
        lwe_dimension=2, plaintext_modulus=1 << 32, rlwe_dimension=1,
        polynomial_modulus_degree=16)
    params = P.Parameters(sp, P.TEST_KSK_DECOMP_PARAMS,
                          P.TEST_BSK_DECOMP_PARAMS)
    cks = J.ClientKeySet(params, P.get_rng_for_test(1), P.get_rng_for_test(2))
    calls = {}
    B = repo(BS)
    K = repo("jaxite.jaxite_cggi.key_switch")
    with contextlib.ExitStack() as st:
      for m, nm in ((B, "gen_bootstrapping_key"), (K, "gen_key")):
        sig = inspect.signature(inspect.unwrap(getattr(m, nm)))

        def stub(*a, nm=nm, sig=sig, **k):
          b = sig.bind(*a, **k)
          b.apply_defaults()
          calls[nm] = dict(b.arguments)
          return nm
        st.enter_context(paths.patched(m, nm, stub))
      lr, rr = P.get_rng_for_test(3), P.get_rng_for_test(4)
      sks = J.ServerKeySet(cks, params, lr, rr)
    g = calls.get("gen_bootstrapping_key")
    ob.true("bootstrapping key generated", g is not None)
    if g:
      ob.true("bootstrapping key encrypts the LWE key under the RLWE key",
              g["lwe_sk"] is cks.lwe_sk and np.array_equal(
                  np.asarray(g["rgsw_sk"].key.data), np.asarray(
                      cks.rlwe_sk.data)) if hasattr(g["rgsw_sk"], "key") else
              g["lwe_sk"] is cks.lwe_sk)
      ob.true("bootstrapping parameters", g["decomposition_params"] ==
              params.bs_decomp_params)
    k = calls.get("gen_key")
    ob.true("key switching key generated", k is not None)
    if k:
      flat = repo("jaxite.jaxite_cggi.rlwe:flatten_key")(cks.rlwe_sk)
      ob.true("switches from the flattened RLWE key to the LWE key",
              np.array_equal(np.asarray(k["in_key"].key_data),
                             np.asarray(flat.key_data)) and
              k["out_key"] is cks.lwe_sk)
      ob.true("key switching parameters", k["decomposition_params"] ==
              params.ks_decomp_params)
    ob.true("keys are exposed", sks.bsk == "gen_bootstrapping_key" and
            sks.ksk == "gen_key")

  def run(rng, cnt, hints):
    J, params, cks, sks, prg = env("k2")
    s = np.asarray(cks.lwe_sk.key_data).astype(object)
    for _ in range(cnt * 4):
      b = rng.randrange(2)
      run.unit.evals += 1
      ct = np.asarray(J.encrypt(bool(b), cks, prg)).astype(object)
      ph = (int(ct[-1]) - int(np.dot(ct[:-1], s)) - (b << 28)) % W
      if min(ph, W - ph) > 1 << 20:
        return dict(function="encrypt", bit=b, noise=ph)
      if bool(J.decrypt(ct.astype(U), cks)) != bool(b):
        return dict(function="decrypt", bit=b)
    for tt in (0b10010110, 0b11101000):
      for bits in itertools.product((0, 1), repeat=3):
        x = [J.encrypt(bool(b), cks, prg) for b in bits]
        got = bool(J.decrypt(J.lut3(*x, tt, sks, params), cks))
        run.unit.evals += 1
        if got != bool(lut_fn(tt)(*bits)):
          return dict(function="lut3", table=tt, inputs=bits, got=got)
    return None
  u = Unit("key sets, encryption and decryption",
           [JB + ".ClientKeySet", JB + ".ServerKeySet", JB + ".encrypt",
            JB + ".decrypt"], prove=prove, concrete=run, cross=5, search=10)
  run.unit = u
  return u


def units(tier):
  us = [table_unit(), keyset_unit()]
  g = sorted(GATES2)
  for pn in ("test", "128-bit"):
    us += [gates_unit(pn, g[:5]), gates_unit(pn, g[5:]), cmux_unit(pn),
           simple_unit(pn), lut_unit(2, list(range(16)), pn, "all tables")]
  al = list(range(256))
  for i in range(5):
    us.append(lut_unit(3, al[i::5], "test", f"tables part {i}"))
  us.append(lut_unit(3, al[3::16], "128-bit", "table sample"))
  us += [watched_unit("gates", g), watched_unit("cmux", ["cmux_"]),
         watched_unit("lut2", ["lut2"], range(16)),
         watched_unit("lut3", ["lut3"], range(5, 256, 23))]
  us += [pmap_unit(2, 3), pmap_unit(3, 3), pmap_unit(3, 1), pmap_unit(2, 1),
         pmap_unit(3, 17), pmap_unit(2, 17)]
  if tier == "thorough":
    for n in (64, 1024, 2048):
      for i in range(4):
        us.append(lut_unit(3, al[i::4], "test", f"tables part {i} N={n}", n))
  return us
