"""Entry point: python -m vc.run <property> [--tier quick|thorough]."""

import argparse
import collections
import importlib
import json
import os
import subprocess
import sys
import time

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
PY = "/opt/venv/bin/python"


def setup_env():
  sys.path.insert(0, VERIF)
  repo = os.environ.get("VC_DEV_TREE", "/repo")  # always /repo in checks
  sys.path.insert(0, repo)
  vt = "/opt/veriftools/pyvenv/lib/python3.12/site-packages"
  if vt not in sys.path:
    sys.path.append(vt)
  # jaxite_ec's sources import themselves as jaxite.jaxite_ec.*
  import jaxite  # pylint: disable=g-import-not-at-top
  if repo not in jaxite.__path__:
    jaxite.__path__.append(repo)


def child_env(prop=""):
  e = dict(os.environ)
  e.update(PYTHONDONTWRITEBYTECODE="1", PYTHONHASHSEED="0",
           JAX_PLATFORMS="cpu",
           XLA_FLAGS="--xla_cpu_multi_thread_eigen=false "
                     "intra_op_parallelism_threads=1",
           OMP_NUM_THREADS="1", MKL_NUM_THREADS="1", OPENBLAS_NUM_THREADS="1",
           TF_CPP_MIN_LOG_LEVEL="3")
  if prop == "C01":  # pmap needs several devices
    e["XLA_FLAGS"] = ("--xla_force_host_platform_device_count=4 " +
                      e["XLA_FLAGS"])
  e.pop("PYTHONPATH", None)
  return e


def worker(args):
  setup_env()
  from vc import harness  # pylint: disable=g-import-not-at-top
  mod = importlib.import_module(f"vc.checks.{args.prop.lower()}")
  if getattr(mod, "X64", False):
    import jax  # pylint: disable=g-import-not-at-top
    jax.config.update("jax_enable_x64", True)
  if args.tier == "thorough":
    harness.LIMITS.update(prove=3600.0, search=1200.0, worker=6 * 3600.0)
  out = open(args.out, "w")
  try:
    units = mod.units(args.tier)
  except harness.Missing as e:
    out.write(json.dumps(dict(fatal=f"missing: {e}")) + "\n")
    out.close()
    return 0
  i, n = map(int, args.shard.split("/"))
  for j, u in enumerate(units):
    if args.only and args.only not in u.name:
      continue
    if j % n != i:
      continue
    out.write(json.dumps(dict(start=u.name)) + "\n")
    out.flush()
    rec = harness.run_unit(u, args.seed)
    out.write(json.dumps(rec) + "\n")
    out.flush()
  out.write(json.dumps(dict(done=True, total=len(units))) + "\n")
  out.close()
  return 0


def main():
  ap = argparse.ArgumentParser()
  ap.add_argument("prop")
  ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
  ap.add_argument("--seed", type=int,
                  default=int(os.environ.get("VERIF_SEED", "1") or 1))
  ap.add_argument("--shard")
  ap.add_argument("--out")
  ap.add_argument("--only", default="")
  ap.add_argument("--jobs", type=int, default=7)
  ap.add_argument("-v", action="store_true")
  args = ap.parse_args()
  if args.shard:
    return worker(args)
  t0 = time.time()
  limit = 780 if args.tier == "quick" else 6 * 3600
  evdir = os.path.join(VERIF, "evidence")
  os.makedirs(evdir, exist_ok=True)
  procs = []
  for i in range(args.jobs):
    f = os.path.join(evdir, f".{args.prop}.{os.getpid()}.{i}.jsonl")
    log = open(f + ".log", "w")
    p = subprocess.Popen(
        [PY, "-m", "vc.run", args.prop, "--tier", args.tier, "--seed",
         str(args.seed), "--shard", f"{i}/{args.jobs}", "--out", f,
         "--only", args.only],
        cwd=VERIF, env=child_env(args.prop), stdout=log, stderr=log)
    procs.append((p, f, log))
  for p, f, log in procs:
    try:
      p.wait(timeout=max(1, limit - (time.time() - t0)))
    except subprocess.TimeoutExpired:
      p.kill()
      p.wait()
    log.close()
  recs, fatal, errors = [], [], []
  for i, (p, f, log) in enumerate(procs):
    done = False
    pending = None
    if os.path.exists(f):
      for line in open(f):
        try:
          r = json.loads(line)
        except ValueError:
          continue
        if "fatal" in r:
          fatal.append(r["fatal"])
          done = True
        elif "start" in r:
          pending = r["start"]
        elif "done" in r:
          done = True
        else:
          recs.append(r)
          pending = None
      os.remove(f)
    logtxt = open(f + ".log").read()
    os.remove(f + ".log")
    if not done:
      if p.returncode is not None and p.returncode < 0 and pending:
        recs.append(dict(unit=pending, functions=[], verdict="timeout",
                         obligations=0, discharged=0, items=[], evals=0,
                         assumes=[], bounded=None, proved=False,
                         wall_s=limit))
      else:
        errors.append(f"worker {i} rc={p.returncode}: {logtxt[-3000:]}")
  return report(args, recs, fatal, errors, time.time() - t0)


def known_findings():
  f = os.path.join(VERIF, "known_findings.json")
  if not os.path.exists(f):
    return []
  return json.load(open(f)).get("findings", [])


def report(args, recs, fatal, errors, wall):
  evdir = os.path.join(VERIF, "evidence")
  mod_meta = {}
  try:
    mod_meta = json.load(open(os.path.join(HERE, "meta.json"))).get(
        args.prop, {})
  except FileNotFoundError:
    pass
  bad = [r for r in recs if r["verdict"] == "violated"]
  refuted = [r for r in recs if r["verdict"] == "refuted-no-input"]
  und = [r for r in recs if r["verdict"] in ("undecided", "timeout")]
  known = known_findings()
  lines = []
  nviol = 0
  for k, r in enumerate(bad + refuted):
    kf = [f for f in known if f["property"] == args.prop
          and f["status"] == "known" and f["unit"] == r["unit"]]
    if kf and r["verdict"] == "violated":
      lines.append(f"KNOWN-FINDING: property={args.prop} {kf[0]['what']}")
      continue
    path = os.path.join(evdir, f"{args.prop}.replay.{nviol}.json")
    failed = [i for i in r["items"] if i["status"] != "proved"]
    json.dump(dict(property=args.prop, unit=r["unit"],
                   functions=r["functions"],
                   failed_obligations=failed[:20],
                   failing_input=r.get("cex"),
                   replay_cmd=f"cd /verif && {PY} -m vc.run {args.prop} "
                              f"--only '{r['unit']}' --seed {args.seed}"),
              open(path, "w"), indent=1)
    tail = "" if r["verdict"] == "violated" else " no-failing-input-found"
    lines.append(f"VIOLATION property={args.prop} replay={path}{tail}")
    nviol += 1
  obl = sum(r["obligations"] for r in recs)
  dis = sum(r["discharged"] for r in recs)
  backends = collections.Counter()
  secs = 0.0
  for r in recs:
    for i in r["items"]:
      if i["status"] == "proved":
        backends[i["backend"]] += 1
      secs += i["secs"]
  proved_f = sorted({f for r in recs if r["verdict"] == "proved"
                     for f in r["functions"]})
  bounded_units = [dict(unit=r["unit"], functions=r["functions"],
                        bound=r["bounded"] or
                        f"{r['evals']} concrete evaluations of the real code",
                        why=[i["detail"] for i in r["items"]
                             if i["status"] != "proved"][:2])
                   for r in recs
                   if r["verdict"] in ("bounded",) or
                   (r["bounded"] and r["verdict"] == "proved")]
  ev = dict(
      property=args.prop, tier=args.tier, seed=args.seed,
      level=mod_meta.get("level", "proof"),
      coverage=dict(
          obligations=obl, discharged=dis,
          checker_cmd=f"cd /verif && {PY} -m vc.run {args.prop} --tier "
                      f"{args.tier}",
          trusted_base=mod_meta.get("trusted_base", []) + [
              "jax.make_jaxpr tracing and the jaxpr interpreter in vc/jx.py "
              "(cross-checked against real execution on every run)",
              "the integer-polynomial normaliser vc/poly.py",
              "z3 5.3.2 (LIA and BV)"],
          functions_under_contract=proved_f,
          units=len(recs),
          units_proved=sum(r["verdict"] == "proved" for r in recs),
          backends=dict(backends),
          solver_seconds=round(secs, 2),
          bounded_stand_ins=bounded_units,
          absent=[r["unit"] for r in recs if r["verdict"] == "absent"],
          undecided=[dict(unit=r["unit"], why=r.get("concrete_error") or
                          r["verdict"]) for r in und],
          evaluations=sum(r["evals"] for r in recs),
          samples=[dict(unit=r["unit"], obligation=i["name"],
                        backend=i["backend"], status=i["status"])
                   for r in recs[:6] for i in r["items"][:2]],
      ),
      assumptions=sorted({a for r in recs for a in r["assumes"]}) +
      mod_meta.get("assumptions", []),
      wall_s=round(wall, 2), violations=nviol)
  json.dump(ev, open(os.path.join(evdir, f"{args.prop}.json"), "w"), indent=1)
  for r in recs:
    if args.v or r["verdict"] not in ("proved",):
      d = [i["name"] + ": " + i["status"] + " " + i["detail"][:200]
           for i in r["items"] if i["status"] != "proved"][:3]
      print(f"[{r['verdict']}] {r['unit']} obligations={r['discharged']}/"
            f"{r['obligations']} evals={r['evals']} {r['wall_s']}s"
            + (" :: " + " | ".join(d) if d else "")
            + (" :: " + r["concrete_error"][-600:] if r.get("concrete_error")
               else "")
            + (" :: cex " + json.dumps(r["cex"])[:400] if r.get("cex") else ""))
      if args.v and r.get("trace"):
        print(r["trace"])
  print(f"{args.prop}: units={len(recs)} proved="
        f"{sum(r['verdict']=='proved' for r in recs)} obligations={dis}/{obl} "
        f"backends={dict(backends)} wall={wall:.1f}s")
  for l in lines:
    print(l)
  if nviol:
    return 1
  if errors or fatal:
    print("CHECK ERROR:", *errors, *fatal, sep="\n")
    return 3
  if not recs or obl == 0 and not any(r["verdict"] == "bounded" for r in recs):
    print("CHECK ERROR: no obligations were generated")
    return 3
  if args.only == "" and any(r["verdict"] in ("undecided",) for r in recs):
    # Nothing decides these units on this tree: say so, never guess.
    print("UNDECIDED:", [r["unit"] for r in recs
                         if r["verdict"] == "undecided"])
    if all(r["verdict"] in ("undecided", "absent", "timeout") for r in recs):
      return 2
  return 0


if __name__ == "__main__":
  sys.exit(main())
