"""mkseed.py ID SPEC.py: build a planted bug in a scratch copy and confirm it.

SPEC.py defines: property, needs, what_it_breaks, edits=[(file, old, new)...],
demo (python text, run with cwd at the repository root).
Confirms: patch applies, demo passes on the unchanged tree and fails with the
patch, stable tests pass (unless --no-tests).  Writes /verif/seeded/ID.
"""
import json, os, shutil, subprocess, sys, runpy
ID, spec = sys.argv[1], sys.argv[2]
s = runpy.run_path(spec)
d = f"/verif/seeded/{ID}"
work = f"/tmp/seed_{ID}"
shutil.rmtree(work, ignore_errors=True)
subprocess.check_call(["cp", "-a", "/repo", work])
for f, old, new in s["edits"]:
  p = os.path.join(work, f)
  t = open(p).read()
  assert t.count(old) == 1, (f, t.count(old), old)
  open(p, "w").write(t.replace(old, new))
patch = subprocess.check_output(["git", "-C", work, "diff"], text=True)
os.makedirs(d, exist_ok=True)
open(d + "/patch.diff", "w").write(patch)
json.dump(dict(property=s["property"], needs=s["needs"],
               what_it_breaks=s["what_it_breaks"]),
          open(d + "/meta.json", "w"), indent=1)
PRE = '''import os, sys
os.environ.setdefault("JAX_PLATFORMS", "cpu")
sys.path.insert(0, os.getcwd())
import jaxite
if os.getcwd() not in jaxite.__path__:
  jaxite.__path__.append(os.getcwd())
'''
open(d + "/demo.py", "w").write(PRE + s["demo"])
open(d + "/demo.sh", "w").write('#!/bin/bash\nexec /opt/venv/bin/python "$(dirname "$0")/demo.py"\n')
os.chmod(d + "/demo.sh", 0o755)
a = subprocess.run(["bash", d + "/demo.sh"], cwd="/repo", capture_output=True, text=True)
b = subprocess.run(["bash", d + "/demo.sh"], cwd=work, capture_output=True, text=True)
print(ID, "demo clean rc", a.returncode, "patched rc", b.returncode, b.stdout[-300:], b.stderr[-300:] )
if a.returncode: print(a.stdout[-800:], a.stderr[-1500:])
ok = a.returncode == 0 and b.returncode != 0
shutil.rmtree(work)
sys.exit(0 if ok else 1)
