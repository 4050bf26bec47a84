"""Build one planted bug in /verif/seeded from a description file (development tool).

python3-vt tools/seed.py DESC.py   with  ID, PROPERTY, EDITS=[(file, old, new)], NEEDS, BREAKS, DEMO
Confirms it in a scratch copy and prints whether the property's check catches it.
"""
import json
import os
import shutil
import subprocess
import sys

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
d = {}
exec(open(sys.argv[1]).read(), d)
S = f"/tmp/seed-{d['ID']}"
shutil.rmtree(S, ignore_errors=True)
subprocess.run(["cp", "-a", "/repo", S], check=True)
try:
    base = subprocess.run(["git", "-C", S, "rev-list", "--max-parents=0", "HEAD"], capture_output=True,
                          text=True).stdout.strip()
    for f, old, new in d["EDITS"]:
        p = f"{S}/src/vfbLib/{f}"
        s = open(p).read()
        assert s.count(old) == 1, (f, s.count(old), old)
        s0 = subprocess.run(["git", "-C", S, "show", f"{base}:src/vfbLib/{f}"], capture_output=True, text=True).stdout
        i = s.index(old)
        # changed lines must be original lines
        a = old.split("\n")
        b = new.split("\n")
        for line in a:
            if line not in b and line not in s0.split("\n"):
                print("WARNING: changes a line that is not original:", line)
        open(p, "w").write(s.replace(old, new))
    diff = subprocess.run(["git", "-C", S, "diff"], capture_output=True, text=True).stdout
    out = f"{V}/seeded/{d['ID']}"
    os.makedirs(out, exist_ok=True)
    open(f"{out}/patch.diff", "w").write(diff)
    open(f"{out}/demo.py", "w").write(d["DEMO"].lstrip("\n"))
    open(f"{out}/demo.sh", "w").write('#!/bin/sh\n# run with the working directory at the root of the repository\n'
        'here=$(cd "$(dirname "$0")" && pwd)\n'
        'PYTHONDONTWRITEBYTECODE=1 PYTHONPATH="$PWD/src" exec /opt/venv/bin/python "$here/demo.py"\n')
    os.chmod(f"{out}/demo.sh", 0o755)
    json.dump(dict(property=d["PROPERTY"], needs=d["NEEDS"], what_it_breaks=d["BREAKS"]),
              open(f"{out}/meta.json", "w"), indent=1)
    r0 = subprocess.run(["sh", f"{out}/demo.sh"], cwd="/repo", capture_output=True, text=True)
    r1 = subprocess.run(["sh", f"{out}/demo.sh"], cwd=S, capture_output=True, text=True)
    print("demo unchanged:", r0.returncode, r0.stderr[-300:], "| patched:", r1.returncode, r1.stdout[-200:], r1.stderr[-200:])
    t = subprocess.run(["/opt/venv/bin/python", "-m", "pytest", "-q", "-x", "--no-header", "-p", "no:cacheprovider"],
                       cwd=S, capture_output=True, text=True, env={**os.environ, "PYTHONPATH": f"{S}/src", "PYTHONDONTWRITEBYTECODE": "1"})
    print("tests:", t.stdout.strip().split("\n")[-1])
    for tier in sys.argv[2:] or ["quick"]:
        c = subprocess.run(["python3-vt", f"{V}/check.py", d["PROPERTY"], "--tier", tier], capture_output=True, text=True,
                           env={**os.environ, "VFBLIB_REPO": S})
        print(tier, "check:", c.returncode, "\n".join(c.stdout.strip().split("\n")[-6:])[-900:], c.stderr[-300:])
finally:
    shutil.rmtree(S, ignore_errors=True)
