#!/usr/bin/env python3
"""crosscheck.py [-a] [ID…]: runs the check of each planted bug's property (-a: all checks) on a copy of /repo with the bug,
and records which checks report it in tools/caught.json."""
import json, os, shutil, subprocess, sys, tempfile
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
args = [a for a in sys.argv[1:] if a != "-a"]
every = "-a" in sys.argv
path = os.path.join(V, "tools", "caught.json")
caught = json.load(open(path)) if os.path.exists(path) else {}
checks = [c["property"] for c in json.load(open(os.path.join(V, "MANIFEST.json")))["checks"]]
tmp = tempfile.mkdtemp(prefix="amv-cross-")
try:
    for d in args or sorted(os.listdir(os.path.join(V, "seeded"))):
        m = json.load(open(os.path.join(V, "seeded", d, "meta.json")))
        r = os.path.join(tmp, "r")
        shutil.copytree("/repo", r, symlinks=True, ignore=shutil.ignore_patterns("target"))
        subprocess.run(["git", "-C", r, "apply", os.path.join(V, "seeded", d, "patch.diff")], check=True)
        env = {**os.environ, "AMV_REPO": r}
        env.pop("AMV_SO", None)
        got = []
        for c in checks if every else [m["property"]]:
            x = subprocess.run([sys.executable, os.path.join(V, "run.py"), c], env=env, cwd=V, capture_output=True, text=True)
            if x.returncode == 1 and f"VIOLATION property={c}" in x.stdout:
                got.append(c)
            elif x.returncode:
                print(d, c, "exit", x.returncode, (x.stdout + x.stderr)[-300:])
        if not every:
            got += [c for c in caught.get(d, []) if c not in got and c != m["property"]]
        caught[d] = sorted(got)
        print(d, m["property"], got, flush=True)
        shutil.rmtree(r)
        with open(path, "w") as f:
            json.dump(caught, f, indent=1, sort_keys=True)
            f.write("\n")
finally:
    shutil.rmtree(tmp)
