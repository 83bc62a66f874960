"""Runs the programs of cases.json, beside this file, with the command line of /repo
(copied to a scratch directory, where the virtual machine is built) and compares
what they print with what is written there.  Exit 0: all as expected."""
import json
import os
import re
import shutil
import subprocess
import sys
import tempfile

HERE = os.path.dirname(os.path.abspath(__file__))
PY = "/opt/venv/bin/python" if os.path.exists("/opt/venv/bin/python") else sys.executable


def build(root):
    for d in ("amanda", "std", "utils"):
        shutil.copytree(os.path.join("/repo", d), os.path.join(root, d),
                        ignore=shutil.ignore_patterns("__pycache__", "target"))
    vm = os.path.join(root, "amanda", "vm")
    toml = os.path.join(vm, "Cargo.toml")
    t = open(toml, encoding="utf-8").read()
    t = re.sub(r"(?m)^rustc-hash\s*=.*$", 'rustc-hash = "2"', t)
    t = re.sub(r"(?m)^unicode-segmentation\s*=.*$", 'unicode-segmentation = "1"', t)
    open(toml, "w", encoding="utf-8").write(t)
    lock = os.path.join(vm, "Cargo.lock")
    if os.path.exists(lock):
        os.remove(lock)
    env = dict(os.environ, CARGO_TARGET_DIR=os.path.join(vm, "target"), CARGO_NET_OFFLINE="true", CARGO_PROFILE_DEV_DEBUG="0")
    p = subprocess.run(["cargo", "build", "--offline", "-q"], cwd=vm, env=env, capture_output=True, text=True)
    if p.returncode:
        sys.exit("the virtual machine does not build:\n" + p.stderr[-3000:])


def run(root, case):
    d = tempfile.mkdtemp(dir=root)
    for name, text in case["files"].items():
        f = os.path.join(d, name)
        os.makedirs(os.path.dirname(f), exist_ok=True)
        with open(f, "w", encoding="utf-8", newline="") as h:
            h.write(text)
    env = dict(os.environ, PYTHONPATH=root, PYTHONDONTWRITEBYTECODE="1", PYTHONUTF8="1", **case.get("env", {}))
    try:
        p = subprocess.run([PY, "-m", "amanda", *case.get("args", []), case.get("main", "p.ama")], cwd=d, env=env,
                           input=case.get("stdin", "").encode(), capture_output=True, timeout=60)
    except subprocess.TimeoutExpired:
        return {"rc": "timeout", "out": "", "err": ""}
    clean = lambda b: b.decode("utf-8", "replace").replace(d, "DIR")
    r = {"rc": p.returncode, "out": clean(p.stdout), "err": clean(p.stderr)}
    for f in case.get("read", []):
        r[f] = open(os.path.join(d, f), encoding="utf-8").read()
    return r


def main():
    cases = json.load(open(os.path.join(HERE, "cases.json"), encoding="utf-8"))
    root = tempfile.mkdtemp(prefix="amademo")
    bad = 0
    try:
        build(root)
        for i, c in enumerate(cases):
            r = run(root, c)
            if sys.argv[1:] == ["--record"]:
                c["expect"] = r
                print(json.dumps(r, ensure_ascii=False, indent=1))
            elif r != c["expect"]:
                bad = 1
                print(f"case {i}: got\n{json.dumps(r, ensure_ascii=False, indent=1)}\nexpected\n"
                      f"{json.dumps(c['expect'], ensure_ascii=False, indent=1)}")
    finally:
        shutil.rmtree(root, ignore_errors=True)
    if sys.argv[1:] == ["--record"]:
        json.dump(cases, open(os.path.join(HERE, "cases.json"), "w", encoding="utf-8"), ensure_ascii=False, indent=1)
    sys.exit(bad)


main()
