"""The real command, in a process of its own: a copy of the repository's compiler and standard
library, with the virtual machine this framework built where the compiler looks for it."""
import os
import shutil
import subprocess

from .client import PYTHON
from .engine import REPO


def install(env):
    """-> the folder to put in PYTHONPATH (one per process of this framework)"""
    root = os.path.join(env.scratch, f"cli{os.getpid()}")
    if not os.path.exists(root):
        for d in ("amanda", "std", "utils"):
            if os.path.isdir(os.path.join(REPO, d)):
                shutil.copytree(os.path.join(REPO, d), os.path.join(root, d),
                                ignore=shutil.ignore_patterns("__pycache__", "target"))
        out = os.path.join(root, "amanda", "vm", "target", "debug")
        os.makedirs(out)
        os.symlink(env.so, os.path.join(out, "libamanda.so"))
    return root


class Answer:
    __slots__ = ("rc", "out", "err", "timeout")

    def show(self, n=1500):
        return f"rc={self.rc}{' TIMEOUT' if self.timeout else ''}\n--- stdout\n{self.out[:n]}\n--- stderr\n{self.err[-n:]}"


def run(env, cwd, argv, stdin=b"", stdout=None, extra=None, timeout=30):
    root = install(env)
    e = {"PATH": "/usr/bin:/bin", "HOME": env.scratch, "PYTHONPATH": root,
         "PYTHONPYCACHEPREFIX": os.path.join(root, "pyc"), "LANG": "C.UTF-8"}
    e.update(extra or {})
    a = Answer()
    a.timeout = False
    try:
        p = subprocess.run([PYTHON, "-m", "amanda", *argv], cwd=cwd, env=e, input=stdin, stderr=subprocess.PIPE,
                           stdout=subprocess.PIPE if stdout is None else stdout, timeout=timeout)
    except subprocess.TimeoutExpired:
        a.timeout, a.rc, a.out, a.err = True, None, "", ""
        return a
    a.rc = p.returncode
    a.out = (p.stdout or b"").decode("utf-8", "replace")
    a.err = p.stderr.decode("utf-8", "replace")
    return a
