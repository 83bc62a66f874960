"""Client side of worker.py."""
import os
import pickle
import shutil
import struct
import subprocess
import tempfile

HERE = os.path.dirname(os.path.abspath(__file__))
PYTHON = os.environ.get("AMV_PYTHON") or (
    "/opt/venv/bin/python" if os.path.exists("/opt/venv/bin/python") else "python3"
)


class HarnessError(Exception):
    pass


class Result:
    __slots__ = ("timeout", "rc", "out", "err", "blob", "value", "files")

    def __init__(self, r):
        self.timeout = r["timeout"]
        self.rc = r["rc"]
        self.out = r["out"].decode("utf-8", "replace")
        self.err = r["err"].decode("utf-8", "replace")
        self.blob = r["blob"]
        self.value = r.get("result")
        self.files = {}

    @property
    def traceback(self):
        return "Traceback (most recent call last)" in self.err

    @property
    def crashed(self):
        """A Python traceback, a Rust panic or a signal."""
        return (
            self.traceback
            or self.rc < 0
            or self.rc not in (0, 1)
            or "panicked at" in self.err
            or "RUST_BACKTRACE" in self.err
        )

    @property
    def compiled(self):
        return self.blob is not None

    @property
    def how(self):
        if self.timeout:
            return "timeout"
        if self.crashed:
            return "crash"
        if self.blob is None:
            return "rejected"
        return "ok" if self.rc == 0 else "rt-error"

    def show(self, n=1500):
        return (
            f"[{self.how}] rc={self.rc}\n--- stdout\n{self.out[:n]}\n--- stderr\n"
            + (self.err if len(self.err) < n else "..." + self.err[-n:])
        )


class Worker:
    def __init__(self, repo, so, scratch, hashseed="0"):
        self.scratch = scratch
        env = {
            "PATH": os.environ.get("PATH", "/usr/bin:/bin"),
            "HOME": os.environ.get("HOME", "/root"),
            "LANG": "C.UTF-8",
            "PYTHONUTF8": "1",
            "PYTHONDONTWRITEBYTECODE": "1",
            "PYTHONHASHSEED": hashseed,
        }
        self.p = subprocess.Popen(
            [PYTHON, os.path.join(HERE, "worker.py"), repo, so],
            stdin=subprocess.PIPE, stdout=subprocess.PIPE,
            stderr=open(os.path.join(scratch, f"worker-{os.getpid()}.err"), "ab"),
            env=env, cwd=scratch,
        )
        self.n = 0
        self.dir = tempfile.mkdtemp(prefix="job", dir=scratch)

    def _send(self, job):
        data = pickle.dumps(job)
        try:
            self.p.stdin.write(struct.pack("<I", len(data)) + data)
            self.p.stdin.flush()
            head = self.p.stdout.read(4)
        except (BrokenPipeError, OSError):
            head = b""
        if len(head) < 4:
            err = ""
            try:
                with open(os.path.join(self.scratch, f"worker-{os.getpid()}.err")) as f:
                    err = f.read()[-2000:]
            except OSError:
                pass
            raise HarnessError("worker died: " + err)
        r = pickle.loads(self.p.stdout.read(struct.unpack("<I", head)[0]))
        if "harness_error" in r:
            raise HarnessError(r["harness_error"])
        return r

    def run(self, files, main="prog.ama", args=(), stdin=b"", vm=True, timeout=20,
            cwd="", want=()):
        """files: {relative path: str|bytes}.  Runs `amanda ARGS MAIN`."""
        if isinstance(files, str):
            files = {main: files}
        self.n += 1
        root = os.path.join(self.dir, "w")
        shutil.rmtree(root, ignore_errors=True)
        os.makedirs(root)
        for name, data in files.items():
            path = os.path.join(root, name)
            os.makedirs(os.path.dirname(path), exist_ok=True)
            if isinstance(data, str):
                data = data.encode("utf-8")
            with open(path, "wb") as f:
                f.write(data)
        at = os.path.join(root, cwd) if cwd else root
        os.makedirs(at, exist_ok=True)
        r = Result(self._send({
            "kind": "run", "cwd": at, "argv": [*args, main], "stdin": stdin,
            "vm": vm, "timeout": timeout,
        }))
        if want:
            for base, _, names in os.walk(root):
                for x in names:
                    p = os.path.relpath(os.path.join(base, x), root)
                    if p not in files:
                        with open(os.path.join(root, p), "rb") as f:
                            r.files[p] = f.read()
        return r

    def call(self, fn, arg, timeout=20):
        os.makedirs(os.path.join(self.dir, "w"), exist_ok=True)
        r = Result(self._send({
            "kind": "call", "cwd": os.path.join(self.dir, "w"), "argv": [],
            "fn": fn, "arg": arg, "timeout": timeout,
        }))
        return r

    def close(self):
        try:
            self.p.stdin.close()
            self.p.wait(5)
        except Exception:
            self.p.kill()
