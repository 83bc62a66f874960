"""Fork server that runs the code under test.  One process per worker; it
imports amanda from the repository once, and forks a child per job, so that no
job sees state another left behind.

Talks over stdin/stdout: 4-byte length + pickle.  Jobs:

  {"kind": "run", "cwd": dir, "argv": [...], "stdin": bytes, "vm": bool,
   "timeout": s}
      What `python -m amanda ARGV` does in DIR.  The shared library of the VM
      (which the program loads with ctypes) is replaced by the one this
      framework built from the repository's sources, and the bytes handed to
      it are recorded.  With "vm": False they are only recorded.
  {"kind": "call", "fn": name, "arg": obj, "timeout": s, "cwd": dir}
      One of the functions of inproc.py.
"""
import ctypes
import os
import pickle
import resource
import select
import signal
import struct
import sys
import time
import traceback

REPO, VM_SO = sys.argv[1], sys.argv[2]
sys.path.insert(0, REPO)
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.dont_write_bytecode = True

_in = os.fdopen(os.dup(0), "rb")
_out = os.fdopen(os.dup(1), "wb")
_null = os.open(os.devnull, os.O_RDWR)
os.dup2(_null, 0)
os.dup2(2, 1)

_real_cdll = ctypes.CDLL
_lib = None     # of the job that runs


class Loaded:
    """What loading the VM's library gives, whenever it is loaded."""

    def __getattr__(self, name):
        return getattr(_lib, name)


def cdll(name=None, *a, **k):
    if name and "libamanda" in str(name):
        return Loaded()
    return _real_cdll(name, *a, **k)


ctypes.CDLL = ctypes.cdll._dlltype = cdll

import amanda.__main__ as cli  # noqa: E402
import inproc  # noqa: E402

if VM_SO != "-":
    _vm = _real_cdll(VM_SO)
else:
    _vm = None


class FakeLib:
    """Stands in for ctypes.CDLL(<libamanda>)."""

    def __init__(self, run):
        self._run = run
        self.blobs = []
        # a function that takes attributes, as those of ctypes do (argtypes, restype)
        self.run_module = lambda arr, count: self._run_module(arr, count)

    def _run_module(self, arr, count):
        n = count.value if hasattr(count, "value") else int(count)
        obj = getattr(arr, "_obj", arr)
        blob = bytes(bytearray(obj)[:n])
        self.blobs.append(blob)
        fd = os.open(self.sink, os.O_WRONLY | os.O_CREAT | os.O_TRUNC)
        os.write(fd, blob)
        os.close(fd)
        if not self._run:
            return 0
        rc = _vm.run_module(arr, count)
        # Rust's stdout is a LineWriter that only a Rust main() flushes
        return rc


def child(job, sink):
    global _lib
    argv = job["argv"]
    _lib = FakeLib(job.get("vm", True))
    _lib.sink = sink
    sys.argv = ["amanda"] + list(argv)
    code = 0
    try:
        cli.main()
    except SystemExit as e:
        if e.code is None:
            code = 0
        elif isinstance(e.code, int):
            code = e.code & 0xFF
        else:
            sys.stderr.write(str(e.code) + "\n")
            code = 1
    except BaseException:
        traceback.print_exc()
        code = 1
    return code


def run(job):
    out = os.memfd_create("o")
    err = os.memfd_create("e")
    sink = os.path.join(job["cwd"], "..", "blob")
    inp = os.memfd_create("i")
    os.write(inp, job.get("stdin", b""))
    os.lseek(inp, 0, 0)
    call = job["kind"] == "call"
    res = os.memfd_create("r") if call else -1
    pid = os.fork()
    if pid == 0:
        code = 99
        try:
            os.setsid()
            os.chdir(job["cwd"])
            os.dup2(inp, 0)
            os.dup2(out, 1)
            os.dup2(err, 2)
            gb = 1 << 30
            resource.setrlimit(resource.RLIMIT_AS, (4 * gb, 4 * gb))
            resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
            resource.setrlimit(resource.RLIMIT_FSIZE, (64 << 20, 64 << 20))
            sys.stdin = open(0, encoding="utf-8", closefd=False)
            sys.stdout = open(1, "w", encoding="utf-8", closefd=False)
            sys.stderr = open(
                2, "w", encoding="utf-8", errors="backslashreplace", closefd=False
            )
            if call:
                try:
                    r = ("ok", getattr(inproc, job["fn"])(job["arg"]))
                except BaseException as e:
                    r = ("exc", type(e).__name__, str(e)[:500], traceback.format_exc()[-4000:])
                try:
                    data = pickle.dumps(r)
                except Exception as e:
                    data = pickle.dumps(("exc", "Pickle", repr(e), ""))
                os.write(res, data) if len(data) < 1 << 20 else _write_all(res, data)
                code = 0
            else:
                code = child(job, sink)
            sys.stdout.flush()
            sys.stderr.flush()
        except BaseException:
            os.write(2, traceback.format_exc().encode())
        finally:
            os._exit(code)
    timeout = job.get("timeout", 10)
    pfd = os.pidfd_open(pid)
    p = select.poll()
    p.register(pfd, select.POLLIN)
    timed = not p.poll(timeout * 1000)
    if timed:
        os.kill(pid, signal.SIGKILL)
    _, st = os.waitpid(pid, 0)
    os.close(pfd)
    r = {
        "timeout": timed,
        "rc": os.waitstatus_to_exitcode(st),
        "out": _slurp(out),
        "err": _slurp(err),
        "blob": None,
    }
    if call:
        data = _slurp(res, 1 << 28)
        r["result"] = pickle.loads(data) if data else None
    elif os.path.exists(sink):
        with open(sink, "rb") as f:
            r["blob"] = f.read()
        os.unlink(sink)
    os.close(inp)
    return r


def _write_all(fd, data):
    while data:
        n = os.write(fd, data)
        data = data[n:]


def _slurp(fd, limit=1 << 22):
    os.lseek(fd, 0, 0)
    parts = []
    size = 0
    while size < limit:
        b = os.read(fd, 1 << 20)
        if not b:
            break
        parts.append(b)
        size += len(b)
    os.close(fd)
    return b"".join(parts)


def serve():
    while True:
        head = _in.read(4)
        if len(head) < 4:
            return
        job = pickle.loads(_in.read(struct.unpack("<I", head)[0]))
        try:
            r = run(job)
        except Exception:
            r = {"harness_error": traceback.format_exc()}
        data = pickle.dumps(r)
        _out.write(struct.pack("<I", len(data)) + data)
        _out.flush()


serve()
