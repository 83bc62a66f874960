"""Builds the Rust VM from the repository's current sources, offline, in a
scratch directory.  Cargo.toml is copied with the one dependency requirement
that the local crate cache cannot satisfy relaxed (rustc-hash 1.1 -> the cached
2.x; only FxHashMap is used from it)."""
import os
import re
import shutil
import subprocess


class BuildError(Exception):
    pass


def build(repo, scratch):
    src = os.path.join(repo, "amanda", "vm")
    dst = os.path.join(scratch, "vm")
    shutil.rmtree(dst, ignore_errors=True)
    os.makedirs(dst)
    shutil.copytree(os.path.join(src, "src"), os.path.join(dst, "src"))
    with open(os.path.join(src, "Cargo.toml"), encoding="utf-8") as f:
        toml = f.read()
    toml = re.sub(r'(?m)^rustc-hash\s*=.*$', 'rustc-hash = "2"', toml)
    toml = re.sub(r'(?m)^unicode-segmentation\s*=.*$', 'unicode-segmentation = "1"', toml)
    with open(os.path.join(dst, "Cargo.toml"), "w", encoding="utf-8") as f:
        f.write(toml)
    env = dict(os.environ)
    env.update(
        CARGO_TARGET_DIR=os.path.join(dst, "target"),
        CARGO_NET_OFFLINE="true",
        # the debug profile the project uses, minus what only debuggers need
        CARGO_PROFILE_DEV_DEBUG="0",
        CARGO_PROFILE_DEV_OPT_LEVEL="1",
        CARGO_PROFILE_DEV_INCREMENTAL="false",
    )
    p = subprocess.run(
        ["cargo", "build", "--offline", "-q"], cwd=dst, env=env,
        capture_output=True, text=True, timeout=600,
    )
    so = os.path.join(dst, "target", "debug", "libamanda.so")
    if p.returncode != 0 or not os.path.exists(so):
        raise BuildError("cargo build failed:\n" + p.stderr[-3000:])
    return so
