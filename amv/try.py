"""python3 -m amv.try FILE...: run programs with a freshly built VM (debugging)."""
import os, sys, tempfile, shutil
from . import vmbuild, client
repo = os.environ.get("AMV_REPO", "/repo")
s = os.environ.get("AMV_SCRATCH") or tempfile.mkdtemp()
so = os.path.join(s, "vm/target/debug/libamanda.so")
if not os.path.exists(so):
    so = vmbuild.build(repo, s)
w = client.Worker(repo, so, s)
for f in sys.argv[1:]:
    txt = open(f, encoding="utf-8").read()
    for i, part in enumerate(txt.split("\n#----\n")):
        r = w.run(part)
        print("=" * 20, f, i); print(part.strip()); print(r.show())
w.close()
if not os.environ.get("AMV_SCRATCH"):
    shutil.rmtree(s)
