"""The debug listing."""
from ..engine import Property, Reject
from ..gen import Gen
from ..image import Bad, decode, sweep
from ..multi import MultiGen
from ..mutate import mutate
from .c10 import C10, show
from .c17 import PROP as HARD


def listing(image):
    """What the listing of a module says."""
    o = [".entry_space: %d\n.consts\n" % image["entry_locals"]]
    for part, items in (("consts", image["constants"]), ("names", image["names"])):
        if part == "names":
            o.append(".names\n")
        for i, x in enumerate(items):
            o.append(f"{i}: {x}\n")
    o.append(".ops\n")
    for p, (op, args, _) in sweep(image["ops"]).items():
        o.append(" ".join([f"{p}:", op, *map(str, args)]) + "\n")
    return "".join(o)


class C21(Property):
    id = "C21"
    quick = 1500
    thorough = 80000
    technique = ("property-based testing: differential between the listing and an independent "
                 "disassembly of the bytecode, and between runs with and without it")
    level_note = "Random programs."
    assumptions = ("The listing describes the main module.",)
    rule = ("A case is a program (of one or several modules, with constants that are hard to write, or "
            "damaged). The listing that -d writes has to be, line by line, the one that an independent "
            "decoder makes from the bytecode that a run without -d hands to the virtual machine; with "
            "-d the bytecode, output, diagnostics and exit status stay equal, an old listing is "
            "replaced, and a rejected program writes none. Non-trivial: the listing has 20 "
            "instructions or more.")
    profile = dict(depth=3, keep_err=25, nfunc=(0, 3), nmet=(0, 2), nuni=(0, 2), nrec=(0, 2), ntop=(2, 8),
                   igx=4, iguala=4, seiguala=2, escolha=3)

    def gen(self, s, tier):
        k = s.weighted([(6, "one"), (3, "modules"), (3, "constants"), (1, "damaged"), (1, "long")])
        s.label(k)
        old = s.pick([None, "x" * 100000, ""])
        flag = s.pick([["-d"], ["--debug"]])
        last = s.p(30)
        if k == "constants":
            files = {"prog.ama": HARD.program(s)["src"]}
        elif k == "modules":
            g = MultiGen(s, **C10.profile)
            g.modules(s.rint(2, 4))
            files = g.sources()
        else:
            t = Gen(s, **self.profile).program().source(s if s.p(30) else None)
            if k == "damaged":
                t = mutate(t, s)
            if k == "long":
                n = s.pick([130, 300, 3000])
                t = "\n".join(f"mostra '{i} texto' == '{i * 7}' e {i} > {i * 3}" for i in range(n)) + "\n" + t
            files = {"prog.ama": t}
        return {"files": files, "old": old, "flag": flag, "last": last}

    def check(self, case, env):
        w = self.compare(case, env)
        return w and w + "\n" + show(case["files"])[:4000]

    def compare(self, case, env):
        fs = case["files"]
        base = env.w.run(fs, "prog.ama", want=True)
        if base.timeout:
            raise Reject()
        self.ops = 0
        if base.files:
            return f"the files {sorted(base.files)} were written without -d"
        with_old = dict(fs)
        if case["old"] is not None:
            with_old["debug.amasm"] = case["old"]
        if case["last"]:
            # the option after the file
            r = env.w.run(with_old, case["flag"][0], args=("prog.ama",), want=True)
        else:
            r = env.w.run(with_old, "prog.ama", args=case["flag"], want=True)
        for a, b, n in ((r.blob, base.blob, "bytecode"), (r.out, base.out, "output"),
                        (r.err, base.err, "diagnostics"), (r.rc, base.rc, "exit status")):
            if a != b:
                return f"with -d the {n} differ: {str(a)[:500]!r}, without {str(b)[:500]!r}"
        got = r.files.pop("debug.amasm", None)
        if r.files:
            return f"the files {sorted(r.files)} were written"
        if base.blob is None:
            if case["old"] is None and got is not None:
                return "a listing was written for a rejected program"
            return None
        if case["old"] is not None:
            got = self.reread(env)
        if got is None:
            return "no listing was written"
        try:
            want = listing(decode(base.blob))
            self.ops = want.split(".ops\n")[-1].count("\n")
        except Bad as e:
            return f"the bytecode cannot be decoded: {e}"
        got = got.decode("utf-8", "replace")
        if got != want:
            a, b = got.split("\n"), want.split("\n")
            for i in range(max(len(a), len(b))):
                x, y = (t[i] if i < len(t) else "<end>" for t in (a, b))
                if x != y:
                    return f"line {i + 1} of the listing is {x!r}; the bytecode says {y!r}"
        return None

    def reread(self, env):
        with open(env.w.dir + "/w/debug.amasm", "rb") as f:
            return f.read()

    def nontrivial(self, case):
        return str(case["files"]) if self.ops >= 20 else None

    def sample(self, case):
        return {"files": show(case["files"])[:1500], "instructions": self.ops}


PROP = C21()
