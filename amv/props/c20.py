"""Determinism."""
from ..engine import Property, Reject
from ..gen import Gen
from ..multi import MultiGen
from ..mutate import mutate
from .c08 import PROP as MATCH
from .c10 import C10, show

ELSEWHERE = ["w2", "outra pasta/é", "x.ama/sub", "a/b/c/d"]


class C20(Property):
    id = "C20"
    quick = 900
    thorough = 60000
    technique = ("property-based testing: metamorphic; the same sources compiled and run under other hash "
                 "seeds, in other processes, for other spellings and directories")
    level_note = "Random programs, accepted and rejected; three hash seeds and six paths per case."
    assumptions = ("Only the file name that a diagnostic shows may depend on the working directory.",)
    rule = ("A case is a set of source files: programs of one or several modules, matches that are not "
            "exhaustive, and damaged programs. It is compiled and run under three hash seeds, with other "
            "spellings of the path, and from a copy in another directory: bytecode, diagnostics, output and exit status are equal. "
            "Non-trivial: it is accepted, or its diagnostic is not about the syntax.")
    profile = dict(depth=2, keep_err=25, nfunc=(0, 3), nmet=(0, 2), nuni=(0, 2), nrec=(0, 2), ntop=(2, 6))

    def gen(self, s, tier):
        files = self.files(s)
        return {"files": files, "seed": s.rint(2, 4000000000), "to": s.pick(ELSEWHERE)}

    def files(self, s):
        k = s.weighted([(3, "one"), (3, "modules"), (2, "match"), (3, "damaged"), (1, "damaged-modules")])
        s.label(k)
        if k == "match":
            return {"prog.ama": MATCH.gen(s, "quick")["src"]}
        if k in ("one", "damaged"):
            t = Gen(s, **self.profile).program().source(s if s.p(30) else None)
            return {"prog.ama": mutate(t, s) if k == "damaged" else t}
        g = MultiGen(s, **C10.profile)
        g.modules(s.rint(2, 4))
        fs = g.sources()
        if k == "damaged-modules":
            n = s.pick(sorted(fs))
            fs[n] = mutate(fs[n], s)
        return fs

    def check(self, case, env):
        fs = case["files"]
        w = self.compare(case, env)
        return w and w + "\n" + show(fs)

    def compare(self, case, env):
        fs = case["files"]
        one = len(fs) == 1
        base = env.w.run(fs, "prog.ama")
        if base.timeout:
            raise Reject()
        self.how = base.how
        self.err = base.err
        want = view(base)

        def differs(r, what, norm=lambda t: t, vm=False):
            if r.timeout:
                return f"{what}: the program did not end"
            got = view(r)
            if not vm:
                # what runs is equal when the bytecode is
                got = (got[0], want[1], got[2], want[3]) if want[0] is not None else got
                if want[0] is not None and not got[2]:
                    got = (got[0], got[1], want[2], got[3])
            a = (want[0], want[1], norm(want[2]), want[3])
            b = (got[0], got[1], norm(got[2]), got[3])
            for x, y, n in zip(a, b, ("bytecode", "output", "diagnostics", "exit status")):
                if x != y:
                    return f"the {n} differ {what}:\n{str(x)[:600]}\n--- and ---\n{str(y)[:600]}"
            return None

        here = env.w.dir + "/w"
        for seed in ("1", str(case["seed"])):
            # two workers are enough: the seed of the second one is drawn once
            wk = env.worker("1" if seed == "1" else self.second(env, seed))
            there = wk.dir + "/w"
            w = differs(wk.run(fs, "prog.ama", vm=seed != "1"), f"under hash seed {seed}",
                        lambda t: t.replace(there, "@").replace(here, "@"), seed != "1")
            if w:
                return w
        extra = dict(fs)
        extra["pasta/k"] = ""
        for main, cwd in (("./prog.ama", ""), ("pasta/../prog.ama", ""), (here + "/prog.ama", ""),
                          ("//" + here + "//./prog.ama", "")) + (
                              (("../prog.ama", "pasta"), (here + "/prog.ama", "pasta")) if one else ()):
            w = differs(env.w.run(extra, main, cwd=cwd, vm=False), f"for the path {main} in {cwd or '.'}",
                        lambda t: t.replace('Ficheiro "../prog.ama"', 'Ficheiro "prog.ama"') if cwd else t)
            if w:
                return w
        to = case["to"]
        moved = {to + "/" + n: t for n, t in fs.items()}
        w = differs(env.w.run(moved, "prog.ama", cwd=to, vm=False), f"in the directory {to}",
                    lambda t: t.replace(f"{here}/{to}", "@").replace(here, "@"))
        if w:
            return w
        return None

    def second(self, env, seed):
        if not hasattr(self, "_second"):
            self._second = seed
        return self._second

    def nontrivial(self, case):
        if self.how in ("ok", "rt-error") or "sintático" not in self.err:
            return str(case["files"])
        return None

    def sample(self, case):
        return {"files": case["files"], "outcome": self.how}


def view(r):
    return (r.blob, r.out, r.err, r.rc)


PROP = C20()
