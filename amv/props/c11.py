"""Everything at once."""
from ..diff import Diff
from ..textred import reduce_files
from ..wild import badly_shown, program


class C11(Diff):
    id = "C11"
    quick = 7000
    thorough = 200000
    technique = ("property-based testing: generated well-typed programs run on the real compiler and VM, differential "
                 "against a reference interpreter; and nearly well-typed programs, of which those that the checker "
                 "accepts must run without a crash and keep every variable to its type")
    rule = ("Half of the cases are programs that use any mix of the language's features, which the checker must "
            "accept, compared with the reference interpreter on output, exit status and error. The others are programs "
            "of one to three statements, of which some have operands of random types: what the checker accepts runs, then "
            "uses every variable as a value of its type. A compiler traceback, a panic, an abort or a signal fails both. "
            "Non-trivial: it prints at least two values.")
    profile = dict(
        depth=4, indefs=2, keep_err=30,
    )

    def gen(self, src, tier):
        if src.p(50):
            src.label("wild")
            return {"wild": program(src)}
        return super().gen(src, tier)

    def check(self, case, env):
        if "files" in case:
            case = {"wild": case["files"]["prog.ama"]}
        if "wild" not in case:
            return super().check(case, env)
        t = case["wild"]
        r = env.w.run(t, timeout=self.timeout)
        self.fate = r
        why = None
        if r.timeout:
            why = "the program did not end"
        elif r.crashed:
            why = "crash"
        elif not r.compiled:
            if "Erro" not in r.err:
                why = "no bytecode and no diagnostic"
        elif r.rc and "Erro na linha " not in r.err:
            why = f"status {r.rc} without an error of the language"
        else:
            why = badly_shown(t, r.out)
        return why and f"{why}\n{r.show()}\n--- program\n{t}"

    def reduce(self, choices, env, case, why, deadline):
        if "wild" not in case:
            return super().reduce(choices, env, case, why, deadline)
        c, w, n = reduce_files(self, env, {"files": {"prog.ama": case["wild"]}}, why, deadline)
        return {"wild": c["files"]["prog.ama"]}, w, n

    def nontrivial(self, case):
        if "wild" not in case:
            return super().nontrivial(case)
        return case["wild"] if self.fate.compiled and self.fate.out.count("\n") >= 2 else None

    def sample(self, case):
        if "wild" not in case:
            return super().sample(case)
        return {"program": case["wild"][-1500:], "answer": self.fate.how}


PROP = C11()
