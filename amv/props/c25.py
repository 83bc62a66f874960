"""The sizes of a program."""
from ..diag import wrong
from ..engine import Property
from ..size import BIG, SLOW, SMALL
from .c10 import show

EDGE = [254, 255, 256, 257, 258]
TOP = [65533, 65534, 65535, 65536, 65537, 65540]


class C25(Property):
    id = "C25"
    quick = 500
    thorough = 20000
    technique = ("property-based testing: families of programs that scale one construct through the operand widths, against "
                 "the output computed from the size")
    level_note = "30 families, alone and combined, mostly around 256 elements, some around 65536."
    assumptions = ("Sizes above 70000 (for nested values, 300000) are not explored.",)
    rule = ("A case is a program of one to three parts, each one a construct repeated n times (constants, variables, functions, methods, "
            "records, fields, parameters, variants, elements, dimensions, parts of a text, arms, statements jumped over, operators, "
            "nested blocks and patterns, modules, calls, characters, digits, lines), with n at or around 1, 256 and 65536, "
            "at the global level or in a function, with or without enough "
            "other constants and names in front to move its own past the first 256 or 65536. It has to print what its size tells, or to be rejected with a "
            "diagnostic; up to 60 elements it has to be accepted. Non-trivial: a size of 100 or more.")

    def size(self, s):
        return s.weighted([(2, s.rint(0, 8)), (2, s.rint(9, 240)), (8, s.pick(EDGE)), (1, s.rint(259, 1500))])

    def gen(self, s, tier):
        parts, what = [], []
        big = s.p(8 if tier != "thorough" else 15)
        if big:
            table = {**BIG, **SLOW} if tier == "thorough" and s.p(10) else BIG
            f = s.pick(sorted(table))
            n = s.weighted([(3, s.pick(TOP)), (1, s.rint(2000, 65532))])
            if f == "linked":
                n = s.pick([20000, 70000, 300000])
            if f == "text_len" and s.p(60):
                n = s.pick([2 ** 18 + 3, 2 ** 20 + 3, 2 ** 21 + 3, 2 ** 20 * 3])
            what.append((f, n))
            fs = [(table[f], n)]
            if s.p(40):
                f = s.pick(sorted(SMALL))
                n = s.rint(1, 5)
                what.append((f, n))
                fs.append((SMALL[f], n))
        elif s.p(12):
            n = s.pick([1500, 5400, 5461, 5462, 6000, 11000])
            what.append(("far", n))
            fs = [(SMALL["far"], n)]
        else:
            fs = []
            for _ in range(s.weighted([(5, 1), (2, 2), (1, 3)])):
                f = s.pick(sorted(SMALL))
                n = self.size(s)
                if f in ("nested", "nested_patterns", "chain", "modules", "recursion") and s.p(60):
                    n = s.rint(0, 70)
                what.append((f, n))
                fs.append((SMALL[f], n))
        for k, (f, n) in enumerate(fs):
            parts.append(f(n, k, s))
            s.label(f.__name__)
        uses = [u for p in parts for u in p.uses]
        files, text, out = {}, "".join(u + "\n" for u in uses), ""
        pad = s.weighted([(6, 0), (2, s.pick(EDGE)), (1, s.rint(0, 300))]) if not big else 0
        if pad:
            what.append(("pad", pad))
            text += "".join(f"pad{i}: int = {9000000 + i}\n" for i in range(pad))
        inside, err = s.n(3), False
        for k, p in enumerate(parts):
            files.update(p.files)
            text += p.decl
            if inside == 1 or inside == 2 and k % 2:
                text += f"func corpo{k}()\n{p.main}fim\ncorpo{k}()\n"
            else:
                text += p.main
            if not err:
                out += p.out
            err = err or p.err
        files["prog.ama"] = text
        if not uses and s.p(10):
            files["outro.ama"] = text
            files["prog.ama"] = 'usa "outro"\n'
            what.append(("module", 1))
        return {"files": files, "out": out, "what": what, "err": err}

    def check(self, case, env):
        fs, what = case["files"], case["what"]
        self.fate = None
        r = env.w.run(fs, "prog.ama", timeout=120)
        why = self.judge(case, r)
        if why is None:
            return None
        src = show(fs)
        return f"{why}\nsizes: {what}\n{r.show(2500)}\nexpected: {case['out'][:500]!r}\n{src[:5000]}{' ...' if len(src) > 5000 else ''}"

    def judge(self, case, r):
        if r.timeout:
            return "no answer in 120 s"
        if r.traceback or r.crashed:
            return "the compiler or the VM crashed"
        most = max(n for _, n in case["what"])
        if r.compiled:
            self.fate = "runs"
            if r.rc == 0 and r.out == case["out"] and not r.err and not case["err"]:
                return None
            if case["err"] and r.rc == 1 and r.out == case["out"] and "\nErro na linha" in "\n" + r.err:
                return None
            if any(f == "recursion" and n > 900 for f, n in case["what"]) and r.rc == 1 and "Erro na linha" in r.err:
                self.fate = "too many calls"
                return None
            return "the program does not print what it should"
        self.fate = "rejected"
        w = wrong(r, case["files"])
        if w:
            return w
        if most <= 60:
            return "a program without anything large is rejected"
        return None

    def nontrivial(self, case):
        return str(case["files"]) if self.fate and max(n for _, n in case["what"]) >= 100 else None

    def sample(self, case):
        return {"sizes": case["what"], "answer": self.fate, "program": case["files"]["prog.ama"][:400]}


PROP = C25()
