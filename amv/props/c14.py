"""A diagnostic points at the place of the fault."""
import os
import re

from .. import lexref
from ..diag import lines, parse, wrong
from ..engine import Property
from ..gen import Gen
from ..lang import N
from ..multi import MultiGen
from ..mutate import mutate
from ..rules import ANYWHERE, PRELUDE, TOP, WRONG
from ..spread import FAULTS, GLOBAL, spread
from ..textred import reduce_files
from .c10 import C10, show
from .c12 import PROP as TYPING, Walk
from .c13 import PROP as ANSWERS
from .c16 import PROP as TREES

# code that is valid anywhere between the statements of the global level; its names are used nowhere else
VALID = [
    "kv{i}: int = 1\n",
    "kv{i}: texto = 'a\nb\n\nc'\n",
    "kv{i}: texto = \"a\\nb # 'c\"   # d\n",
    "func kv{i}(\n    a: int,\n    b: texto\n): int\n    retorna a # '\nfim\n",
    "registo Kv{i}\n    a: int\n\n    # fim\n    b: [texto]\nfim\n",
    "uniao Kv{i}\n    A(int),\n\n    B # x\nfim\n",
    "kv{i}: [int] = [int: 1,\n    2,\n\n    3\n]\n",
    "kv{i}: texto = f'a\n{{1 + 2}}\n{{3}} \\n'\n",
    "kv{i}: int = 1; kw{i}: int = 2;\n",
    "se 1 == 1 entao\n    kv{i}: texto = '\n'\nsenao\n    kv{i}: int = 2\nfim\n",
    "enquanto falso faca\n    quebra\nfim\n",
    "kv{i}: int = iguala 1\n    1 => 2\n    _ => faca\n        produz 3\n    fim\nfim\n",
    "escolha 1:\n    caso 1:\n        kv{i}: int = 2\n    senao:\n        kv{i}: texto = ''\nfim\n",
    "met int::kv{i}(alvo): int\n    retorna alvo\nfim\n",
    "kv{i}: real = vec(real, 2,\n    1 + 2\n)[0][1]\n",
    "kv{i}: texto = '\\\\\\'\n\\\\n'\n",
    "\n\n\n",
    # characters that end a line elsewhere, and not here
    "kv{i}: texto = 'a\x0cb\u2028c\x85d\x0be\x1c'\n",
    "kv{i}: int =\x0c1\u2028 # \x85 a \u2029 b\n",
    "# a\x0c\x0b\u2028\x1d\n",
]
IMPORT = ['usa "mat" => kv{i}\n', "\n\n", "usa 'mat' => kv{i}   # a\n", "# usa\n\n"]
BLANK = ["", "", "", "    ", "\t", "# x", "    # 'a", "# \"", "# fim", "#", " \t ", "## f'{", "# \\", "\x0c", "# \u2028 a\x0c", "\x85"]
JUNK = "$&^~`!|²½\U0001f600\u0301\x00"


def boundaries(text):
    """Where a line that begins outside of any token begins: offsets; and whether the text ends in the middle of one."""
    spans = []
    toks = lexref.lex(text, spans)
    nl = [a + 1 for (a, _), t in zip(spans, toks) if t[0] == "NEWLINE"]
    return [0] + nl, toks[-1][0] == "ERROR"


class C14(Property):
    id = "C14"
    quick = 2500
    thorough = 300000
    technique = ("property-based testing: faults planted at known places, and a metamorphic relation between the diagnostics "
                 "of a rejected program and of the same program with layout, valid code or modules around it")
    level_note = ("Programs up to about 150 lines, one to four modules; the place is known exactly for planted faults, "
                  "and by the relation for random damage.")
    needs_vm = False
    assumptions = ("The lists of amv/rules.py give the line of each fault inside its text.",)
    rule = ("A case is a program with a fault (an expression or statement that is wrong by itself, put at a known place; a "
            "character that begins no token; random damage; changed names), and the same program with blank lines and "
            "comments inserted, lines indented, comments at the end of lines, other line ends, valid code before or after it, or moved "
            "into a module. The diagnostic has to name the file and the line of the fault and quote it; the second program has to "
            "give the same message, its line moved exactly. Non-trivial: the program is rejected and something changed.")
    profile = TYPING.profile

    def gen(self, s, tier):
        k = s.weighted([(5, "slot"), (3, "stmt"), (3, "junk"), (4, "damaged"), (2, "typed"), (2, "modules"), (2, "rules"), (3, "spread")])
        s.label(k)
        case = getattr(self, k)(s)
        self.change(case, s)
        return case

    # ------------------------------------------------------------- programs
    def base(self, s):
        g = Gen(s, **self.profile)
        items = [N("raw", t=PRELUDE.rstrip("\n"))] + list(g.program().items)
        TYPING.printed(items, None)
        return items

    def marked(self, t, mark="\x01", off=1):
        """The line that the mark is on."""
        return t.replace(mark, ""), t[:t.index(mark)].count("\n") + off

    def slot(self, s):
        items = self.base(s)
        w = Walk(items)
        if not w.slots:
            return self.stmt(s, items)
        x = s.pick(w.slots)
        b = s.pick([e for e in WRONG if (e != "alvo" or not x.met) and (x.exp != "fstr" or not set(e) & set("'\"{}"))])
        x.set(N("raw", t="\x01" + (f"({b})" if ":>" in b else b), ty="?"))
        t, line = self.marked(TYPING.printed(items, s))
        return {"files": {"prog.ama": t}, "bad": "prog.ama", "line": line, "fault": f"{x.what}: {b}"}

    def stmt(self, s, items=None):
        items = items or self.base(s)
        body, i, t, off = TYPING.stmt(s, Walk(items))
        body.insert(i, N("fault", t="\x01" + t))
        text, line = self.marked(TYPING.printed(items, s if s.p(60) else None), off=off)
        return {"files": {"prog.ama": text}, "bad": "prog.ama", "line": line, "fault": t}

    def rules(self, s):
        """Faults of the global level, after every kind of valid code."""
        t, off = s.pick(TOP + ANYWHERE)
        text = PRELUDE
        for i in range(s.rint(0, 4)):
            text += s.pick(VALID).format(i=i)
        line = text.count("\n") + off
        text += t + "\n"
        return {"files": {"prog.ama": text}, "bad": "prog.ama", "line": line, "fault": t}

    def spread(self, s):
        """A fault inside of a construct that spans several lines."""
        text = PRELUDE
        for i in range(s.rint(0, 2)):
            text += s.pick(VALID).format(i=i)
        f = s.pick(FAULTS + GLOBAL)
        t, lo, hi = spread(f, s)
        pre, post = "", ""
        if f in FAULTS:
            pre, post = s.pick([("", ""), ("", ""), ("se zb entao\n", "fim\n"), ("func zn7(a: int,\nb: int): int\n", "retorna 1\nfim\n"),
                                ("met Zr::zn7(alvo, a: int,\nb: int)\n", "fim\n"), ("enquanto zb faca\nmostra 1\n", "quebra\nfim\n"),
                                ("escolha 1:\ncaso 1:\n", "senao:\nmostra 1\nfim\n"), ("iguala 1\n_ => faca\n", "produz 1\nfim\nfim\n")])
        if f in FAULTS and s.p(30):
            pre += spread(s.pick(["mostra {i}\n", "zg = {i} + {i}\n", "zs = {t}\n", "zl = {l}\n"]).replace("\n", "\x01\x02\n"), s)[0]
        text += pre
        n = text.count("\n")
        text += t + "\n" + post
        return {"files": {"prog.ama": text}, "bad": "prog.ama", "line": n + lo, "last": n + hi, "fault": t}

    def junk(self, s):
        t = s.pick(TREES.gen(s, "quick")["texts"][:4]) if s.p(50) else ANSWERS.program(s)
        spans = []
        lexref.lex(t, spans)
        if not spans:
            return {"files": {"prog.ama": "$"}, "bad": "prog.ama", "line": 1, "fault": "$"}
        i = s.n(len(spans))
        # what ends a line may come after a comment
        p = spans[i][0] if s.p(50) and t[spans[i][0]] != "\n" else spans[i][1]
        c = s.pick(JUNK)
        if c == "!" and t[p:p + 1] == "=" or c.isalnum() and p and not t[p - 1].isspace():
            c = "$"
        line = t[:p].count("\n") + 1
        # modules are looked for while the text is read
        return {"files": {"prog.ama": t[:p] + c + t[p:]}, "bad": None if "usa" in t else "prog.ama", "line": line, "fault": c, "lexical": True}

    def damaged(self, s):
        t = s.pick(TREES.gen(s, "quick")["texts"][:4]) if s.p(25) else ANSWERS.program(s)
        return {"files": {"prog.ama": mutate(t, s, s.weighted([(4, 1), (2, 2), (1, 3)]))}, "bad": None}

    def typed(self, s):
        return {"files": {"prog.ama": ANSWERS.typed(s)}, "bad": None}

    def modules(self, s):
        g = MultiGen(s, **C10.profile)
        g.modules(s.rint(2, 4))
        fs = g.sources()
        n = s.pick(sorted(fs))
        if s.p(50):
            fs[n] = mutate(fs[n], s, s.rint(1, 2))
            return {"files": fs, "bad": None}
        t = fs[n]
        if not t.endswith("\n"):
            t += "\n"
        f = s.pick(["mostra nada9", "nada9 = 1", "nada9: Nada = 1", "func nada9(): int\nfim", "mostra 1 + 'a'", "se 1 entao\nfim",
                    "mostra )", "fim", "x9 y9", "$"])
        line = t.count("\n") + 1
        fs[n] = t + f + "\n"
        return {"files": fs, "bad": n, "line": line, "fault": f}

    # -------------------------------------------------------------- changes
    def change(self, case, s):
        """What is done to the program; decided before it is known which file the diagnostic names."""
        ops = []
        for _ in range(s.weighted([(5, 1), (3, 2), (1, 4)])):
            k = s.weighted([(6, "lines"), (4, "indent"), (2, "comment"), (1, "crlf"), (4, "before"), (2, "after"), (2, "module")])
            ops.append([k, s.n(1 << 30)])
        case["ops"] = ops

    def apply(self, case, d, bad):
        """-> files, file, line, column difference, text or None to leave it out"""
        from ..engine import Src
        import random
        fs = dict(case["files"])
        line, dcol, n = d.line, 0, 0
        tail = ""
        done = []
        crlf = False
        for k, seed in case["ops"]:
            r = random.Random(seed)
            t = fs[bad]
            if k == "crlf":
                crlf = True
                done.append(k)
                continue
            marks, open_ = boundaries(t)
            starts = [(p, t[:p].count("\n") + 1) for p in marks]
            body = t.rstrip()
            if k == "lines":
                for _ in range(r.randint(1, 3)):
                    ok = [p for p in marks if p <= len(body) or p == 0]
                    p = r.choice(ok)
                    ln = t[:p].count("\n") + 1
                    new = [r.choice(BLANK) for _ in range(r.choice((1, 1, 2, 3, 7)))]
                    if r.random() < 0.01:
                        new += [""] * r.choice((250, 300, 65530, 66000))
                    t = t[:p] + "".join(x + "\n" for x in new) + t[p:]
                    if ln <= line:
                        line += len(new)
                    marks, _ = boundaries(t)
                    body = t.rstrip()
            elif k == "indent":
                end = len(t) if not open_ else marks[-1] + 1
                sel = [p for p, _ in starts if r.random() < 0.5]
                pad = r.choice([" ", "    ", "\t", " \t ", "          "])
                for p in reversed(sel):
                    if t[:p].count("\n") + 1 == line:
                        dcol += len(pad)
                    t = t[:p] + pad + t[p:]
                del end
            elif k == "comment":
                for p in reversed(marks[1:]):
                    if r.random() < 0.4:
                        c = r.choice([" # x", "# 'a", "   ", " #", "\t# \"fim"])
                        if t[p - 2:p - 1] == "\x01":
                            continue
                        ln = t[:p].count("\n")
                        if "#" not in c and "#" in t[:p].split("\n")[ln - 1]:
                            continue
                        if ln == line:
                            tail = c + tail if not tail else None
                        t = t[:p - 1] + c + t[p - 1:]
                if tail is None:
                    return None
            elif k == "before":
                # the annotations of the module come first, then the imports
                if "@@" in t:
                    continue
                some = [] if "mat.ama" in fs else range(r.choice((0, 1, 2)))
                new = "".join(r.choice(IMPORT).format(i=f"{n}_{j}") for j in some)
                if "usa" not in t:
                    new += "".join(r.choice(VALID).format(i=f"{n}_{j + 2}") for j in range(r.randint(1, 3)))
                n += 1
                t = new + t
                line += new.count("\n")
            elif k == "after":
                if d.syntax or not t.endswith("\n"):
                    continue
                t += "".join(r.choice(VALID).format(i=f"{n}_{j}") for j in range(r.randint(1, 3)))
                n += 1
            elif k == "module":
                if "main" in fs or "inicio.ama" in fs or '"prog' in "".join(map(str, fs.values())) or "'prog" in "".join(map(str, fs.values())):
                    continue
                name = r.choice(["mod9", "sub9/mod9", "sub9/a/b9"])
                if bad != "prog.ama":
                    continue
                fs[name + ".ama"] = t
                del fs["prog.ama"]
                bad = name + ".ama"
                form = r.choice([f'usa "{name}"', f'usa "{name}" => z9', f'usa "{name}" => [q9]'])
                pre = "\n" * r.randint(0, 4) + r.choice(["", "# mostra 1\n", 'usa "mat" => y9\n'])
                fs["prog.ama"] = pre + form + "\nmostra 2\n"
                if r.random() < 0.4:
                    fs["meio9.ama"] = fs["prog.ama"]
                    fs["prog.ama"] = r.choice(["", "\n", "# a\n\n"]) + 'usa "meio9"\n'
                done.append(k)
                continue
            fs[bad] = t
            done.append(k)
        if crlf:
            fs[bad] = fs[bad].replace("\n", "\r\n")
        return fs, bad, line, dcol, tail, done

    # ---------------------------------------------------------------- check
    def check(self, case, env):
        fs = case["files"]
        self.fate = None
        r = env.w.run(fs, "prog.ama", vm=False, timeout=20)
        where = f"{r.show(2000)}\n{show(fs)[:6000]}"
        if case["bad"] and r.compiled:
            return f"the fault {case['fault']!r} is accepted\n" + where
        if r.compiled or r.blob is not None:
            return None
        w = wrong(r, fs)
        if w:
            return f"{w}\n{where}"
        d = parse(r.err)
        if d is None:
            return None
        bad = os.path.normpath(d.file)
        if case["bad"] and not (bad == case["bad"] and case["line"] <= d.line <= case.get("last", case["line"])):
            return (f"the fault {case['fault']!r} is on line {case['line']} of {case['bad']}, "
                    f"the diagnostic is on line {d.line} of {d.file}\n{where}")
        a = self.apply(case, d, bad)
        if a is None:
            return None
        fs2, bad2, line, dcol, tail, done = a
        if fs2 == fs:
            return None
        self.fate = done
        r2 = env.w.run(fs2, "prog.ama", vm=False, timeout=20)
        where += f"\n=== changed: {', '.join(done)}\n{r2.show(2000)}\n{show(fs2)[:6000]}"
        if r2.compiled or r2.blob is not None:
            return f"the changed program is accepted\n{where}"
        w = wrong(r2, fs2)
        if w:
            return f"changed program: {w}\n{where}"
        d2 = parse(r2.err)
        if d2 is None:
            return None
        if os.path.normpath(d2.file) != bad2 or d2.line != line:
            return f"the line of the changed program should be {line} of {bad2}, not {d2.line} of {d2.file}\n{where}"
        if (self.norm(d2.msg), d2.syntax) != (self.norm(d.msg), d.syntax) and not ("module" in done and "importar" in d.msg):
            return f"the message of the changed program should be the same\n{where}"
        if d.col is not None and int(d2.col) not in (int(d.col) + dcol, int(d.col) + dcol + len(tail)):
            return f"the column of the changed program should be {int(d.col) + dcol}\n{where}"
        return None

    def norm(self, msg):
        return re.sub(r"'/[^']*/w/", "'", msg)

    def nontrivial(self, case):
        return str(case["files"]) + str(self.fate) if self.fate else None

    def sample(self, case):
        return {"files": {k: v[:1500] for k, v in case["files"].items()}, "fault": case.get("fault"), "line": case.get("line"),
                "changes": self.fate}

    def reduce(self, choices, env, case, why, deadline):
        if case["bad"]:
            return None
        return reduce_files(self, env, case, why, deadline)


PROP = C14()
