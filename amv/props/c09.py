"""Text literals, constants that look alike, and f-strings."""
from ..diff import compare
from ..engine import Property
from ..ref import graphemes, show

ATOMS = ["a", "b", "x", "n", " ", "  ", "0", "5", "'", "'", '"', '"', "\\", "\\", "\n", "\n", "{", "{", "}", "}", "{{", "}}", "{x}", "#",
         ";", "/", "%d", "$x", "\t", "é", "e\u0301", "ç", "日", "\U0001f600", "\U0001f468\u200d\U0001f469\u200d\U0001f467", "\U0001f1e6\U0001f1f4",
         "\u00a0", "\u2028", "\x85", "\x0b", "\x0c", "\x1c", "\x00", "\x01", "\x1b[31m", "\x7f", "\ufeff", "\ufffd", "\uffff", "\U0010ffff", "\u202e",
         "\ud7ff", "\ue000", "\u0301", "ﬁ", "ß", "İ", "fim", "mostra", "<>", "\\\\", "''", '""', "\\t", "\\x41", "\\u0041", "\\0", "f'", "%", "&amp;"]
# texts that look like something else in the program
LIKE = ["5", "5.0", "-5", "0", "0.0", "-0", "1", "1.0", "verdadeiro", "falso", "nulo", "int", "real", "texto", "bool", "nome", "x", "eco", "Par",
        "a", "conta", "", " ", "None", "True", "[]", "Caso", "_inicio_", "main", "__main__", "_mostra", "e", "é", "e\u0301", "ã", "a\u0303",
        "9223372036854775807", "1e3", "mat", "tam", "escreva", "Par::nome", "f", "0x5", "inf", "NaN", "vazio", "alvo", "\n", "\\", "'", '"']
NUMS = ["5", "5.0", "0", "0.0", "1", "1.0", "verdadeiro", "falso", "-5", "-5.0", "-0.0", "9223372036854775807", "9223372036854775807.0",
        "100000.0", "100000", "0.5", "1000000000000000000000.0", "2", "2.0", "007", "007.50"]
VALUE = {"verdadeiro": True, "falso": False}


def num(t):
    if t in VALUE:
        return VALUE[t]
    return float(t) if "." in t else int(t)


def can(v):
    """Can v be written?  (A backslash stands for itself unless n, ' or \" follows; at the end it
    would take the delimiter with it.)"""
    return "\r" not in v and not v.endswith("\\") and "\\n" not in v


def fix(v):
    while not can(v):
        out = ""
        for i, c in enumerate(v):
            out += c
            if c == "\\" and (i + 1 == len(v) or v[i + 1] == "n"):
                out += "."
        v = out
    return v


def spell(s, v, q=None):
    """A literal for v."""
    q = q or s.pick("'\"")
    out = ""
    for i, c in enumerate(v):
        if c == q or (c in "'\"" and (s.p(25) or v[i - 1:i] == "\\")):
            out += "\\" + c
        elif c == "\n" and s.p(60):
            out += "\\n"
        else:
            out += c
    return q + out + q


HEAD = """registo Par
    nome: texto
    conta: int
fim
met Par::diz(alvo, p: texto): texto
    retorna f'{p}{alvo.nome}{alvo.conta}'
fim
uniao Caso
    A(texto),
    B(texto, int),
    C
fim
func eco(x: texto): texto
    escrevaln(x)
    retorna x
fim
func num(x: int): int
    escrevaln('num')
    escrevaln(x)
    retorna x
fim
"""


class Maker:
    def __init__(self, s):
        self.s = s
        self.n = 0
        self.vars = {}        # name -> value

    def text(self):
        s = self.s
        if s.p(30):
            v = s.pick(LIKE)
        else:
            v = "".join(s.pick(ATOMS) for _ in range(s.weighted([(2, 1), (4, 3), (3, 6), (2, 15), (1, 0)])))
            if s.p(2):
                v *= s.pick([20, 90, 300])
        return fix(v)

    def lit(self, v=None, q=None):
        v = self.text() if v is None else v
        return spell(self.s, v, q), v

    def fresh(self):
        self.n += 1
        return self.s.pick(["v", "t", "nome", "s", "f", "texto"]) + str(self.n)

    # ---- expressions inside f-strings: (source, value, what evaluating it writes)
    def inner(self, q):
        s = self.s
        k = s.n(14)
        names = sorted(self.vars)
        if k < 4 and names:
            n = s.pick(names)
            return n, self.vars[n], ""
        if k == 4:
            t = s.pick(NUMS)
            return t, num(t), ""
        if k == 5:
            a, b = s.rint(0, 9), s.rint(0, 9)
            return f"{a} + {b} * 2", a + b * 2, ""
        if k == 6:
            v = self.plain()
            return f"eco({self.quoted(v)})", v, v + "\n"
        if k == 7:
            a = s.rint(0, 99)
            return f"num({a})", a, f"num\n{a}\n"
        if k == 8:
            v = self.plain()
            return self.quoted(v), v, ""
        if k == 9:
            a, b = s.rint(0, 9), s.rint(0, 9)
            return f"num({a}) < num({b})", a < b, f"num\n{a}\nnum\n{b}\n"
        if k == 10:
            v = self.plain()
            c = s.rint(0, 9)
            return f"Par(nome: {self.quoted(v)}, conta: {c}).diz({self.quoted('>')})", f">{v}{c}", ""
        if k == 11:
            vs = [self.plain() for _ in range(s.rint(1, 3))]
            i = s.n(len(vs))
            return f"[texto: {', '.join(self.quoted(v) for v in vs)}][{i}]", vs[i], ""
        if k == 12:
            t = s.pick(["5", "2.5", "7"])
            return f"{t} :> texto", show(num(t)), ""
        v = self.plain()
        w = self.plain()
        return f"{self.quoted(v)} == {self.quoted(w)}", v == w, ""

    def plain(self):
        """A text that may be written inside the braces of an f-string."""
        v = "".join(self.s.pick(["a", "b", " ", "5", "é", "日", "#", "\n", "e\u0301", "{", "x", ":", ";", "\U0001f600"]) for _ in range(self.s.rint(0, 4)))
        return v if self.s.p(60) else self.s.pick(["", "5", "x", "verdadeiro", "nome"])

    def quoted(self, v):
        q = self.s.pick("'\"")
        return q + v + q

    def fstr(self):
        """-> (source, value, written)"""
        s = self.s
        q = s.pick("'\"")
        src, val, log = "", "", ""
        raw = []
        for _ in range(s.weighted([(1, 0), (3, 1), (4, 3), (2, 6)])):
            if s.p(45):
                v = self.text()
                raw.append((v.replace("{", "{{"), v))
            else:
                e, v, w = self.inner(q)
                if e.startswith("{"):
                    e = " " + e
                sp = s.pick(["", "", "", " ", "  ", "\t"])
                raw.append(("{" + sp + e + s.pick(["", sp, " "]) + "}", show(v)))
                log += w
        text = "".join(a for a, _ in raw)
        if not can(text):
            # what the pieces make together has to be spellable
            return self.fstr()
        return "f" + spell(s, text, q), "".join(b for _, b in raw), log

    # ---- statements: (source, output)
    def st_show(self):
        a, v = self.lit()
        return f"mostra {a}\n", v + "\n"

    def st_write(self):
        a, v = self.lit()
        f, e = self.s.pick([("escreva", ""), ("escrevaln", "\n")])
        return f"{f}({a})\n", v + e

    def st_var(self):
        n = self.fresh()
        a, v = self.lit()
        self.vars[n] = v
        if self.s.p(30):
            b, w = self.lit()
            return f"{n}: texto = {b}\n{n} = {a}\nmostra {n}\n", v + "\n"
        return f"{n}: texto = {a}\nmostra {n}\n", v + "\n"

    def st_num(self):
        n = self.fresh()
        t = self.s.pick(NUMS)
        v = num(t)
        ty = {bool: "bool", int: "int", float: "real"}[type(v)]
        self.vars[n] = v
        return f"{n}: {ty} = {t}\nmostra {n}\n", show(v) + "\n"

    def st_like(self):
        out, src = "", ""
        for _ in range(self.s.rint(3, 8)):
            if self.s.p(50):
                t = self.s.pick(NUMS)
                src += f"mostra {t}\n"
                out += show(num(t)) + "\n"
            else:
                a, v = self.lit(self.s.pick(LIKE[:22]))
                src += f"mostra {a}\n"
                out += v + "\n"
        return src, out

    def st_eco(self):
        a, v = self.lit()
        b, w = self.lit()
        return f"mostra eco({a}) == eco({b})\n", f"{v}\n{w}\n{show(v == w)}\n"

    def st_eq(self):
        a, v = self.lit()
        b, w = self.lit(v if self.s.p(60) else None)
        op = self.s.pick(["==", "!="])
        return f"mostra {a} {op} {b}\n", show((v == w) == (op == "==")) + "\n"

    def st_list(self):
        xs = [self.lit() for _ in range(self.s.rint(1, 4))]
        n = self.fresh()
        i = self.s.n(len(xs))
        return (f"{n}: [texto] = [texto: {', '.join(a for a, _ in xs)}]\nmostra {n}[{i}]\nmostra {n}\n",
                xs[i][1] + "\n" + show([v for _, v in xs]) + "\n")

    def st_rec(self):
        a, v = self.lit()
        b, w = self.lit()
        return (f"mostra Par(nome: {a}, conta: 3).nome\nmostra Par(conta: 4, nome: {a}).diz({b})\n",
                f"{v}\n{w}{v}4\n")

    def st_union(self):
        a, v = self.lit()
        b, w = self.lit()
        return (f"iguala Caso::B({a}, 2)\n    Caso::B(t, 1) => faca\n        mostra 'nao'\n    fim\n    Caso::B(t, k) => faca\n        mostra t\n        mostra k\n    fim\n"
                f"    _ => faca\n        mostra {b}\n    fim\nfim\n", v + "\n2\n")

    def st_match(self):
        s = self.s
        ps = []
        for _ in range(s.rint(1, 5)):
            v = s.pick(LIKE) if s.p(60) else self.text()
            v = fix(v)
            if v not in [p[1] for p in ps]:
                ps.append((spell(s, v), v))
        v = s.pick(ps)[1] if s.p(75) else self.text()
        a, v = self.lit(v)
        got = next((i for i, p in enumerate(ps) if p[1] == v), "_")
        if s.p(40):
            src = f"escolha {a}:\n" + "".join(f"    caso {p[0]}:\n        mostra '{i}'\n" for i, p in enumerate(ps)) + "    senao:\n        mostra '_'\nfim\n"
        else:
            src = f"mostra iguala {a}\n" + "".join(f"    {p[0]} => '{i}'\n" for i, p in enumerate(ps)) + "    _ => '_'\nfim\n"
        return src, f"{got}\n"

    def st_tam(self):
        v = fix("".join(self.s.pick(["a", "é", "e\u0301", "日", "\U0001f600", "\U0001f468\u200d\U0001f469\u200d\U0001f467", "'", '"', "\n", "{", "5"]) for _ in range(self.s.rint(1, 8))))
        a, v = self.lit(v)
        g = graphemes(v)
        i = self.s.n(len(g))
        return f"mostra tam({a})\nmostra {a}[{i}]\n", f"{len(g)}\n{g[i]}\n"

    def st_in(self):
        a, v = self.lit()
        w = v[self.s.n(len(v) + 1):][:self.s.rint(0, 3)] if self.s.p(60) else self.text()
        b, w = self.lit(fix(w))
        return f"mostra txt_contem({a}, {b})\n", show(w in v) + "\n"

    def st_cast(self):
        k = self.s.pick(["5", "-5", "007", "0"])
        r = self.s.pick(["5", "5.0", "-0.5", "0.25"])
        return (f"mostra {spell(self.s, k)} :> int + 1\nmostra {spell(self.s, r)} :> real * 2\nmostra 5 :> texto == {spell(self.s, '5')}\n",
                f"{int(k) + 1}\n{show(float(r) * 2)}\nverdadeiro\n")

    def st_fstr(self):
        a, v, w = self.fstr()
        k = self.s.n(5)
        if k == 0:
            n = self.fresh()
            self.vars[n] = v
            return f"{n}: texto = {a}\nmostra {n}\n", f"{w}{v}\n"
        if k == 1:
            return f"mostra eco({a})\n", f"{w}{v}\n{v}\n"
        if k == 2:
            b = spell(self.s, v) if can(v) else None
            if b:
                return f"mostra {a} == {b}\n", f"{w}verdadeiro\n"
        if k == 3 and can(v):
            return f"mostra iguala {a}\n    {spell(self.s, v)} => 'sim'\n    _ => 'nao'\nfim\n", f"{w}sim\n"
        return f"mostra {a}\n", f"{w}{v}\n"

    def statement(self):
        k = self.s.weighted([(9, "fstr"), (2, "show"), (1, "write"), (3, "var"), (2, "num"), (2, "like"), (2, "eco"), (2, "eq"), (2, "list"),
                             (2, "rec"), (1, "union"), (3, "match"), (2, "tam"), (1, "in"), (1, "cast")])
        self.s.label(k)
        return getattr(self, "st_" + k)()


class C09(Property):
    id = "C09"
    quick = 3500
    thorough = 250000
    technique = ("property-based testing: texts of every kind of character printed as literals and f-strings in random "
                 "spellings and used everywhere a text can be, against the characters they were made from")
    level_note = "Texts of up to 300 pieces, f-strings of up to 6 parts, programs of up to 14 uses over one or two modules."
    assumptions = ("Carriage returns are not written (reading the source turns them into line breaks), nor a backslash before n or at "
                   "the end (the language has no spelling for it).",
                   "Expressions inside an f-string contain no '}' and no f-string (rejected by design).")
    rule = ("A case is a program of literals and f-strings made from known texts: quotes, escapes, raw line breaks, braces, control and "
            "combining characters, texts equal to numbers, names and keywords of the program; used as values, arguments, elements, "
            "fields, patterns and operands, in the program, in functions and in a module. Its output has to be exactly what the texts "
            "say, with embedded expressions evaluated once, in order. Non-trivial: 20 characters of output or more.")

    def gen(self, s, tier):
        m = Maker(s)
        parts = [m.statement() for _ in range(s.rint(2, 14))]
        files = {}
        if s.p(20):
            # a module with texts of its own, shown when it is imported and when it is called
            o = Maker(s)
            ps = [o.statement() for _ in range(s.rint(1, 5))]
            a, v = o.lit()
            files["m.ama"] = HEAD + "".join(p[0] for p in ps) + f"func doModulo(): texto\n    retorna {a}\nfim\n"
            parts = [('usa "m" => zz\n' + HEAD, "".join(p[1] for p in ps))] + parts + [("mostra zz.doModulo()\n", v + "\n")]
            s.label("module")
        else:
            parts = [(HEAD, "")] + parts
        if s.p(25):
            # the same inside a function
            i = s.rint(1, len(parts) - 1)
            body = parts[i:]
            # a raw line break belongs to its literal, so nothing is indented
            if not any(n in p[0] for p in body for n in ("zz.",)):
                names = {n: v for n, v in m.vars.items()}
                before = "".join(p[0] for p in parts[:i])
                if not any(f"{n}: " in before for n in names):
                    parts = parts[:i] + [("func corpo()\n" + "".join(p[0] for p in body) + "fim\ncorpo()\n", "".join(p[1] for p in body))]
                    s.label("in-function")
        files["prog.ama"] = "".join(p[0] for p in parts)
        return {"files": files, "expect": {"out": "".join(p[1] for p in parts), "error": None}}

    def check(self, case, env):
        r = env.w.run(case["files"], "prog.ama", timeout=15)
        w = compare(r, case["expect"])
        return w and w + "\n" + "\n".join(f"--- {n}\n{t[len(HEAD):] if t.startswith(HEAD) else t}" for n, t in case["files"].items())

    def nontrivial(self, case):
        return str(case["files"]) if len(case["expect"]["out"]) >= 20 else None

    def sample(self, case):
        return {"program": case["files"]["prog.ama"].replace(HEAD, "")[:1500], "expected_output": case["expect"]["out"][:600]}


PROP = C09()
