"""Random syntax trees, and their text in random layouts."""
from .lexref import WORDS, goes_on

BIN = ["==", "!=", ">", ">=", "<", "<=", "+", "-", "ou", "*", "//", "/", "%", "e"]
PREC = {**{o: 1 for o in ("==", "!=")}, **{o: 2 for o in (">", ">=", "<", "<=")},
        **{o: 3 for o in ("+", "-", "ou")}, **{o: 4 for o in ("*", "//", "/", "%", "e")}}
UNARY, POST, CAST = 5, 7, 6
IDS = ["a", "b", "x", "y1", "soma", "_", "_z", "é", "ação", "int", "texto", "real", "fimx", "e1", "ouro", "f", "Ponto",
       "senao_", "Opcao", "vec", "valor", "incr", "alvo2", "日", "E", "Fim"]
TEXTS = ["", "a", "olá {b}", "x\ny", "it's", 'say "x"', "# no", "fim", ";", "\\d", "é日\U0001f600", "{", "}", "a\tb", " 1 "]


class TreeGen:
    def __init__(self, s, depth=4):
        self.s = s
        self.depth = depth
        self.left = s.pick([30, 80, 200])

    def name(self):
        return self.s.pick(IDS)

    # ---- expressions
    def expr(self, d=0, plain=False):
        """plain: it is inside an f-string"""
        s = self.s
        self.left -= 1
        if d >= self.depth or self.left < 0 or s.p(20):
            return self.leaf(plain)
        k = s.weighted([(9, "bin"), (3, "un"), (3, "call"), (3, "get"), (3, "idx"), (3, "cast"), (2, "list"),
                        (0 if plain else 2, "fstr"), (0 if plain else 1, "iguala"), (1, "leaf")])
        e = lambda: self.expr(d + 1, plain)
        if k == "bin":
            return ["bin", s.pick(BIN), e(), e()]
        if k == "un":
            return ["un", s.pick("-+") if s.p(60) else "nao", e()]
        if k == "call":
            args = [["named", self.name(), e()] if s.p(25) else e() for _ in range(s.weighted([(2, 0), (3, 1), (3, 2), (1, 4)]))]
            return ["call", e(), args]
        if k == "get":
            return ["get", e(), self.name()]
        if k == "idx":
            return ["idx", e(), e()]
        if k == "cast":
            return ["cast", e(), self.type()]
        if k == "list":
            return ["list", self.type(), [e() for _ in range(s.weighted([(2, 0), (3, 1), (3, 2), (1, 4)]))]]
        if k == "fstr":
            return self.fstr(d)
        if k == "iguala":
            return self.iguala(d + 1)
        return self.leaf(plain)

    def leaf(self, plain=False):
        s = self.s
        k = s.weighted([(6, "var"), (3, "int"), (2, "real"), (3, "text"), (1, "true"), (1, "false"), (1, "nulo"),
                        (1, "alvo"), (2, "path")])
        if k == "var":
            return ["var", self.name()]
        if k == "int":
            return ["int", s.pick([0, 1, 2, 42, 2**63 - 1, 2**64, s.n(1000)])]
        if k == "real":
            return ["real", s.pick([0.0, 0.5, 1.25, 3.0, 1e15, 123456.789])]
        if k == "text":
            return ["text", s.pick(["a", "", "b c", "# x", "fim"] if plain else TEXTS)]
        if k == "path":
            return ["path", [self.name() for _ in range(s.weighted([(5, 2), (1, 3)]))]]
        return [k]

    def fstr(self, d):
        s = self.s
        parts = []
        for _ in range(s.rint(1, 3)):
            t = s.pick(TEXTS)
            if t and s.p(60) and not (parts and parts[-1][0] == "text"):
                parts.append(["text", t])
            parts.append(self.expr(max(d + 1, self.depth - 2), True))
            if parts[-1][0] == "text":
                parts[-1] = ["var", "x"]
        if s.p(50):
            parts.append(["text", s.pick([t for t in TEXTS if t])])
        return ["fstr", parts]

    def iguala(self, d):
        arms = []
        for _ in range(self.s.rint(1, 3)):
            body = self.block(d + 1) if self.s.p(30) else [["produz", self.expr(d + 1)]]
            arms.append([self.pattern(), body])
        return ["iguala", self.expr(d + 1), arms]

    def pattern(self, d=0):
        s = self.s
        k = s.weighted([(3, "var"), (2, "int"), (2, "text"), (3 if d < 2 else 0, "adt")])
        if k == "int":
            return ["int", s.pick([0, 1, 77])]
        if k == "text":
            return ["text", s.pick(TEXTS)]
        if k == "var":
            return ["var", self.name()]
        args = [self.pattern(d + 1) for _ in range(s.weighted([(2, 0), (3, 1), (2, 2), (1, 3)]))]
        head = ["path", [self.name(), self.name()]] if not args or s.p(80) else ["var", self.name()]
        return ["adt", head, args]

    def type(self, d=0):
        s = self.s
        maybe = s.p(25)
        if d < 3 and s.p(20):
            return ["arr", self.type(d + 1), maybe]
        args = [self.type(d + 1) for _ in range(s.rint(1, 2))] if d < 2 and s.p(15) else None
        return ["t", [self.name() for _ in range(s.weighted([(5, 1), (1, 2), (1, 3)]))], maybe, args]

    # ---- statements
    def block(self, d=0):
        if d >= self.depth or self.left < 0:
            return [self.simple(d)] if self.s.p(70) else []
        return [x for _ in range(self.s.weighted([(1, 0), (4, 1), (3, 2), (1, 4)])) for x in self.stmts(d)]

    def target(self, d):
        k = self.s.n(4)
        if k == 0:
            return ["get", self.expr(d + 2), self.name()]
        if k == 1:
            return ["idx", self.expr(d + 2), self.expr(d + 2)]
        return ["var", self.name()]

    def simple(self, d):
        return self.stmts(d, False)[0]

    def stmts(self, d, nested=True):
        """A list, as some texts stand for more than one statement"""
        s = self.s
        self.left -= 1
        if d >= self.depth or self.left < 0:
            nested = False
        k = s.weighted([(4, "mostra"), (2, "retorna"), (1, "produz"), (1, "ctl"), (4, "expr"), (4, "decl"),
                        (1 if nested else 0, "decls"), (4, "assign"), (2, "compound")] + ([
                            (4, "se"), (2, "seiguala"), (2, "enquanto"), (2, "para"), (2, "escolha"), (2, "iguala"),
                            (2, "func"), (1, "met"), (1, "registo"), (1, "uniao")] if nested else []))
        e = lambda: self.expr(d + 1)
        b = lambda: self.block(d + 1)
        if k == "mostra" or k == "produz":
            return [[k, e()]]
        if k == "retorna":
            return [[k, e() if s.p(70) else None]]
        if k == "ctl":
            return [[k, s.pick(["quebra", "continua"])]]
        if k == "expr":
            return [e()]
        if k == "decl":
            return [["decl", self.name(), self.type(), e() if s.p(60) else None]]
        if k == "decls":
            t = self.type()
            ds = [["decl", self.name(), t, None] for _ in range(s.rint(2, 4))]
            ds[0].append("first")
            for x in ds[1:]:
                x.append("next")
            return ds
        if k == "assign":
            r = e()
            for _ in range(s.weighted([(4, 1), (1, 2), (1, 3)])):
                r = ["assign", self.target(d), r]
            return [r]
        if k == "compound":
            t = self.target(d)
            return [["assign", t, ["bin", s.pick("+-*/"), t, e()], "short"]]
        if k == "se":
            return [["se", e(), b(), [[e(), b()] for _ in range(s.weighted([(4, 0), (2, 1), (1, 3)]))],
                     b() if s.p(50) else None]]
        if k == "seiguala":
            return [["iguala", e(), [[self.pattern(), b()], [["var", "_"], b() if s.p(50) else []]], "se"]]
        if k == "enquanto":
            return [["enquanto", e(), b()]]
        if k == "para":
            return [["para", self.name(), e(), e(), e() if s.p(40) else None, b()]]
        if k == "escolha":
            return [["escolha", e(), [[e(), b()] for _ in range(s.rint(0, 3))], b() if s.p(50) else None]]
        if k == "iguala":
            return [self.iguala(d + 1)]
        params = [[self.name(), self.type()] for _ in range(s.weighted([(2, 0), (3, 1), (2, 2), (1, 4)]))]
        ann = [self.annotation() for _ in range(s.rint(1, 2))] if s.p(20) else []
        gens = [self.name() for _ in range(s.rint(1, 2))] if s.p(25) else []
        ret = self.type() if s.p(50) else None
        if k == "func":
            nat = s.p(15)
            return [["func", [] if nat else ann, nat, self.name(), params, ret, None if nat else b()]]
        if k == "met":
            # '[' after 'met' begins the generic parameters
            on = self.type() if gens else ["t", [self.name()], s.p(20), None]
            return [["met", ann, gens, on, self.name(), params, ret, b()]]
        if k == "registo":
            fields = []
            for _ in range(s.n(4)):
                if s.p(25):
                    t = self.type()
                    names = [["decl", self.name(), t, None, "next"] for _ in range(s.rint(2, 3))]
                    names[0][-1] = "first"
                    fields += names
                else:
                    fields.append(["decl", self.name(), self.type(), self.expr(d + 2) if s.p(5) else None])
            return [["registo", ann, gens, self.name(), fields]]
        return [["uniao", ann, gens, self.name(),
                 [[self.name(), [self.type() for _ in range(s.weighted([(3, 0), (3, 1), (3, 2), (1, 4)]))]]
                  for _ in range(s.rint(0, 4))]]]

    def annotation(self):
        s = self.s
        return [self.name(), {self.name(): s.pick(TEXTS) for _ in range(s.n(3))}]

    def module(self):
        s = self.s
        uses = [["usa", s.pick(["m", "a/b", "x y"]), *s.pick([("Global", None, []), ("Scoped", self.name(), []),
                                                              ("Item", None, [self.name() for _ in range(s.rint(1, 3))])])]
                for _ in range(s.n(3))] if s.p(30) else []
        n = s.rint(1, 6)
        body = [x for _ in range(n) for x in self.stmts(0)]
        if body[-1] == ["retorna", None]:
            # not before the end of the file
            body.append(["ctl", "quebra"])
        return ["module", [self.annotation() for _ in range(s.rint(1, 2))] if s.p(10) else [], uses + body]


def strip(x):
    """Without the notes on how to print."""
    if not isinstance(x, list):
        return x
    if x and x[0] == "decl":
        x = x[:4]
    elif x and x[0] in ("assign", "iguala"):
        x = x[:3]
    return [strip(y) for y in x]


class Writer:
    """s None: fully parenthesised, one statement per line."""

    def __init__(self, s):
        self.s = s
        self.out = []
        # how much freedom this text takes
        self.parens = s.pick([0, 0, 15, 60]) if s else 0
        self.breaks = s.pick([0, 10, 50]) if s else 0
        self.tight = s.pick([0, 50, 100]) if s else 0
        self.notes = s.pick([0, 0, 15]) if s else 0
        self.same = s.pick([0, 0, 40, 80]) if s else 0
        self.level = 0
        self.style = s.pick(["", " ", "\t", "    "]) if s else " "

    def p(self, n):
        return bool(self.s) and n > 0 and self.s.p(n)

    def put(self, *ts):
        for t in ts:
            if t:
                last = self.out[-1] if self.out else ""
                if last and not last[-1].isspace() and not t[0].isspace():
                    if glued(last, t) or not self.p(self.tight):
                        self.out.append(self.s.pick([" ", " ", "  ", "\t", "\u00a0"]) if self.p(10) else " ")
                self.out.append(t)

    def soft(self):
        """A place where a line break is allowed."""
        if self.p(self.breaks):
            self.line()

    def line(self):
        for _ in range(self.s.weighted([(5, 1), (1, 2)]) if self.s else 1):
            if self.p(self.notes):
                self.out.append(self.s.pick([" # fim", "# se ' x \"", " #", "\t# mostra {"]))
            self.out.append("\n")
        if self.s and self.p(5):
            self.out.append("  # outra linha\n")
        self.out.append((self.s.pick(["", "  ", "\t "]) if self.p(10) else self.style) * self.level)

    # ---- expressions
    def expr(self, x, prec=0, first=False):
        """first: a statement or condition starts here"""
        k = x[0]
        own = PREC[x[1]] if k == "bin" else {"un": UNARY, "cast": CAST}.get(k, POST)
        need = own < prec or (first and k == "iguala")
        if not self.s and k in ("bin", "un", "cast", "call", "get", "idx"):
            need = True
        if need or self.p(self.parens):
            n = 1
            while self.p(20):
                n += 1
            for _ in range(n):
                self.put("(")
            self.bare(x)
            for _ in range(n):
                self.put(")")
        else:
            self.bare(x, first)

    def bare(self, x, first=False):
        k = x[0]
        if k == "bin":
            p = PREC[x[1]]
            self.expr(x[2], p, first)
            self.put(x[1])
            self.expr(x[3], p + 1)
        elif k == "un":
            self.put(x[1])
            self.expr(x[2], UNARY)
        elif k == "cast":
            self.expr(x[1], POST, first)
            self.put(":>")
            self.type(x[2])
        elif k == "call":
            self.expr(x[1], POST, first)
            self.put("(")
            self.soft()
            for i, a in enumerate(x[2]):
                if i:
                    self.soft()
                    self.put(",")
                    self.soft()
                if a[0] == "named":
                    self.put(a[1], ":")
                    self.expr(a[2])
                else:
                    self.expr(a)
            self.soft()
            self.put(")")
        elif k == "get":
            self.expr(x[1], POST, first)
            self.put(".", x[2])
        elif k == "idx":
            self.expr(x[1], POST, first)
            self.put("[")
            self.expr(x[2])
            self.put("]")
        elif k == "list":
            self.put("[")
            self.soft()
            self.type(x[1])
            self.put(":")
            if x[2]:
                self.soft()
            for i, a in enumerate(x[2]):
                if i:
                    self.soft()
                    self.put(",")
                    self.soft()
                self.expr(a)
            if x[2]:
                self.soft()
            self.put("]")
        elif k == "fstr":
            self.put(self.fstr(x[1]))
        elif k == "iguala":
            self.iguala(x)
        elif k == "int":
            self.put(("0" * self.s.n(3) if self.p(10) else "") + str(x[1]))
        elif k == "real":
            self.put(repr(x[1]) if "e" not in repr(x[1]) else "%.1f" % x[1])
        elif k == "text":
            self.put(self.text(x[1]))
        elif k == "path":
            for i, c in enumerate(x[1]):
                if i:
                    self.put("::")
                self.put(c)
        else:
            self.put({"var": lambda: x[1], "true": lambda: "verdadeiro", "false": lambda: "falso"}.get(k, lambda: k)())

    def text(self, v, braces=False, quote=None):
        q = quote or ("'" if not self.s else self.s.pick("'\""))
        t = ""
        for c in v:
            if c == q:
                c = "\\" + c
            elif c == "\n" and (not self.s or self.s.p(50)):
                c = "\\n"
            elif c == "{" and braces:
                c = "{{"
            t += c
        return t if quote else q + t + q

    def fstr(self, parts):
        q = "'" if not self.s else self.s.pick("'\"")
        t = ""
        for p in parts:
            if p[0] == "text":
                t += self.text(p[1], True, q)
            else:
                w = Writer(None)
                w.s, w.quote = None, None
                w.text = lambda v, o='"' if q == "'" else "'": o + v + o
                if self.s:
                    w.s = self.s
                    w.parens, w.tight = self.parens, self.tight
                w.expr(p)
                t += "{" + (" " if self.p(20) else "") + "".join(w.out).strip() + (" " if self.p(20) else "") + "}"
        return "f" + q + t + q

    def pattern(self, x):
        if x[0] != "adt":
            return self.bare(x)
        self.bare(x[1])
        if x[2]:
            self.put("(")
            self.soft()
            for i, a in enumerate(x[2]):
                if i:
                    self.put(",")
                    self.soft()
                self.pattern(a)
                self.soft()
            self.put(")")

    def type(self, x):
        if x[0] == "arr":
            self.put("[")
            self.type(x[1])
            self.put("]")
        else:
            for i, c in enumerate(x[1]):
                if i:
                    self.put(".")
                self.put(c)
            if x[3] is not None:
                self.put("[")
                for i, a in enumerate(x[3]):
                    if i:
                        self.put(",")
                    self.type(a)
                self.put("]")
        if x[2]:
            self.put("?")

    # ---- statements
    def block(self, stmts, header=True):
        """header: what comes before ends in a word, so that a line break is not needed."""
        self.level += 1
        if not (header and self.p(self.same)):
            self.line()
        self.stmts(stmts)
        self.level -= 1

    def stmts(self, stmts):
        """Leaves a line break or a ';' after the last statement."""
        i = 0
        while i < len(stmts):
            x = stmts[i]
            if x[0] == "decl" and x[-1] == "first":
                self.put(x[1])
                while i + 1 < len(stmts) and stmts[i + 1][0] == "decl" and stmts[i + 1][-1] == "next":
                    i += 1
                    self.put(",", stmts[i][1])
                self.put(":")
                self.type(x[2])
                ends = True
            else:
                ends = self.stmt(x)
            if ends == "line":
                self.line()
            elif ends:
                if self.p(self.same):
                    self.put(";")
                    if self.p(30):
                        self.line()
                else:
                    self.line()
            elif not self.p(self.same):
                self.line()
            i += 1

    def fim(self):
        self.put("fim")
        return False

    def stmt(self, x):
        """-> whether the statement has to be ended ('line': by a line break)"""
        k = x[0]
        if k in ("mostra", "produz"):
            self.put(k)
            self.expr(x[1])
            return True
        if k == "retorna":
            self.put(k)
            if x[1] is not None:
                self.expr(x[1])
            return True
        if k == "ctl":
            self.put(x[1])
            return True
        if k == "decl":
            self.put(x[1], ":")
            self.type(x[2])
            if x[3] is not None:
                self.put("=")
                self.expr(x[3])
            return True
        if k == "assign":
            self.expr(x[1], POST, True)
            if x[-1] == "short":
                self.put(x[2][1] + "=")
                self.expr(x[2][3])
                return True
            self.put("=")
            if x[2][0] == "assign":
                self.stmt(x[2])
            else:
                self.expr(x[2])
            return True
        if k == "se":
            self.put("se")
            self.expr(x[1], 0, True)
            self.put("entao")
            self.block(x[2])
            for c, b in x[3]:
                self.put("senaose")
                self.expr(c)
                self.put("entao")
                self.block(b)
            if x[4] is not None:
                self.put("senao")
                self.block(x[4])
            return self.fim()
        if k == "iguala":
            if x[-1] == "se":
                self.put("se", "iguala")
                self.expr(x[1])
                self.put("=>")
                self.pattern(x[2][0][0])
                self.put("entao")
                self.block(x[2][0][1])
                if x[2][1][1] or self.p(50):
                    self.put("senao")
                    self.block(x[2][1][1])
                return self.fim()
            self.iguala(x)
            return False
        if k == "enquanto":
            self.put(k)
            self.expr(x[1])
            self.put("faca")
            self.block(x[2])
            return self.fim()
        if k == "para":
            self.put(k, x[1], "de")
            self.expr(x[2])
            self.put("..")
            self.expr(x[3])
            if x[4] is not None:
                self.put("inc")
                self.expr(x[4])
            self.put("faca")
            self.block(x[5])
            return self.fim()
        if k == "escolha":
            self.put(k)
            self.expr(x[1])
            self.put(":")
            self.soft() if self.s else self.line()
            for c, b in x[2]:
                self.put("caso")
                self.expr(c)
                self.put(":")
                self.block(b)
            if x[3] is not None:
                self.put("senao", ":")
                self.block(x[3])
            return self.fim()
        if k in ("func", "met", "registo", "uniao"):
            self.annotations("@", x[1])
            if x[1]:
                self.soft()
            self.put(k)
            return getattr(self, k)(x)
        if k == "usa":
            self.put("usa", self.text(x[1]))
            if x[2] == "Scoped":
                self.put("=>", x[3])
            elif x[2] == "Item":
                self.put("=>", "[")
                for i, n in enumerate(x[4]):
                    if i:
                        self.put(",")
                    self.put(n)
                self.put("]")
            return "line" if x[2] != "Global" else True
        self.expr(x, 0, True)
        return True

    def iguala(self, x):
        self.put("iguala")
        self.expr(x[1])
        self.level += 1
        if not self.p(self.same):
            self.line()
        for i, (pat, body) in enumerate(x[2]):
            if i:
                k = self.s.n(4) if self.s else 0
                if k == 0:
                    self.put(",")
                    self.line()
                elif k == 1:
                    self.line()
                elif k == 2:
                    self.put(",")
                else:
                    self.soft()
            self.pattern(pat)
            self.put("=>")
            self.soft()
            if len(body) == 1 and body[0][0] == "produz" and not self.p(20):
                self.expr(body[0][1])
            else:
                self.put("faca")
                self.block(body)
                self.put("fim")
        self.level -= 1
        if self.s:
            self.soft()
        else:
            self.line()
        self.put("fim")

    def params(self, ps, before=False):
        for i, (n, t) in enumerate(ps):
            if i or before:
                self.put(",")
            self.soft()
            self.put(n, ":")
            self.type(t)
        self.soft()

    def func(self, x):
        if x[2]:
            self.put("nativa")
        self.put(x[3], "(")
        self.params(x[4])
        self.put(")")
        if x[5] is not None:
            self.put(":")
            self.type(x[5])
        elif self.p(20):
            self.put(":", "vazio")
        if x[2]:
            return True
        self.block(x[6], False)
        return self.fim()

    def generics(self, gs):
        if gs:
            self.put("[")
            for i, g in enumerate(gs):
                if i:
                    self.put(",")
                self.put(g)
            self.put("]")

    def met(self, x):
        self.generics(x[2])
        self.type(x[3])
        self.put("::", x[4], "(", "alvo")
        if x[5]:
            self.params(x[5], True)
        self.put(")")
        if x[6] is not None:
            self.put(":")
            self.type(x[6])
        self.block(x[7], False)
        return self.fim()

    def registo(self, x):
        self.put(x[3])
        self.generics(x[2])
        self.level += 1
        if not self.p(self.same):
            self.line()
        self.stmts(x[4])
        self.level -= 1
        return self.fim()

    def uniao(self, x):
        self.put(x[3])
        self.generics(x[2])
        self.level += 1
        if not self.p(self.same):
            self.line()
        for i, (n, ts) in enumerate(x[4]):
            if i:
                self.soft()
                self.put(",")
                self.soft()
            self.put(n)
            if ts:
                self.put("(")
                for j, t in enumerate(ts):
                    if j:
                        self.soft()
                        self.put(",")
                    self.soft()
                    self.type(t)
                self.soft()
                self.put(")")
        self.soft() if self.s else self.line()
        self.level -= 1
        return self.fim()

    def annotations(self, at, xs):
        for j, (n, attrs) in enumerate(xs):
            if j:
                self.soft()
            self.put(at, n)
            if attrs:
                self.put("(")
                for i, (a, v) in enumerate(attrs.items()):
                    if i:
                        self.put(",")
                    self.put(a, "=", self.text(v))
                self.put(")")

    def module(self, x):
        if self.p(20):
            self.line()
        self.annotations("@@", x[1])
        if x[1] and not (x[2] and x[2][0][0] == "usa" and self.p(50)):
            self.line()
        self.stmts(x[2])
        return "".join(self.out)


def glued(a, b):
    x, y = a[-1], b[0]
    if a[0].isdecimal() and x.isdecimal():
        return y.isdecimal() or goes_on(y) or y == "."
    if goes_on(x):
        return goes_on(y) or (a == "f" and y in "'\"")
    return (x + y) in (":>", "::", "=>", "==", "<=", ">=", "!=", "//", "..", "@@", "+=", "-=", "*=", "/=") or a + y in (":>", "==")


def write(tree, s):
    return Writer(s).module(tree)
