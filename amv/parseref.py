"""A reference parser, written from the language's description. Trees are in the form of amv/tree.py."""
from .lexref import lex

BLOCK_END = ("FIM", "SENAO", "SENAOSE", "CASO", "EOF")
CONST = {"INTEGER": "int", "REAL": "real", "STRING": "text", "NULO": "nulo", "VERDADEIRO": "true", "FALSO": "false"}
SHORT = {"PLUSEQ": "+", "MINUSEQ": "-", "STAREQ": "*", "SLASHEQ": "/"}
LEVELS = [("DOUBLEEQUAL", "NOTEQUAL"), ("GREATER", "GREATEREQ", "LESS", "LESSEQ"), ("PLUS", "MINUS", "OU"),
          ("STAR", "SLASH", "DOUBLESLASH", "MODULO", "E")]


class Bad(Exception):
    """Not a program; lines is where that shows."""

    def __init__(self, first, last):
        self.lines = (first, last)


class Unsure(Exception):
    """The description does not say."""


def parse(text):
    """-> the tree, or raises Bad or Unsure"""
    return Ref(lex(text)).module()


class Ref:
    def __init__(self, toks):
        self.toks = toks
        self.i = 0
        self.paren = None

    # ---- tokens
    @property
    def kind(self):
        return self.toks[self.i][0]

    def at(self, *kinds):
        return self.kind in kinds

    def bad(self, since=None):
        raise Bad(self.toks[self.i if since is None else since][2], self.toks[self.i][2])

    def take(self, *kinds):
        if not self.at(*kinds):
            self.bad()
        t = self.toks[self.i]
        if t[0] != "EOF":
            self.i += 1
        return t[1]

    def got(self, kind):
        if self.at(kind):
            self.take(kind)
            return True
        return False

    def lines(self):
        while self.got("NEWLINE"):
            pass

    def end(self):
        self.take("NEWLINE", "SEMI", "EOF")

    def name(self):
        return self.take("IDENTIFIER")

    def commas(self, item, close, lines=True):
        """One item or more, up to the closing token"""
        if lines:
            self.lines()
        out = [item()]
        if lines:
            self.lines()
        while self.got("COMMA"):
            if lines:
                self.lines()
            out.append(item())
            if lines:
                self.lines()
        self.take(close)
        return out

    def loose(self, item):
        """Items in brackets of which the description says that commas come between them."""
        out = []
        while True:
            out.append(item())
            if self.got("COMMA"):
                if self.at("RBRACKET", "RPAR"):
                    raise Unsure
                continue
            if self.at("RBRACKET", "RPAR"):
                return out
            if self.at("IDENTIFIER", "LBRACKET"):
                raise Unsure
            self.bad()

    # ---- declarations
    def module(self):
        self.lines()
        notes = []
        while self.got("DOUBLEAT"):
            notes.append(self.annotation())
            self.lines()
        body = []
        while self.at("USA"):
            body.append(self.usa())
            self.lines()
        while not self.at("EOF"):
            if not self.got("NEWLINE"):
                body += self.declaration()
        return ["module", notes, body]

    def annotation(self):
        n, attrs = self.name(), {}
        if self.got("LPAR"):
            def one():
                k = self.name()
                self.take("EQUAL")
                attrs[k] = self.take("STRING")
            self.loose(one)
            self.take("RPAR")
        return [n, attrs]

    def usa(self):
        self.take("USA")
        m = self.take("STRING")
        if not self.at("ARROW"):
            self.end()
            return ["usa", m, "Global", None, []]
        self.take("ARROW")
        if self.at("IDENTIFIER"):
            out = ["usa", m, "Scoped", self.name(), []]
        else:
            self.take("LBRACKET")
            out = ["usa", m, "Item", None, self.commas(self.name, "RBRACKET", False)]
        self.end()
        return out

    def declaration(self):
        notes = []
        while self.got("AT"):
            notes.append(self.annotation())
            self.lines()
        if notes and not self.at("FUNC", "MET", "REGISTO", "UNIAO"):
            self.bad()
        f = {"FUNC": self.func, "MET": self.met, "REGISTO": self.registo, "UNIAO": self.uniao}.get(self.kind)
        return [f(notes)] if f else self.statement()

    def block(self):
        out = []
        while not self.at(*BLOCK_END):
            if not self.got("NEWLINE"):
                out += self.declaration()
        return out

    def params(self):
        def one():
            n = self.name()
            self.take("COLON")
            return [n, self.type()]
        self.lines()
        return self.commas(one, "RPAR") if self.at("IDENTIFIER") else self.take("RPAR") and []

    def func(self, notes):
        self.take("FUNC")
        native = self.got("NATIVA")
        n = self.name()
        self.take("LPAR")
        ps = self.params()
        ret = None
        if self.got("COLON") and not self.got("VAZIO"):
            ret = self.type()
        if native:
            self.end()
            return ["func", [], True, n, ps, ret, None]
        b = self.block()
        self.take("FIM")
        return ["func", notes, False, n, ps, ret, b]

    def generics(self):
        if not self.got("LBRACKET"):
            return []
        out = self.loose(self.name)
        self.take("RBRACKET")
        return out

    def met(self, notes):
        self.take("MET")
        gens = self.generics()
        on = self.type()
        self.take("DOUBLECOLON")
        n = self.name()
        self.take("LPAR")
        self.take("ALVO")
        ps = []
        if self.got("COMMA"):
            self.lines()
            if self.at("RPAR"):
                raise Unsure
            ps = self.params()
        else:
            self.take("RPAR")
        ret = self.type() if self.got("COLON") else None
        b = self.block()
        self.take("FIM")
        return ["met", notes, gens, on, n, ps, ret, b]

    def registo(self, notes):
        self.take("REGISTO")
        n, gens, fields = self.name(), self.generics(), []
        while not self.at("FIM"):
            if self.got("NEWLINE"):
                continue
            fields += self.decl(self.name())
            self.end()
        self.take("FIM")
        return ["registo", notes, gens, n, fields]

    def uniao(self, notes):
        self.take("UNIAO")
        n, gens = self.name(), self.generics()
        self.lines()
        if self.at("IDENTIFIER"):
            vs = self.commas(self.variant, "FIM")
        else:
            vs = []
            self.take("FIM")
        return ["uniao", notes, gens, n, vs]

    def variant(self):
        n = self.name()
        return [n, self.commas(self.type, "RPAR") if self.got("LPAR") else []]

    def type(self):
        if self.got("LBRACKET"):
            el = self.type()
            self.take("RBRACKET")
            return ["arr", el, self.got("QMARK")]
        path, args = [self.name()], None
        while self.got("DOT"):
            path.append(self.name())
        if self.got("LBRACKET"):
            args = self.loose(self.type)
            self.take("RBRACKET")
        return ["t", path, self.got("QMARK"), args]

    def decl(self, first):
        """What follows the first name."""
        names = [first]
        while self.got("COMMA"):
            names.append(self.name())
        self.take("COLON")
        t = self.type()
        if len(names) == 1:
            return [["decl", first, t, self.expr() if self.got("EQUAL") else None]]
        return [["decl", n, t, None] for n in names]

    # ---- statements
    def statement(self):
        f = {"SE": self.se, "ENQUANTO": self.enquanto, "PARA": self.para, "ESCOLHA": self.escolha,
             "IGUALA": self.iguala}.get(self.kind)
        if f:
            return [f()]
        if self.at("MOSTRA", "PRODUZ"):
            out = [self.take(self.kind), self.expr()]
        elif self.got("RETORNA"):
            if self.at("EOF"):
                raise Unsure
            out = ["retorna", None if self.at("SEMI", "NEWLINE") else self.expr()]
        elif self.at("QUEBRA", "CONTINUA"):
            out = ["ctl", self.take(self.kind)]
        else:
            x = self.assignment()
            if x[0] == "var" and self.at("COLON", "COMMA"):
                if x is self.paren:
                    raise Unsure
                xs = self.decl(x[1])
                self.end()
                return xs
            out = x
        self.end()
        return [out]

    def target(self, x, since):
        if x is self.paren:
            raise Unsure
        if x[0] not in ("var", "get", "idx"):
            self.bad(since)

    def assignment(self, first=True):
        x = self.expr()
        if self.at("EQUAL"):
            since = self.i
            self.take("EQUAL")
            self.target(x, since)
            x = ["assign", x, self.assignment(False)]
        if first and self.at(*SHORT):
            self.target(x, self.i)
            op = SHORT[self.kind]
            self.take(self.kind)
            x = ["assign", x, ["bin", op, x, self.expr()]]
        return x

    def se(self):
        self.take("SE")
        if self.got("IGUALA"):
            x = self.expr()
            self.take("ARROW")
            p = self.pattern()
            self.take("ENTAO")
            b = self.block()
            other = self.block() if self.got("SENAO") else []
            self.take("FIM")
            return ["iguala", x, [[p, b], [["var", "_"], other]]]
        c = self.expr()
        self.take("ENTAO")
        b, more, other = self.block(), [], None
        while self.got("SENAOSE"):
            k = self.expr()
            self.take("ENTAO")
            more.append([k, self.block()])
        if self.got("SENAO"):
            other = self.block()
        self.take("FIM")
        return ["se", c, b, more, other]

    def enquanto(self):
        self.take("ENQUANTO")
        c = self.expr()
        self.take("FACA")
        b = self.block()
        self.take("FIM")
        return ["enquanto", c, b]

    def para(self):
        self.take("PARA")
        n = self.name()
        self.take("DE")
        a = self.expr()
        self.take("DDOT")
        z = self.expr()
        k = self.expr() if self.got("INC") else None
        self.take("FACA")
        b = self.block()
        self.take("FIM")
        return ["para", n, a, z, k, b]

    def escolha(self):
        self.take("ESCOLHA")
        x = self.expr()
        self.take("COLON")
        self.lines()
        cases, other = [], None
        while self.got("CASO"):
            v = self.expr()
            self.take("COLON")
            cases.append([v, self.block()])
        if self.got("SENAO"):
            self.take("COLON")
            other = self.block()
        self.take("FIM")
        return ["escolha", x, cases, other]

    def iguala(self):
        self.take("IGUALA")
        x, arms = self.expr(), []
        self.lines()
        if self.at("FIM"):
            raise Unsure
        while True:
            self.lines()
            p = self.pattern()
            self.take("ARROW")
            self.lines()
            if self.got("FACA"):
                b = self.block()
                self.take("FIM")
            else:
                b = [["produz", self.expr()]]
            arms.append([p, b])
            n = self.i
            self.lines()
            if self.got("COMMA"):
                continue
            if self.got("FIM"):
                return ["iguala", x, arms]
            if self.i == n:
                # another begins on the same line, or this is no alternative
                try:
                    self.pattern()
                except Bad as e:
                    raise Bad(self.toks[n][2], e.lines[1])
                raise Unsure

    def pattern(self):
        since = self.i
        if self.at("FORMAT_STR", "LPAR"):
            x = self.primary()
            if x[0] in ("var", "path", "int", "text"):
                raise Unsure
            self.bad(since)
        x = self.primary()
        if x[0] not in ("var", "path", "int", "text"):
            self.bad(since)
        if x[0] in ("int", "text"):
            return x
        if self.got("LPAR"):
            return ["adt", x, self.commas(self.pattern, "RPAR")]
        return x if x[0] == "var" else ["adt", x, []]

    # ---- expressions
    def expr(self, level=0):
        if level == len(LEVELS):
            return self.unary()
        x = self.expr(level + 1)
        while self.at(*LEVELS[level]):
            x = ["bin", self.take(self.kind), x, self.expr(level + 1)]
        return x

    def unary(self):
        if self.at("PLUS", "MINUS", "NAO"):
            return ["un", self.take(self.kind), self.unary()]
        x = self.primary()
        while True:
            if self.got("LPAR"):
                self.lines()
                if self.got("RPAR"):
                    x = ["call", x, []]
                else:
                    x = ["call", x, self.commas(self.arg, "RPAR")]
            elif self.got("LBRACKET"):
                x = ["idx", x, self.expr()]
                self.take("RBRACKET")
            elif self.got("DOT"):
                x = ["get", x, self.name()]
            else:
                break
        if self.got("CAST"):
            x = ["cast", x, self.type()]
        return x

    def arg(self):
        x = self.expr()
        if x[0] == "var" and self.at("COLON"):
            if x is self.paren:
                raise Unsure
            self.take("COLON")
            return ["named", x[1], self.expr()]
        return x

    def primary(self):
        k = self.kind
        if k == "IDENTIFIER":
            path = [self.name()]
            while self.got("DOUBLECOLON"):
                path.append(self.name())
            return ["path", path] if len(path) > 1 else ["var", path[0]]
        if k in CONST:
            v = self.take(k)
            return [CONST[k], v] if k in ("INTEGER", "REAL", "STRING") else [CONST[k]]
        if k == "FORMAT_STR":
            return self.fstr()
        if self.got("LPAR"):
            x = self.expr()
            self.take("RPAR")
            self.paren = x
            return x
        if self.got("ALVO"):
            return ["alvo"]
        if k == "IGUALA":
            return self.iguala()
        if self.got("LBRACKET"):
            self.lines()
            t = self.type()
            self.take("COLON")
            if self.got("RBRACKET"):
                return ["list", t, []]
            self.lines()
            if self.at("RBRACKET"):
                raise Unsure
            return ["list", t, self.commas(self.expr, "RBRACKET")]
        self.bad()

    def fstr(self):
        at = self.i
        text = self.take("FORMAT_STR")
        line = self.toks[at][2]
        parts, buf, i = [], "", 0
        some = False
        while i < len(text):
            if text[i:i + 2] == "{{":
                buf += "{"
                i += 2
            elif text[i] == "{":
                j = text.find("}", i)
                if j < 0:
                    self.bad(at)
                if buf:
                    parts.append(["text", buf])
                buf, some = "", True
                parts.append(self.inner(text[i + 1:j], at))
                i = j + 1
            else:
                buf += text[i]
                i += 1
        if not some:
            return ["text", buf]
        if buf:
            parts.append(["text", buf])
        return ["fstr", parts]

    def inner(self, text, at):
        if not text.strip() or text.strip()[:2] in ("f'", 'f"'):
            self.bad(at)
        if "\n" in text:
            raise Unsure
        ref = Ref(lex(text))
        try:
            x = ref.expr()
            ref.take("EOF")
        except Bad:
            if any(t[0] == "FORMAT_STR" for t in ref.toks):
                raise Unsure
            self.bad(at)
        if any(t[0] == "FORMAT_STR" for t in ref.toks):
            raise Unsure
        return x
