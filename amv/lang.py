"""Syntax trees of the generated programs, and their printer."""


class Sym:
    """A declared name.  Trees refer to the object; the name is only used when
    printing."""

    def __init__(self, name, ty=None, kind="var", **kw):
        self.name = name
        self.ty = ty
        self.kind = kind  # var func met rec uni variant
        self.mod = None
        self.__dict__.update(kw)

    def __repr__(self):
        return f"<{self.kind} {self.name}>"


class N:
    """A tree node: k is its kind."""

    def __init__(self, k, **kw):
        self.k = k
        self.line = 0
        self.__dict__.update(kw)


PRIMS = ("int", "real", "bool", "texto", "indef")


def is_vec(t):
    return isinstance(t, tuple) and t[0] == "vec"


def is_opt(t):
    return isinstance(t, tuple) and t[0] == "opt"


def is_rec(t):
    return isinstance(t, tuple) and t[0] == "rec"


def is_uni(t):
    return isinstance(t, tuple) and t[0] == "uni"


def vec(t):
    return ("vec", t)


def opt(t):
    return ("opt", t)


KEYWORDS = (
    "verdadeiro falso nulo se senao senaose entao enquanto para faca fim func "
    "retorna mostra e ou nao escolha caso quebra continua registo met alvo usa "
    "uniao iguala produz nativa de inc").split()

LEVEL = {"==": 1, "!=": 1, ">": 2, "<": 2, ">=": 2, "<=": 2,
         "+": 3, "-": 3, "ou": 3, "*": 4, "/": 4, "//": 4, "%": 4, "e": 4}
UNARY, CAST, POST, PRIM = 5, 6, 7, 8


class Printer:
    """Prints trees as source, and records the line of every statement in its
    node.  `style` is a Src (or None) that decides redundant layout."""

    def __init__(self, style=None, refname=None, indent=2):
        self.out = []
        self.line = 1
        self.style = style
        self.refname = refname or (lambda s: s.name)
        self.ind = 0
        self.step = indent
        self.fresh = True

    # --- output
    def w(self, s):
        if self.fresh and s:
            self.out.append(" " * self.ind)
            self.fresh = False
        self.out.append(s)
        self.line += s.count("\n")

    def nl(self):
        self.out.append("\n")
        self.line += 1
        self.fresh = True

    def text(self):
        return "".join(self.out)

    # --- types
    def ty(self, t):
        if isinstance(t, str):
            return t
        if t[0] == "vec":
            return "[" + self.ty(t[1]) + "]"
        if t[0] == "opt":
            return self.ty(t[1]) + "?"
        return self.refname(t[1])

    # --- expressions
    def e(self, x, lvl=1):
        self.w(self.es(x, lvl))

    def level(self, x):
        k = x.k
        if k == "prom":
            return self.level(x.e)
        if k == "bin":
            return LEVEL[x.op]
        if k == "un":
            return UNARY
        if k == "cast":
            return CAST
        if k in ("call", "field", "idx", "meth", "bi", "rec", "variant", "valor", "valor_ou", "vecn"):
            return POST
        return PRIM

    def paren(self):
        return self.style is not None and self.style.p(self.paren_chance)

    paren_chance = 8

    def es(self, x, lvl=1):
        while x.k == "prom":
            x = x.e
        s = self.es0(x)
        if self.level(x) < lvl or x.k == "iguala" and lvl > 1:
            return "(" + s + ")"
        if self.style is not None and x.k not in ("prom",) and self.style.p(self.paren_chance):
            return "(" + s + ")"
        return s

    def post(self, x):
        # 5.m would not lex as the access of a member
        s = self.es(x, POST)
        if x.k in ("int", "real") or x.k == "prom" and s[:1].isdigit():
            return "(" + s + ")"
        return s

    def args(self, args):
        return "(" + ", ".join(self.es(a) for a in args) + ")"

    def es0(self, x):
        k = x.k
        if k == "int":
            return x.t if getattr(x, "t", None) else str(x.v)
        if k == "real":
            return x.t
        if k == "bool":
            return "verdadeiro" if x.v else "falso"
        if k == "text":
            return quote(x.v, x.q)
        if k == "nulo":
            return "nulo"
        if k == "var":
            return self.refname(x.sym)
        if k == "alvo":
            return "alvo"
        if k == "prom":
            return self.es0(x.e)
        if k == "bin":
            p = LEVEL[x.op]
            sp = " "
            if self.style is not None and x.op not in ("e", "ou") and self.style.p(10):
                sp = ""
            left = x.l
            while left.k == "prom":
                left = left.e
            return self.es(left, POST if left.k == "iguala" else p) + sp + x.op + sp + self.es(x.r, p + 1)
        if k == "un":
            s = self.es(x.e, UNARY)
            if x.op == "nao":
                return "nao " + s
            return x.op + s
        if k == "cast":
            return self.es(x.e, POST) + " :> " + self.ty(x.ty)
        if k == "call":
            return self.refname(x.fn) + self.args(x.args)
        if k == "bi":
            return x.name + self.args(x.args)
        if k == "vecn":
            return "vec(" + ", ".join([self.ty(x.elem)] + [self.es(a) for a in x.args]) + ")"
        if k == "idx":
            return self.post(x.e) + "[" + self.es(x.i) + "]"
        if k == "field":
            return self.post(x.e) + "." + x.name
        if k == "valor":
            return self.post(x.e) + ".valor"
        if k == "valor_ou":
            return self.post(x.e) + ".valor_ou(" + self.es(x.d) + ")"
        if k == "meth":
            return self.post(x.e) + "." + x.fn.name + self.args(x.args)
        if k == "list":
            return "[" + self.ty(x.elem) + ": " + ", ".join(self.es(a) for a in x.args) + "]"
        if k == "rec":
            return self.refname(x.sym) + "(" + ", ".join(
                f"{n}: {self.es(v)}" for n, v in x.args) + ")"
        if k == "variant":
            s = self.refname(x.sym.owner) + "::" + x.sym.name
            return s + (self.args(x.args) if x.args else "")
        if k == "fstr":
            return self.fstr(x)
        if k == "raw":
            return x.t
        if k == "iguala":
            sub = Printer(self.style, self.refname, self.step)
            sub.ind = self.ind
            sub.line = self.line + getattr(self, "_pend", 0)
            sub.fresh = False
            sub.iguala(x)
            return sub.text()
        raise AssertionError(k)

    def fstr(self, x):
        q = x.q
        o = []
        for p in x.parts:
            if isinstance(p, str):
                o.append(esc(p, q).replace("{", "{{"))
            else:
                s = Printer(None, self.refname).es(p)
                assert "}" not in s and q not in s, s
                o.append("{" + s + "}")
        return "f" + q + "".join(o) + q

    # --- statements
    def end(self):
        self.cur.hi = self.line
        if self.style is not None and self.style.p(4):
            self.w(" ;" if self.style.p(50) else ";")
        if self.style is not None and self.style.p(4):
            self.w("  # " + self.style.pick(["nota", "fim", "'", '"', "}"]))
        self.nl()
        if self.style is not None and self.style.p(4):
            self.nl()

    def block(self, body):
        self.ind += self.step
        for s in body:
            self.stmt(s)
        self.ind -= self.step

    def iguala(self, x):
        x.line = self.line
        self.w("iguala ")
        self.e(x.e)
        x.hi = self.line
        self.nl()
        self.ind += self.step
        for a in x.arms:
            a.line = self.line
            self.w(self.pat(a.pat) + " => ")
            a.hi = self.line
            if a.k == "armx":
                self.e(a.e)
                a.hi = self.line
            else:
                self.w("faca")
                self.nl()
                self.block(a.body)
                self.w("fim")
            self.nl()
        self.ind -= self.step
        self.w("fim")

    def pat(self, p):
        if p.k == "pvar":
            return p.sym.name
        if p.k == "pint":
            return str(p.v)
        if p.k == "ptext":
            return quote(p.v, p.q)
        s = self.refname(p.sym.owner) + "::" + p.sym.name
        if p.args:
            s += "(" + ", ".join(self.pat(a) for a in p.args) + ")"
        return s

    def stmt(self, s):
        m = getattr(self, "s_" + s.k)
        s.line = s.hi = self.line
        self.cur = s
        m(s)
        s.last = self.line

    def header(self, s, i=None):
        """The header of s (or its i-th condition) was written up to here."""
        if i is None:
            s.hi = self.line
            return
        if i == 0:
            s.clines = []
        s.clines.append((self.from_, self.line))

    def s_decl(self, s):
        self.w(self.declname(s.sym) + ": " + self.ty(s.sym.ty))
        if s.e is not None:
            self.w(" = ")
            self.e(s.e)
        self.end()

    def declname(self, sym):
        return sym.name

    def s_multi(self, s):
        self.w(", ".join(self.declname(y) for y in s.syms) + ": " + self.ty(s.syms[0].ty))
        self.end()

    def s_assign(self, s):
        for t in s.targets:
            self.w(self.es(t, POST) + " = ")
        self.e(s.e)
        self.end()

    def s_compound(self, s):
        self.w(self.es(s.target, POST) + " " + s.op + "= ")
        self.e(s.e)
        self.end()

    def s_mostra(self, s):
        self.w("mostra ")
        self.e(s.e)
        self.end()

    def s_expr(self, s):
        self.e(s.e)
        self.end()

    def s_raw(self, s):
        self.w(s.t)
        self.end()

    def s_fault(self, s):
        self.w(s.t)
        self.nl()

    def s_se(self, s):
        self.from_ = self.line
        self.w("se ")
        c = s.conds[0][0]
        self.e(c, 2 if c.k == "iguala" else 1)
        self.w(" entao")
        self.header(s, 0)
        self.nl()
        self.block(s.conds[0][1])
        for i, (c, b) in enumerate(s.conds[1:]):
            self.from_ = self.line
            self.w("senaose ")
            self.e(c)
            self.w(" entao")
            self.header(s, i + 1)
            self.nl()
            self.block(b)
        if s.other is not None:
            self.w("senao")
            self.nl()
            self.block(s.other)
        self.w("fim")
        self.nl()

    def s_enquanto(self, s):
        self.w("enquanto ")
        self.e(s.cond)
        self.w(" faca")
        self.header(s)
        self.nl()
        self.block(s.body)
        self.w("fim")
        self.nl()

    def s_para(self, s):
        self.w("para " + self.declname(s.sym) + " de ")
        self.e(s.a)
        self.w("..")
        self.e(s.b)
        if s.inc is not None:
            self.w(" inc ")
            self.e(s.inc)
        self.w(" faca")
        self.header(s)
        self.nl()
        self.block(s.body)
        self.w("fim")
        self.nl()

    def s_escolha(self, s):
        self.w("escolha ")
        self.e(s.e)
        self.w(":")
        self.header(s)
        self.nl()
        self.ind += 1
        for i, (v, b) in enumerate(s.cases):
            self.from_ = self.line
            self.w("caso ")
            self.e(v)
            self.w(":")
            self.header(s, i)
            self.nl()
            self.block(b)
        if s.other is not None:
            self.w("senao:")
            self.nl()
            self.block(s.other)
        self.ind -= 1
        self.w("fim")
        self.nl()

    def s_iguala(self, s):
        self.iguala(s.x)
        self.nl()

    def s_seiguala(self, s):
        self.w("se iguala ")
        self.e(s.e)
        self.w(" => " + self.pat(s.pat) + " entao")
        self.header(s)
        self.nl()
        self.block(s.body)
        if s.other is not None:
            self.w("senao")
            self.nl()
            self.block(s.other)
        self.w("fim")
        self.nl()

    def s_retorna(self, s):
        if s.e is None:
            self.w("retorna")
        else:
            self.w("retorna ")
            self.e(s.e)
        self.end()

    def s_produz(self, s):
        self.w("produz ")
        self.e(s.e)
        self.end()

    def s_quebra(self, s):
        self.w("quebra")
        self.end()

    def s_continua(self, s):
        self.w("continua")
        self.end()

    def s_func(self, s):
        f = s.sym
        if f.kind == "met":
            self.w("met " + self.ty(f.target) + "::" + f.name + "(")
            self.w(", ".join(["alvo"] + [p.name + ": " + self.ty(p.ty) for p in f.params]))
        else:
            self.w("func " + self.declname(f) + "(")
            self.w(", ".join(p.name + ": " + self.ty(p.ty) for p in f.params))
        self.w(")")
        if f.ret is not None:
            self.w(": " + self.ty(f.ret))
        self.nl()
        self.block(f.body)
        self.w("fim")
        self.nl()

    def s_rec(self, s):
        self.w("registo " + self.declname(s.sym))
        self.nl()
        self.ind += self.step
        for n, t in s.sym.fields:
            self.w(n + ": " + self.ty(t))
            self.nl()
        self.ind -= self.step
        self.w("fim")
        self.nl()

    def s_uni(self, s):
        self.w("uniao " + self.declname(s.sym))
        self.nl()
        self.ind += self.step
        vs = s.sym.variants
        for i, v in enumerate(vs):
            self.w(v.name)
            if v.params:
                self.w("(" + ", ".join(self.ty(t) for t in v.params) + ")")
            if i + 1 < len(vs):
                self.w(",")
            self.nl()
        self.ind -= self.step
        self.w("fim")
        self.nl()


def esc(s, q):
    return s.replace(q, "\\" + q)


def quote(s, q="'"):
    """Source of a text literal.  The caller avoids a backslash before one of
    n, ' and " and at the end (those have no spelling)."""
    return q + s.replace(q, "\\" + q) + q


def walk(x):
    """All the nodes below (and including) a node, a list or a tuple."""
    if isinstance(x, N):
        yield x
        for k, v in x.__dict__.items():
            if k not in ("k", "line", "sym", "fn", "ty", "elem") and isinstance(v, (N, list, tuple)):
                yield from walk(v)
    elif isinstance(x, (list, tuple)):
        for v in x:
            if isinstance(v, (N, list, tuple)):
                yield from walk(v)
