"""Type-directed generator of whole programs."""
from .lang import KEYWORDS, N, Printer, Sym, is_opt, is_rec, is_uni, is_vec, opt, vec
from .ref import Ref, StepLimit

INTS = [0, 1, 2, 3, 5, 7, 10, 100, 127, 128, 255, 256, 65535, 65536, 2 ** 31 - 1, 2 ** 31,
        2 ** 32, 2 ** 53, 2 ** 53 + 1, 2 ** 62, 2 ** 63 - 1]
REALS = ["0.0", "0.5", "1.0", "1.5", "2.0", "0.1", "3.14", "10.0", "100.25", "0.001", "2.5",
         "9007199254740993.0", "123456789.125", "0.30000000000000004", "1000000000000000000000.0",
         "9223372036854775807.0", "0.0000001", "1" + "0" * 30 + ".5"]
# the smallest ones, and ones that differ from another by the last bit
TINY = ["0." + "0" * 18 + "1", "0.0000000000000002", "0.0000000000000003", "0." + "0" * 40 + "1",
        "0." + "0" * 307 + "22250738585072014", "0." + "0" * 323 + "5", "0." + "0" * 330 + "1",
        "0.9999999999999999", "1.0000000000000002", "0.10000000000000002", "4503599627370496.5",
        "9007199254740994.0", "1" + "0" * 308 + ".0"]
TEXTS = ["", "a", "ab", "olá", "5", "5.0", "-3", "verdadeiro", "nulo", "x1", "a b", " ", "\n",
         "0", "1e3", "inf", "ação", "e\u0301", "👍🏽", "👨‍👩‍👧", "🇵🇹🇧🇷", "日本", "'", '"', "\t",
         "#", "a#b", "{", "}", "{{", "{x}", "\\", "\\x", "+7", "00012", "NaN", "-0.0", "f'a'",
         "fim", "9223372036854775808", "ß", "ﬁ", "a\u0300\u0301b", "\u200d", "."]
# texts that differ by little, and integers that share their low bits: what patterns tell apart
NEAR = ["a", "'a'", '"a"', "'a", 'a"', " a", "a ", "A", "á", "a\u0301", "", "'", '"', "''", " ", "\n", "a\n", "\na", "aa", "\\a", "a\\",
        "0", "00", "0.0", "_", "f'a'", "#a", "{a}", "1"]
PINTS = [0, 1, 255, 256, 257, 32768, 65535, 65536, 65537, 2 ** 31 - 1, 2 ** 31, 2 ** 32, 2 ** 32 + 1, 2 ** 53, 2 ** 53 + 1, 2 ** 62, 2 ** 63 - 1]
FTEXTS = [t for t in TEXTS]

NAMES = ["a", "b", "c", "x", "y", "z", "i", "n", "valor", "soma", "nome", "total", "p", "q",
         "resto", "lista", "k", "aux", "r", "t"]


def spellable(s):
    """Can s be written as a text literal (in either quote style)?"""
    if s.endswith("\\"):
        return False
    for a, b in zip(s, s[1:]):
        if a == "\\" and b in "n'\"":
            return False
    return True


BASE = {
    # expression productions
    "lit": 6, "var": 12, "bin": 10, "un": 3, "cast": 4, "call": 5, "idx": 4, "field": 4,
    "meth": 3, "tam": 2, "fstr": 3, "valor": 2, "valor_ou": 2, "igx": 2, "cmp": 6, "eq": 4,
    "logic": 5, "txt": 1, "remova": 1, "list": 4, "vecn": 2, "new": 4, "variant": 4, "prom": 3,
    "trace": 1, "big": 0,
    # statements
    "decl": 10, "assign": 8, "compound": 4, "chain": 1, "mostra": 8, "expr": 2, "se": 4,
    "enquanto": 2, "para": 3, "escolha": 2, "iguala": 2, "seiguala": 1, "anexa": 2, "remova_s": 1,
    "escreva": 1, "jump": 2, "ret": 1, "ltype": 1,
    # sizes
    "nrec": (0, 2), "nuni": (0, 2), "nfunc": (0, 3), "nmet": (0, 2), "ntop": (4, 12),
    "depth": 3, "body": (1, 4), "block": 2,
    # behaviour
    "keep_err": 25, "shadow": 15, "opts": 1, "vecs": 1, "paren": 6, "uglyname": 3,
    "layout": True, "samemet": 30, "vdepth": 2, "near": 0, "reshow": 0,
}


def mentions_type(t, which, seen=()):
    """Whether a type has one of the declared types in which as a part."""
    if not isinstance(t, tuple):
        return False
    if t[0] in ("vec", "opt"):
        return mentions_type(t[1], which, seen)
    y = t[1]
    if y in which:
        return True
    if y in seen:
        return False
    seen = (*seen, y)
    parts = [p for _, p in y.fields] if t[0] == "rec" else [p for v in y.variants for p in v.params]
    return any(mentions_type(p, which, seen) for p in parts)


class Gen:
    def __init__(self, src, **profile):
        self.s = src
        self.P = dict(BASE)
        self.P.update(profile)
        self.near = src.sub(NEAR, 4) if src.p(50) else []
        self.nearints = src.sub(PINTS, 3) if src.p(30) else []
        self.items = []
        self.scopes = [[]]
        self.fn = None          # function being generated
        self.loop = 0           # nesting of loops in the function
        self.nest = 0           # nesting of blocks
        self.gtypes = {"rec": [], "uni": []}
        self.ltypes = []        # names of the types of inner scopes so far
        self.noshadow = 0
        self.in_arm = 0
        self.funcs = []
        self.mets = []
        self.tracers = {}
        self.counter = 0
        self.used_names = set()
        self.protected = set()

    # ---------------------------------------------------------------- names
    def fresh(self, base=None):
        self.counter += 1
        return (base or self.s.pick(NAMES)) + str(self.counter)

    def varname(self):
        """A name for a new variable: sometimes one that hides another."""
        here = {y.name for y in self.scopes[-1]}
        if self.s.p(self.P["shadow"]):
            outer = sorted({y.name for sc in self.scopes[:-1] for y in sc if y.kind == "var"
                            and not getattr(y, "fuel", False)}
                           - here - self.reserved)
            if outer:
                self.s.label("shadow")
                return self.s.pick(outer)
        for _ in range(5):
            n = self.s.pick(NAMES)
            if self.s.p(self.P["uglyname"]):
                n = self.s.pick(KEYWORDS) + self.s.pick(["x", "1", "_"])
            if n not in here and n not in self.reserved and n not in self.global_kinds():
                return n
        return self.fresh()

    reserved = frozenset()

    def global_kinds(self):
        # hiding a function or a type is legal, but then it cannot be used
        return {y.name for y in self.scopes[0] if y.kind != "var"}

    def declare(self, sym):
        sym.glob = len(self.scopes) == 1
        self.scopes[-1].append(sym)
        return sym

    # types, also those of inner scopes
    recs = property(lambda self: self.types("rec"))
    unis = property(lambda self: self.types("uni"))

    def types(self, kind):
        local = [y for sc in self.scopes[1:] for y in sc if y.kind in ("rec", "uni")]
        if not local:
            return self.gtypes[kind]
        hidden = self.hidden()
        return [y for y in self.gtypes[kind] + [y for y in local if y.kind == kind]
                if not (hidden and mentions_type((kind, y), hidden))]

    def hidden(self):
        """The types that have the name of one of an inner scope."""
        local = [y for sc in self.scopes[1:] for y in sc if y.kind in ("rec", "uni")]
        if not local:
            return None
        out, last = set(), {}
        for y in self.gtypes["rec"] + self.gtypes["uni"] + local:
            if y.name in last:
                out.add(last[y.name])
            last[y.name] = y
        return out

    def visible(self, want=lambda y: True):
        seen = set()
        out = []
        hidden = self.hidden()
        if hidden:
            want = lambda y, f=want: f(y) and not mentions_type(y.ty, hidden)
        for sc in reversed(self.scopes):
            names = set()
            for y in reversed(sc):
                if y.name not in seen and y.kind == "var" and want(y):
                    out.append(y)
                names.add(y.name)
            seen |= names
        return out

    def vars_of(self, t):
        return self.visible(lambda y: y.ty == t)

    # ---------------------------------------------------------------- types
    def prim(self, indef=True):
        return self.s.weighted([(5, "int"), (3, "real"), (3, "bool"), (4, "texto")]
                               + ([(1, "indef")] if indef and self.P.get("indefs", 1) else []))

    def type(self, d=None, optional=True):
        if d is None:
            d = self.P["vdepth"] if self.s.p(25) else 2
        w = [(10, "prim")]
        if self.P["vecs"] and d > 0:
            w.append((3 * self.P["vecs"], "vec"))
        if self.recs:
            w.append((3, "rec"))
        if self.unis:
            w.append((3, "uni"))
        if self.P["opts"] and optional:
            w.append((2 * self.P["opts"], "opt"))
        k = self.s.weighted(w)
        if k == "prim":
            return self.prim()
        if k == "vec":
            return vec(self.type(d - 1))
        if k == "rec":
            return ("rec", self.s.pick(self.recs))
        if k == "uni":
            return ("uni", self.s.pick(self.unis))
        return opt(self.type(d - 1, optional=False))

    # ---------------------------------------------------------- expressions
    def expr(self, t, d=None, promo=True):
        """An expression accepted where a t is expected (its .ty is its own
        type; promotions are explicit 'prom' nodes)."""
        if d is None:
            d = self.s.rint(0, self.P["depth"])
        if promo:
            sub = self.promotable(t)
            if sub is not None:
                return N("prom", e=self.expr(sub, d, promo=False), ty=t)
        if d <= 0:
            return self.exact(self.leaf(t), promo)
        prods = self.prods(t)
        f = self.s.weighted(prods)
        r = f(t, d - 1)
        r.ty = t
        return self.exact(r, promo)

    def exact(self, r, promo):
        """Without promotion the type has to be the expected one."""
        if promo or r.k != "prom":
            return r
        e = r.e
        while e.k == "prom":
            e = e.e
        if r.ty == "indef" and e.ty not in ("int", "real", "bool", "texto"):
            e = self.int_lit()
        if is_opt(r.ty) and not (e.ty == "nulo" or e.ty in ("int", "real", "bool", "texto")):
            e = N("nulo", ty="nulo")
        return N("cast", e=e, ty=r.ty)

    def promotable(self, t):
        """A type whose values are to be given where a t is expected."""
        s = self.s
        if t == "real":
            return "int" if s.p(25) else None
        if t == "indef":
            if s.p(10) and self.vars_of("indef"):
                return None
            if self.newdepth > 1:
                return self.prim(indef=False)
            return self.s.weighted([(5, "int"), (3, "real"), (3, "texto"), (3, "bool")]
                                   + ([(1, ("rec", r)) for r in self.recs])
                                   + ([(1, ("uni", r)) for r in self.unis])
                                   + ([(1, vec("int"))] if self.P["vecs"] else []))
        if is_opt(t):
            k = s.weighted([(3, "nulo"), (4, "val"), (3, "var")])
            if self.newdepth > 1:
                k = "nulo"
            if k == "nulo":
                return "nulo"
            if k == "val":
                if t[1] == "real" and s.p(30):
                    return "int"
                if t[1] == "indef":
                    return self.prim(indef=False)
                return t[1]
        return None

    def leaf(self, t):
        s = self.s
        if t == "nulo":
            return N("nulo", ty=t)
        vs = self.vars_of(t)
        if vs and s.p(65):
            return self.var(s.pick(vs))
        if self.fn is not None and self.fn.kind == "met" and self.fn.target == t and s.p(50):
            return N("alvo", ty=t)
        return self.literal(t)

    def var(self, sym):
        return N("var", sym=sym, ty=sym.ty)

    def literal(self, t):
        s = self.s
        if t == "int":
            return self.int_lit()
        if t == "real":
            r = s.pick(REALS[:9]) if not s.p(20) else s.pick(REALS) if not s.p(25) else s.pick(TINY)
            return N("real", t=r, v=float(r), ty=t)
        if t == "bool":
            return N("bool", v=bool(s.n(2)), ty=t)
        if t == "texto":
            return self.text_lit()
        if t == "nulo":
            return N("nulo", ty=t)
        if t == "indef":
            return N("prom", e=self.literal(self.prim(indef=False)), ty=t)
        if is_opt(t):
            if s.p(30) or self.newdepth > 1:
                return N("prom", e=N("nulo", ty="nulo"), ty=t)
            return N("prom", e=self.literal(t[1]), ty=t)
        if is_vec(t):
            self.newdepth += 1
            n = s.rint(1, 3) if self.newdepth < 3 else 1 if self.newdepth < 5 else 0
            r = N("list", elem=t[1], args=[self.leaf2(t[1]) for _ in range(n)], ty=t)
            self.newdepth -= 1
            return r
        if is_rec(t):
            return self.x_new(t, 0)
        if is_uni(t):
            return self.x_variant(t, 0)
        raise AssertionError(t)

    def leaf2(self, t):
        return self.expr(t, 0)

    def int_lit(self, v=None):
        s = self.s
        if v is None and self.nearints and s.p(20):
            v = s.pick(self.nearints)
        if v is None:
            v = s.rint(0, 9) if not s.p(12 if not self.P["big"] else self.P["big"]) else s.pick(INTS)
        return N("int", v=v, ty="int")

    def text_lit(self, v=None):
        s = self.s
        if v is None:
            v = s.pick(TEXTS[:14]) if not s.p(40) else s.pick(TEXTS)
            if self.near and s.p(25):
                v = s.pick(self.near)
            elif s.p(20):
                v += s.pick(TEXTS)
        if not spellable(v):
            v = v.replace("\\", "/")
        q = s.pick("'\"")
        return N("text", v=v, q=q, ty="texto")

    def prods(self, t):
        P = self.P
        w = [(P["lit"], lambda t, d: self.leaf(t))]
        vs = self.vars_of(t)
        if vs:
            w.append((P["var"], lambda t, d: self.var(self.s.pick(vs))))
        if t in ("int", "real"):
            w += [(P["bin"], self.x_arith), (P["un"], self.x_neg), (P["cast"], self.x_cast)]
        if t == "int":
            w.append((P["tam"], self.x_tam))
        if t == "bool":
            w += [(P["cmp"], self.x_cmp), (P["eq"], self.x_eq), (P["logic"], self.x_logic),
                  (P["cast"] // 2, self.x_cast), (P["txt"], self.x_contem)]
        if t == "texto":
            w += [(P["cast"] * 2, self.x_cast), (P["fstr"], self.x_fstr)]
            if P["vecs"]:
                w.append((P["idx"], self.x_charat))
        if t == "indef":
            w.append((P["cast"], self.x_cast))
        if is_opt(t) and t[1] in ("int", "real", "bool", "texto"):
            w.append((P["cast"], self.x_castopt))
        if is_vec(t):
            w.append((P["list"], self.x_list))
            e, n = t[1], 1
            while is_vec(e):
                e, n = e[1], n + 1
            if e in ("int", "real", "bool", "texto") and n <= 3:
                w.append((P["vecn"], self.x_vecn))
        if is_rec(t):
            w.append((P["new"], self.x_new))
        if is_uni(t):
            w.append((P["variant"], self.x_variant))
        if is_opt(t) or t == "indef":
            w.append((P["prom"], lambda t, d: self.literal(t)))
        if P["idx"] and P["vecs"] and self.vars_of(vec(t)):
            w.append((P["idx"], self.x_idx))
            if P["remova"]:
                w.append((P["remova"], self.x_remova))
        if P["valor"] and not is_opt(t) and self.vars_of(opt(t)):
            w += [(P["valor"], self.x_valor), (P["valor_ou"], self.x_valor_ou)]
        fs = self.field_sources(t)
        if fs:
            w.append((P["field"], lambda t, d: self.x_field(t, d, fs)))
        fns = [f for f in self.callable() if f.ret == t]
        if fns:
            w.append((P["call"], lambda t, d: self.call_of(self.s.pick(fns), d)))
        ms = [f for f in self.callable_mets() if f.ret == t]
        if ms:
            w.append((P["meth"], lambda t, d: self.meth_of(self.s.pick(ms), d)))
        if P["igx"] and t != "nulo":
            w.append((P["igx"], self.x_iguala))
        if P["trace"] and t in self.tracers and not self.in_fstr:
            w.append((P["trace"], self.x_trace))
        return [x for x in w if x[0] > 0]

    in_fstr = False

    # functions that may be called here
    def callable(self):
        hidden = {y.name for sc in self.scopes[1:] for y in sc}
        return self.spellable([f for f in self.funcs if f.name not in hidden])

    def callable_mets(self):
        return self.spellable(self.mets)

    def spellable(self, fs):
        hidden = self.hidden()
        if not hidden:
            return fs
        return [f for f in fs if not any(mentions_type(t, hidden) for t in
                                         [f.ret, getattr(f, "target", None)] + [p.ty for p in f.params])]

    def args_for(self, f, d):
        return [self.expr(p.ty, min(d, 2)) for p in f.params]

    def call_of(self, f, d):
        if f is self.fn:
            return self.recursive(f, d)
        args = self.args_for(f, d)
        if getattr(f, "fuel", None):
            args[0] = self.int_lit(self.s.rint(0, 6))
        return N("call", fn=f, args=args, ty=f.ret)

    def recursive(self, f, d):
        args = self.args_for(f, d)
        args[0] = N("bin", op="-", l=self.var(f.params[0]), r=N("int", v=1, ty="int"), ty="int")
        self.s.label("recursion")
        return N("call", fn=f, args=args, ty=f.ret)

    def meth_of(self, f, d):
        e = self.expr(f.target, min(d, 1), promo=False)
        args = self.args_for(f, d)
        if getattr(f, "fuel", None):
            args[0] = (self.recursive(f, d).args[0] if f is self.fn
                       else self.int_lit(self.s.rint(0, 5)))
        return N("meth", e=e, fn=f, args=args, ty=f.ret)

    def extreme(self):
        """An int at the end of the range, or one that is special for an operator."""
        s = self.s
        M = 2 ** 63 - 1
        k = s.n(8)
        if k <= 1:
            return N("bin", op="-", l=N("un", op="-", e=self.int_lit(M), ty="int"), r=self.int_lit(1), ty="int")
        if k <= 3:
            v = s.pick([M, M - 1, M // 2, M // 2 + 1, 3037000499, 3037000500, 2 ** 32])
        else:
            v = s.pick([0, 1, 1, 2, 2, 3])
        e = self.int_lit(v)
        return N("un", op="-", e=e, ty="int") if s.p(50) else e

    def x_arith(self, t, d):
        s = self.s
        if t == "int" and s.p(self.P["near"]):
            op = s.pick(["+", "-", "*", "//", "%"])
            s.label("extreme")
            s.label("op" + op)
            return N("bin", op=op, l=self.extreme(), r=self.extreme())
        if t == "int":
            op = s.pick(["+", "-", "*", "//", "%", "+", "-"])
            l = self.expr("int", d, False)
            if op == "//" and s.p(25):
                r = self.divisor(self.s.pick(["int", "real"]), d)
                if s.p(40):
                    l = self.expr("real", d, False)
            elif op in ("//", "%"):
                r = self.divisor("int", d)
            else:
                r = self.expr("int", d, False)
        else:
            op = s.pick(["+", "-", "*", "/", "/", "%", "+"])
            if op == "/":
                l = self.expr(s.pick(["int", "real"]), d, False)
                r = self.divisor(s.pick(["int", "real"]), d)
            else:
                a, b = s.pick([("real", "real"), ("int", "real"), ("real", "int")])
                l = self.expr(a, d, False)
                r = self.expr(b, d, False) if op != "%" else self.divisor(b, d)
        s.label("op" + op)
        return N("bin", op=op, l=l, r=r)

    def divisor(self, t, d):
        if self.s.p(75):
            if t == "int":
                return N("int", v=self.s.pick([2, 3, 1, 7, 10, 256]), ty=t)
            r = self.s.pick(["2.0", "0.5", "1.5", "0.1", "3.0"])
            return N("real", t=r, v=float(r), ty=t)
        return self.expr(t, d, False)

    def x_neg(self, t, d):
        op = self.s.pick(["-", "-", "+"])
        e = self.expr(t, d, False)
        return N("un", op=op, e=e)

    def x_cast(self, t, d):
        s = self.s
        self.s.label("cast")
        if t == "int":
            src = s.pick(["real", "texto", "indef", "int"])
        elif t == "real":
            src = s.pick(["int", "texto", "indef", "real"])
        elif t == "bool":
            src = s.pick(["int", "real", "texto", "indef", "bool"])
        elif t == "texto":
            src = s.pick(["int", "real", "bool", "indef", "texto"])
        else:
            src = s.pick(["int", "real", "bool", "texto"])
        if src == "texto" and t in ("int", "real") and s.p(70):
            e = self.text_lit(self.numeral(t))
        elif src == "real" and s.p(25):
            r = s.pick(REALS + TINY * 2)
            s.label("tiny")
            e = N("real", t=r, v=float(r), ty="real")
        elif src == "indef":
            vs = self.vars_of("indef")
            if not vs:
                e = N("cast", e=self.expr(t, d, False), ty="indef")
            else:
                e = self.var(s.pick(vs))
        else:
            e = self.expr(src, d, False)
        return N("cast", e=e)

    def numeral(self, t):
        """A text that is converted to a number, or that nearly is."""
        s = self.s
        good = ["5", "-3", "+7", "00012", "12", "0", "9223372036854775807",
                "-9223372036854775808", "-0", "+0", "000000000000000000000000000001"]
        if t == "real":
            good += ["5.0", "1e3", ".5", "2.", "-0.0", "1E-2", "+.5", "-1.25e+2", "0.1", "1e400",
                     "9007199254740993", "inf", "-infinity", "1e-400"]
        if not s.p(self.P["keep_err"] // 3):
            return s.pick(good)
        s.label("bad-numeral")
        v = s.pick(good + ["9223372036854775808", "-9223372036854775809", "5.0", "1e3"])
        return s.pick([v, " " + v, v + " ", "\t" + v, v + "\n", "+" + v, "--" + v, v + "a", "_" + v, v + "_0", "0x" + v,
                       "", " ", ".", "+", "-", "e5", "1e", "1.2.3", "٣", "1,5", "½", "- 5", "1 2"])

    def x_castopt(self, t, d):
        self.s.label("castopt")
        w = [t[1]]
        if t[1] in ("int", "real", "bool", "texto"):
            w.append("nulo")
            if self.vars_of("indef"):
                w.append("indef")
        src = self.s.pick(w)
        if src == "indef":
            e = self.var(self.s.pick(self.vars_of("indef")))
        elif src == "nulo":
            e = N("nulo", ty="nulo")
        else:
            e = self.expr(src, d, False)
        return N("cast", e=e)

    def x_tam(self, t, d):
        if self.P["vecs"] and self.s.p(60):
            vs = self.visible(lambda y: is_vec(y.ty))
            if vs:
                return N("bi", name="tam", args=[self.var(self.s.pick(vs))])
        return N("bi", name="tam", args=[self.expr("texto", d, False)])

    def near_pair(self):
        """Two int expressions with values that are equal or next to each other, near a limit
        of some representation."""
        s = self.s
        s.label("near")
        if s.p(30):
            g = s.pick([["0.1", "0.10000000000000002", "0.09999999999999999"],
                        ["1.0", "1.0000000000000002", "0.9999999999999999"],
                        ["0.0", TINY[0], TINY[3], TINY[5], TINY[6]],
                        ["9007199254740992.0", "9007199254740993.0", "9007199254740994.0"],
                        ["4503599627370496.0", "4503599627370496.5"],
                        ["1000.0", "1000.0000000000001", "1000.000000000001"]])
            def lit():
                r = s.pick(g)
                e = N("real", t=r, v=float(r), ty="real")
                return N("un", op="-", e=e, ty="real") if s.p(25) else e
            return lit(), lit()
        p = s.pick([2 ** 53, 2 ** 53, 2 ** 31, 2 ** 32, 2 ** 24, 2 ** 62, 2 ** 63 - 9, 10 ** 18, 0, 127, 2 ** 40])
        neg = s.p(40)

        def one():
            v = p + s.rint(0, 3)
            k = s.n(4)
            e = self.int_lit(v)
            if k == 1:
                e = N("bin", op="+", l=self.int_lit(v - (v > 2)), r=self.int_lit(int(v > 2)), ty="int")
            elif k == 2:
                e = N("bin", op="-", l=self.int_lit(v + 3), r=self.int_lit(3), ty="int")
            if neg:
                e = N("un", op="-", e=e, ty="int")
            return e
        return one(), one()

    def x_cmp(self, t, d):
        op = self.s.pick(["<", ">", "<=", ">="])
        if self.s.p(self.P["near"]):
            l, r = self.near_pair()
            return N("bin", op=op, l=l, r=r)
        a, b = self.s.pick([("int", "int"), ("int", "int"), ("real", "real"), ("int", "real"),
                            ("real", "int")])
        return N("bin", op=op, l=self.expr(a, d, False), r=self.expr(b, d, False))

    def x_eq(self, t, d):
        s = self.s
        op = s.pick(["==", "!="])
        if s.p(self.P["near"]):
            l, r = self.near_pair()
            return N("bin", op=op, l=l, r=r)
        w = [(3, ("int", "int")), (2, ("texto", "texto")), (2, ("bool", "bool")),
             (2, ("real", "real")), (1, ("int", "real")), (1, ("real", "int"))]
        if self.vars_of("indef"):
            w.append((1, ("indef", self.prim(indef=False))))
        os = self.visible(lambda y: is_opt(y.ty))
        if os:
            y = s.pick(os)
            w.append((4, (y, "nulo")))
            w.append((2, (y, y.ty[1])))
            w.append((1, (y, y.ty)))
        if self.recs:
            r = ("rec", s.pick(self.recs))
            w.append((2, (r, r)))
        a, b = s.weighted(w)
        if isinstance(a, Sym):
            s.label("opt==")
            ok = b == "nulo" or (b in ("int", "real", "bool", "texto") or is_rec(b) or b == a.ty)
            if not ok:
                b = "nulo"
            l = self.var(a)
        else:
            l = self.expr(a, d, False) if a != "indef" else self.var(s.pick(self.vars_of("indef")))
        return N("bin", op=op, l=l, r=self.expr(b, min(d, 1), False))

    def x_logic(self, t, d):
        k = self.s.n(3)
        if k == 0:
            return N("un", op="nao", e=self.expr("bool", d, False))
        return N("bin", op="e" if k == 1 else "ou",
                 l=self.expr("bool", d, False), r=self.expr("bool", d, False))

    def x_contem(self, t, d):
        return N("bi", name="txt_contem",
                 args=[self.expr("texto", d, False), self.expr("texto", d, False)])

    def x_fstr(self, t, d):
        s = self.s
        q = s.pick("'\"")
        parts = []
        if self.in_fstr:
            return self.text_lit()
        for _ in range(s.rint(0, 4)):
            if s.p(50):
                x = s.pick(FTEXTS)
                if not spellable(x) or not spellable((parts[-1] if parts and isinstance(parts[-1], str) else "") + x):
                    x = "t"
                # two literal parts in a row are one
                if parts and isinstance(parts[-1], str):
                    parts[-1] += x
                elif x:
                    parts.append(x)
            else:
                ty = self.prim()
                save = self.s.log[:]
                self.in_fstr = True
                e = self.expr(ty, min(d, 1), False)
                self.in_fstr = False
                src = Printer(None).es(e)
                if "}" in src or "'" in src or '"' in src or "\\" in src or "\n" in src or "{" in src:
                    e = N("int", v=1, ty="int")
                parts.append(e)
        if parts and isinstance(parts[-1], str) and parts[-1].endswith("\\"):
            parts[-1] += "."
        for i, p in enumerate(parts):
            # a backslash before an expression or a brace is a literal one
            if isinstance(p, str) and (p.endswith("\\") or "\\{" in p):
                parts[i] = p.replace("\\", "/")
        s.label("fstr")
        return N("fstr", parts=parts, q=q)

    def index_for(self, d):
        s = self.s
        if s.p(80):
            return self.int_lit(s.rint(0, 2))
        return self.expr("int", min(d, 1), False)

    def x_charat(self, t, d):
        e = self.expr("texto", min(d, 1), False)
        return N("idx", e=e, i=self.index_for(d))

    def x_idx(self, t, d):
        s = self.s
        vs = self.vars_of(vec(t))
        e = self.var(s.pick(vs))
        return N("idx", e=e, i=self.index_for(d))

    def x_remova(self, t, d):
        e = self.var(self.s.pick(self.vars_of(vec(t))))
        return N("bi", name="remova", args=[e, self.index_for(d)])

    def x_valor(self, t, d):
        return N("valor", e=self.var(self.s.pick(self.vars_of(opt(t)))))

    def x_valor_ou(self, t, d):
        return N("valor_ou", e=self.var(self.s.pick(self.vars_of(opt(t)))),
                 d=self.expr(t, min(d, 1)))

    def field_sources(self, t):
        out = []
        for y in self.visible(lambda y: is_rec(y.ty)):
            for n, ft in y.ty[1].fields:
                if ft == t:
                    out.append((y, n))
                elif is_rec(ft):
                    out += [(y, n, m) for m, mt in ft[1].fields if mt == t]
        if self.fn is not None and self.fn.kind == "met" and is_rec(self.fn.target):
            out += [(None, n) for n, ft in self.fn.target[1].fields if ft == t]
        return out

    def x_field(self, t, d, fs):
        f = self.s.pick(fs)
        e = N("alvo", ty=self.fn.target) if f[0] is None else self.var(f[0])
        for n in f[1:]:
            ty = dict(e.ty[1].fields)[n]
            e = N("field", e=e, name=n, ty=ty)
        return e

    newdepth = 0

    def x_list(self, t, d):
        n = self.s.rint(0, 4)
        return N("list", elem=t[1], args=[self.expr(t[1], min(d, 1)) for _ in range(n)])

    def x_vecn(self, t, d):
        e, n = t[1], 1
        while is_vec(e):
            e, n = e[1], n + 1
        self.s.label("vec%d" % n)
        return N("vecn", elem=e, args=[self.int_lit(0 if self.s.p(12) else self.s.rint(1, 3)) for _ in range(n)])

    def x_new(self, t, d):
        r = t[1]
        self.newdepth += 1
        args = [(n, self.expr(ft, min(d, 1))) for n, ft in r.fields]
        self.newdepth -= 1
        if self.s.p(40):
            args = self.s.shuffle(args)
        return N("rec", sym=r, args=args, ty=t)

    def x_variant(self, t, d):
        u = t[1]
        vs = u.variants
        if d <= 0:
            vs = [v for v in vs if not v.recursive] or vs[:1]
        v = self.s.pick(vs)
        self.newdepth += 1
        r = N("variant", sym=v, args=[self.expr(p, min(d, 2)) for p in v.params], ty=t)
        self.newdepth -= 1
        return r

    def x_trace(self, t, d):
        self.s.label("trace")
        f = self.tracers[t]
        self.counter += 1
        return N("call", fn=f, args=[N("int", v=self.counter, ty="int"), self.expr(t, d)], ty=t)

    # --------------------------------------------------------------- iguala
    def scrutinee(self, d):
        s = self.s
        w = [(3, "int"), (3, "texto"), (1, "bool"), (1, "real")]
        w += [(5, ("uni", u)) for u in self.unis]
        w += [(1, ("rec", u)) for u in self.recs]
        return s.weighted(w)

    def pattern(self, t, d, binds):
        """A pattern for values of type t."""
        s = self.s
        if t == "int" and s.p(45):
            return N("pint", v=s.pick(self.nearints) if self.nearints and s.p(40) else s.rint(0, 4))
        if t == "texto" and s.p(50):
            y = self.text_lit(s.pick(self.near) if self.near and s.p(75) else None)
            return N("ptext", v=y.v, q=y.q)
        if is_uni(t) and d > 0 and s.p(65):
            v = s.pick(t[1].variants)
            return N("padt", sym=v, args=[self.pattern(p, d - 1, binds) for p in v.params])
        return self.pvar(t, binds)

    def pvar(self, t, binds):
        used = {b.name for b in binds}
        if self.s.p(25) and "_" not in used:
            y = Sym("_", t)
        else:
            n = self.varname_in(used)
            y = Sym(n, t)
        y.glob = False
        binds.append(y)
        return N("pvar", sym=y)

    def varname_in(self, used):
        for _ in range(6):
            n = self.varname()
            if n not in used:
                return n
        return self.fresh()

    def cover(self, t, pats):
        """Patterns that, after pats, make the match exhaustive."""
        s = self.s
        if is_uni(t) and s.p(60):
            out = []
            for v in s.shuffle(t[1].variants):
                b = []
                out.append((N("padt", sym=v, args=[self.pvar(p, b) for p in v.params]), b))
            return out
        b = []
        return [(self.pvar(t, b), b)]

    def arms(self, t, mk):
        """mk(binds) -> arm without pattern"""
        s = self.s
        pats = []
        for _ in range(s.rint(0, 3)):
            b = []
            pats.append((self.pattern(t, 2, b), b))
        pats += self.cover(t, pats)
        out = []
        for p, b in pats:
            self.scopes.append([])
            for y in b:
                y.glob = False
                if y.name != "_":
                    self.scopes[-1].append(y)
            self.in_arm += 1
            a = mk()
            self.in_arm -= 1
            a.pat = p
            out.append(a)
            self.scopes.pop()
        return out

    def target_expr(self, t, d):
        """The scrutinee itself (never one that is promoted)."""
        if is_uni(t) and self.vars_of(t) and self.s.p(60):
            return self.var(self.s.pick(self.vars_of(t)))
        return self.expr(t, d, False)

    def x_iguala(self, t, d):
        s = self.s
        if self.in_fstr:
            return self.leaf(t)
        s.label("iguala-expr")
        st = self.scrutinee(d)
        e = self.target_expr(st, min(d, 1))

        def mk():
            self.nest += 1
            try:
                if s.p(25) and self.nest < 4:
                    body = self.stmts(s.rint(0, 2))
                    if self.loop and s.p(30):
                        # leaves the middle of an expression
                        s.label("jump-expr")
                        body += self.g_jump()
                    return N("armb", body=body + [N("produz", e=self.expr(t, min(d, 1), False))])
                return N("armx", e=self.expr(t, min(d, 1), False))
            finally:
                self.nest -= 1

        self.noshadow += 1
        save, self.noret = self.noret, True     # a block cannot hold both retorna and produz
        r = N("iguala", e=e, arms=self.arms(st, mk))
        self.noret = save
        self.noshadow -= 1
        return r

    noret = False

    # ----------------------------------------------------------- statements
    def stmts(self, n):
        out = []
        for _ in range(n):
            out += self.stmt()
        return out

    def block(self, extra=(), loop=0):
        """A nested block, in a scope of its own."""
        self.scopes.append(list(extra))
        self.nest += 1
        self.loop += loop
        lo, hi = self.P["body"]
        b = self.stmts(self.s.rint(lo, max(lo, hi - self.nest // 2)))
        self.loop -= loop
        self.nest -= 1
        self.scopes.pop()
        return b

    def stmt(self):
        P = self.P
        w = [(P["mostra"], self.g_mostra), (P["decl"], self.g_decl)]
        if self.assignable():
            w += [(P["assign"], self.g_assign), (P["compound"], self.g_compound),
                  (P["chain"], self.g_chain)]
        w += [(P["escreva"], self.g_escreva)]
        if self.void_calls():
            w.append((P["expr"] * 2, self.g_expr))
        if self.P["vecs"] and self.visible(lambda y: is_vec(y.ty)):
            w += [(P["anexa"], self.g_anexa), (P["remova_s"], self.g_remova)]
        if self.nest < P["block"] + 1:
            w += [(P["se"], self.g_se), (P["enquanto"], self.g_enquanto), (P["para"], self.g_para),
                  (P["escolha"], self.g_escolha), (P["iguala"], self.g_iguala),
                  (P["seiguala"], self.g_seiguala)]
        if self.loop:
            w.append((P["jump"], self.g_jump))
        if self.fn is not None and self.nest > 0 and not self.noret:
            w.append((P["ret"], self.g_ret))
        if len(self.scopes) > 1 and (P["nrec"][1] or P["nuni"][1]):
            w.append((P["ltype"], self.g_type))
        f = self.s.weighted([x for x in w if x[0] > 0])
        return f()

    def g_mostra(self):
        t = self.show_type()
        return [N("mostra", e=self.expr(t, None, False))]

    def show_type(self):
        return self.s.weighted([(6, "int"), (4, "real"), (4, "bool"), (5, "texto")] +
                               [(1, y.ty) for y in self.visible()[:6]])

    def g_escreva(self):
        t = self.show_type()
        return [N("expr", e=N("bi", name=self.s.pick(["escreva", "escrevaln"]),
                              args=[self.expr(t, None, False)], ty=None))]

    def g_decl(self):
        s = self.s
        t = self.type()
        prim = t in ("int", "real", "bool", "texto")
        if prim and s.p(15):
            if s.p(40):
                syms = []
                for _ in range(s.rint(2, 3)):
                    syms.append(self.declare(Sym(self.varname(), t)))
                return [N("multi", syms=syms)]
            y = Sym(self.varname(), t)
            self.declare(y)
            return [N("decl", sym=y, e=None)]
        e = self.expr(t)
        name = self.varname()
        # a name may not appear in its own initial value
        if self.mentions(e, name):
            name = self.fresh()
        y = self.declare(Sym(name, t))
        return [N("decl", sym=y, e=e)]

    def mentions(self, e, name):
        from .lang import walk
        for x in walk(e):
            y = getattr(x, "sym", None) or getattr(x, "fn", None)
            if y is not None and (y.name == name or getattr(getattr(y, "owner", None), "name", None) == name):
                return True
        return False

    def assignable(self):
        return self.visible(lambda y: y not in self.protected)

    def place(self):
        """An assignable expression."""
        s = self.s
        y = s.pick(self.assignable())
        e = self.var(y)
        if is_vec(y.ty) and s.p(75) and self.P["idx"]:
            e = N("idx", e=e, i=self.index_for(1), ty=y.ty[1])
            while is_vec(e.ty) and s.p(60):
                e = N("idx", e=e, i=self.index_for(1), ty=e.ty[1])
        if is_rec(e.ty) and s.p(80):
            fs = e.ty[1].fields
            n, ft = s.pick(fs)
            e = N("field", e=e, name=n, ty=ft)
            if is_vec(ft) and s.p(50):
                e = N("idx", e=e, i=self.index_for(1), ty=ft[1])
        return e

    def g_assign(self):
        t = self.place()
        r = [N("assign", targets=[t], e=self.expr(t.ty))]
        root = t
        while root.k in ("idx", "field"):
            root = root.e
        if root is not t and self.s.p(self.P["reshow"]):
            r.append(N("mostra", e=root))
        return r

    def g_chain(self):
        s = self.s
        t1 = self.place()
        vs = [y for y in self.assignable() if y.ty == t1.ty or (t1.ty == "real" and y.ty == "int")]
        if not vs:
            return [N("assign", targets=[t1], e=self.expr(t1.ty))]
        t2 = self.var(s.pick(vs))
        s.label("chain")
        return [N("assign", targets=[t1, t2], e=self.expr(t2.ty))]

    def g_compound(self):
        s = self.s
        for _ in range(4):
            t = self.place()
            if t.ty in ("int", "real"):
                break
        else:
            return self.g_assign()
        if t.ty == "int":
            op, e = s.pick(["+", "-", "*"]), self.expr("int", None, False)
        else:
            op = s.pick(["+", "-", "*", "/"])
            e = self.expr(s.pick(["int", "real"]), None, False)
            if op == "/":
                e = self.divisor(e.ty, 1)
        s.label("compound")
        return [N("compound", target=t, op=op, e=e)]

    def void_calls(self):
        return [f for f in self.callable() if f is not self.fn] + self.mets_free()

    def mets_free(self):
        return [m for m in self.callable_mets() if m is not self.fn]

    def g_expr(self):
        f = self.s.pick(self.void_calls())
        self.s.label("expr-call")
        return [N("expr", e=self.call_of(f, 1) if f.kind == "func" else self.meth_of(f, 1))]

    def some_vec(self):
        """A vector that is changed in place: a variable's, or one inside it."""
        e = self.var(self.s.pick(self.visible(lambda y: is_vec(y.ty))))
        while is_vec(e.ty[1]) and self.s.p(60):
            e = N("idx", e=e, i=self.index_for(1), ty=e.ty[1])
            self.s.label("inner-vec")
        return e

    def g_anexa(self):
        v = self.some_vec()
        return [N("expr", e=N("bi", name="anexa", args=[v, self.expr(v.ty[1])], ty=None))]

    def g_remova(self):
        return [N("expr", e=N("bi", name="remova", args=[self.some_vec(), self.index_for(1)], ty=None))]

    def g_se(self):
        s = self.s
        conds = [(self.expr("bool"), self.block())]
        while len(conds) < 4 and s.p(30):
            conds.append((self.expr("bool"), self.block()))
        other = self.block() if s.p(50) else None
        s.label("se%d" % min(len(conds), 3))
        return [N("se", conds=conds, other=other)]

    def header(self, t):
        """An expression of the header of a loop, which is not in the loop:
        its jumps belong to the loop around it."""
        if self.loop and self.P["igx"] and self.s.p(30):
            r = self.x_iguala(t, 1)
            r.ty = t
            return r
        return self.expr(t, 1, False)

    def g_enquanto(self):
        s = self.s
        c = self.declare(Sym(self.fresh("c"), "int"))
        self.protected.add(c)
        k = s.rint(0, 4)
        cond = N("bin", op="<", l=self.var(c), r=self.int_lit(k), ty="bool")
        if s.p(25):
            cond = N("bin", op="e", l=cond, r=self.header("bool"), ty="bool")
        body = self.block(loop=1)
        step = N("compound", target=self.var(c), op="+", e=N("int", v=1, ty="int"))
        if s.p(10):
            cond = N("bool", v=True, ty="bool")
            body = [step, N("se", conds=[(N("bin", op=">", l=self.var(c), r=self.int_lit(k), ty="bool"),
                                          [N("quebra")])], other=None)] + body
            s.label("forever")
        else:
            body = [step] + body
        return [N("decl", sym=c, e=N("int", v=0, ty="int")),
                N("enquanto", cond=cond, body=body)]

    def g_para(self):
        s = self.s
        y = Sym(self.varname(), "int")
        y.glob = False
        a = self.int_lit(s.rint(0, 3)) if s.p(80) else self.header("int")
        if s.p(15):
            a = N("un", op="-", e=self.int_lit(s.rint(0, 3)), ty="int")
        b = self.int_lit(s.rint(0, 5)) if s.p(80) else self.header("int")
        inc = None
        if s.p(30):
            inc = self.int_lit(s.rint(1, 3)) if s.p(85) else self.header("int")
            s.label("inc")
        for x in (a, b, inc):
            if x is not None and self.mentions(x, y.name):
                y.name = self.fresh("i")
        if s.p(85):
            self.protected.add(y)
        body = self.block([y], loop=1)
        return [N("para", sym=y, a=a, b=b, inc=inc, body=body)]

    def g_escolha(self):
        s = self.s
        t = s.pick(["int", "int", "texto"])
        e = self.expr(t, None, False)
        cases = []
        for _ in range(0 if s.p(8) else s.rint(1, 4)):
            v = self.int_lit(s.rint(0, 4)) if t == "int" else self.expr("texto", 0, False)
            if s.p(20):
                v = self.expr(t, 1, False)
            cases.append((v, self.block()))
        return [N("escolha", e=e, cases=cases, other=self.block() if s.p(50 if cases else 85) else None)]

    def g_iguala(self):
        s = self.s
        s.label("iguala-stmt")
        st = self.scrutinee(1)
        e = self.target_expr(st, 1)
        rt = None if s.p(70) else self.prim(indef=False)

        def mk():
            self.nest += 1
            try:
                lo, hi = self.P["body"]
                if rt is not None and s.p(50):
                    return N("armx", e=self.expr(rt, 1, False))
                save = self.noret
                # a block may not contain both retorna and produz
                self.noret = save or rt is not None
                body = self.stmts(s.rint(0, hi))
                self.noret = save
                if rt is None:
                    return N("armb", body=body)
                return N("armb", body=body + [N("produz", e=self.expr(rt, 1, False))])
            finally:
                self.nest -= 1

        return [N("iguala", x=N("iguala", e=e, arms=self.arms(st, mk), ty=rt))]

    def g_seiguala(self):
        s = self.s
        st = self.scrutinee(1)
        e = self.target_expr(st, 1)
        binds = []
        p = self.pattern(st, 2, binds)
        if p.k == "pvar":
            return self.g_iguala()
        s.label("seiguala")
        self.in_arm += 1
        body = self.block([y for y in binds if y.name != "_"])
        other = self.block() if s.p(50) else None
        self.in_arm -= 1
        return [N("seiguala", e=e, pat=p, body=body, other=other)]

    def g_jump(self):
        self.s.label("jump")
        k = self.s.pick(["quebra", "continua"])
        if self.s.p(70):
            return [N("se", conds=[(self.expr("bool", 1, False), [N(k)])], other=None)]
        return [N(k)]

    def g_ret(self):
        return [self.ret()]

    def ret(self):
        t = self.fn.ret
        return N("retorna", e=None if t is None else self.expr(t, None))

    # ---------------------------------------------------------- definitions
    def g_record(self, name=None):
        s = self.s
        r = Sym(self.type_name("P") if name is None else name, kind="rec")
        fields = []
        names = s.sub(NAMES, s.rint(1, 4))
        for n in names:
            t = self.type(1)
            if self.P["opts"] and s.p(15):
                t = opt(("rec", r))
            fields.append((n, t))
        r.fields = fields
        return self.define_type(r)

    def define_type(self, r):
        r.glob = len(self.scopes) == 1
        outer = {y for sc in self.scopes for y in sc if y.name == r.name}
        if outer and mentions_type((r.kind, r), outer):
            r.name = self.type_name("T")
        if r.glob:
            self.gtypes[r.kind].append(r)
        self.scopes[-1].append(r)
        return N(r.kind, sym=r)

    def g_type(self):
        """A type that only the current block has."""
        s = self.s
        # the order in which the arms of an iguala are compiled decides the numbers
        # that the variants of a union print with
        kinds = [k for k in ("rec", "uni") if self.P["n" + k][1] and not (k == "uni" and self.in_arm)]
        if not kinds:
            return self.g_mostra()
        kind = s.pick(kinds)
        here = {y.name for y in self.scopes[-1]}
        inner = [y for sc in self.scopes for y in sc if y.kind in ("rec", "uni")]
        name = None
        if s.p(50):
            # one that another block uses, or that hides the one of an outer scope
            names = set(self.ltypes) - {y.name for y in inner}
            if not self.noshadow and not (names and s.p(50)):
                names |= {y.name for y in inner if not
                          (self.fn is not None and (mentions_type(self.fn.ret, {y}) or mentions_type(
                              getattr(self.fn, "target", None), {y})))}
            names = sorted(names - here)
            if names:
                name = s.pick(names)
                s.label("type-again" if name in self.ltypes else "type-hides")
        s.label("local-type")
        r = (self.g_record if kind == "rec" else self.g_union)(name)
        self.ltypes.append(r.sym.name)
        out = [r]
        if s.p(70):
            t = (kind, r.sym)
            y = Sym(self.varname(), vec(t) if self.P["vecs"] and s.p(15) else t)
            e = self.expr(y.ty, 1, False)
            if self.mentions(e, y.name):
                y.name = self.fresh()
            out.append(N("decl", sym=self.declare(y), e=e))
        return out

    def type_name(self, base):
        self.counter += 1
        return self.s.pick([base, "Ponto", "Conta", "No"]) + str(self.counter)

    def g_union(self, name=None):
        s = self.s
        u = Sym(self.type_name("U") if name is None else name, kind="uni")
        u.variants = []
        n = s.rint(1, 4)
        for i in range(n):
            v = Sym("V%d" % i if s.p(50) else s.pick(["Nada", "Um", "Par", "Folha", "Ramo"]) + str(i),
                    kind="variant", owner=u)
            if name is not None:
                # variants of unions with equal names may print alike
                self.counter += 1
                v.name += "_%d" % self.counter
            v.params = []
            v.recursive = False
            if s.p(65):
                for _ in range(s.rint(1, 3)):
                    if i > 0 and s.p(25):
                        v.params.append(("uni", u))
                        v.recursive = True
                    else:
                        t = self.type(1, optional=True)
                        v.params.append(t)
            u.variants.append(v)
        return self.define_type(u)

    def g_func(self, met=False):
        s = self.s
        save = self.scopes, self.fn, self.loop, self.nest, self.noret
        name = self.fresh("f") if not met else s.pick(["dobro", "mostrar", "soma", "area"]) + str(self.counter)
        f = Sym(name, kind="met" if met else "func")
        f.glob = True
        f.ret = self.type(1) if s.p(75) else None
        f.fuel = s.p(20)
        if met:
            self.counter += 1
            f.target = self.method_target()
            same = [m.name for m in self.mets]
            if s.p(20):
                # a name that a function, a global or a field of another type has
                same += [g.name for g in self.funcs]
                same += [n for r in self.recs for n, _ in r.fields]
            taken = {x.name for x in self.mets if x.target == f.target}
            if is_rec(f.target):
                taken |= {n for n, _ in f.target[1].fields}
            same = [n for n in same if n not in taken]
            if same and s.p(self.P["samemet"]):
                f.name = s.pick(same)
                s.label("same-method")
        f.params = []
        self.scopes = [self.scopes[0], []]
        if f.fuel:
            n = Sym(self.fresh("n"), "int", fuel=True)
            n.glob = False
            f.params.append(n)
            self.scopes[-1].append(n)
            self.protected.add(n)
        for _ in range(s.rint(0, 3)):
            y = Sym(self.varname(), self.type(1))
            y.glob = False
            f.params.append(y)
            self.scopes[-1].append(y)
        self.fn, self.loop, self.nest, self.noret = f, 0, 0, False
        if not met and f.fuel:
            self.funcs.append(f)
        body = []
        if f.fuel:
            cond = N("bin", op="<=", l=self.var(f.params[0]), r=N("int", v=0, ty="int"), ty="bool")
            if not met:
                self.funcs.remove(f)
            e = None if f.ret is None else self.expr(f.ret, 1)
            if not met:
                self.funcs.append(f)
            body.append(N("se", conds=[(cond, [N("retorna", e=e)])], other=None))
        lo, hi = self.P["body"]
        body += self.stmts(s.rint(0, hi))
        if f.ret is not None or s.p(35):
            body += self.final_return()
        f.body = body
        self.scopes, self.fn, self.loop, self.nest, self.noret = save
        if met:
            self.mets.append(f)
        else:
            if not f.fuel:
                self.funcs.append(f)
            self.scopes[0].append(f)
        return N("func", sym=f)

    def final_return(self):
        s = self.s
        if self.fn.ret is None:
            k = s.weighted([(2, "plain"), (2, "se"), (4, "half"), (2, "escolha"), (1, "iguala")])
        else:
            k = s.weighted([(8, "plain"), (2, "se"), (1, "escolha"), (1, "iguala")])
        if k == "plain":
            return [self.ret()]

        def blk(scope=True):
            if scope:
                self.scopes.append([])
            self.nest += 1
            b = self.stmts(s.rint(0, 1)) + [self.ret()]
            self.nest -= 1
            if scope:
                self.scopes.pop()
            return b

        s.label("ret-" + k)
        if k == "half":
            if s.p(50):
                return [N("se", conds=[(self.expr("bool", 1, False), self.block())], other=blk())]
            return [N("se", conds=[(self.expr("bool", 1, False), blk())], other=self.block() if s.p(30) else None)]
        if k == "se":
            return [N("se", conds=[(self.expr("bool", 1, False), blk()) for _ in range(s.weighted([(4, 1), (2, 2), (1, 3)]))], other=blk())]
        if k == "escolha":
            return [N("escolha", e=self.expr("int", 1, False),
                      cases=[(self.int_lit(i), blk()) for i in range(s.weighted([(5, 1), (1, 0), (2, 2)]))], other=blk())]
        st = self.scrutinee(1)
        e = self.target_expr(st, 1)
        return [N("iguala", x=N("iguala", e=e, ty=None,
                                arms=self.arms(st, lambda: N("armb", body=blk(False)))))]

    def method_target(self):
        s = self.s
        w = [(2, "int"), (1, "texto"), (1, "real"), (1, "bool")]
        w += [(6, ("rec", r)) for r in self.recs] + [(3, ("uni", u)) for u in self.unis]
        return s.weighted(w)

    def add_tracers(self):
        for t in ("int", "real", "bool", "texto"):
            f = Sym("t_" + t, kind="func", ret=t, fuel=False)
            k, v = Sym("k", "int"), Sym("v", t)
            k.glob = v.glob = f.glob = False
            f.params = [k, v]
            f.body = [N("mostra", e=self.var(k)), N("retorna", e=self.var(v))]
            self.tracers[t] = f
            self.scopes[0].append(f)
            self.items.append(N("func", sym=f))

    # -------------------------------------------------------------- program
    def program(self):
        s, P = self.s, self.P
        for _ in range(s.rint(*P["nrec"])):
            self.items.append(self.g_record())
        for _ in range(s.rint(*P["nuni"])):
            self.items.append(self.g_union())
        if P["trace"]:
            self.add_tracers()
        nf, nm = s.rint(*P["nfunc"]), s.rint(*P["nmet"])
        plan = ["f"] * nf + ["m"] * nm + ["s"] * s.rint(*P["ntop"])
        if nf + nm:
            # functions may come between the statements
            head = s.shuffle(plan[: nf + nm] + ["s"] * 2)
            plan = head + plan[nf + nm:]
        for k in plan:
            if k == "f":
                self.items.append(self.g_func())
            elif k == "m":
                self.items.append(self.g_func(met=True))
            else:
                self.items += self.stmt()
        return self.settle(self.items)

    def settle(self, items):
        """Drops the statements that do not end well (in the reference), and
        keeps at most one that stops the program, as the last one."""
        items = list(items)
        errors = 0
        keep = self.s.p(self.P["keep_err"])
        for _ in range(60):
            ref = Ref(steps=self.P.get("steps", 6000))
            at = None
            try:
                at = ref.run(items)
            except (StepLimit, RecursionError):
                at = ref.at
                if items[at].k in ("multi", "func", "rec", "uni"):
                    items = items[:at]
                else:
                    items = self.drop(items, at)
                continue
            if at is None:
                return Program(items, ref)
            if keep and at >= len(items) // 2:
                self.s.label("rt-error")
                # what follows must not run
                return Program(items, ref)
            items = self.drop(items, at)
        from .engine import Reject
        raise Reject()

    def drop(self, items, at):
        s = items[at]
        if s.k == "decl":
            return items[:at] + [N("decl", sym=s.sym, e=self.safe(s.sym.ty))] + items[at + 1:]
        return items[:at] + items[at + 1:]

    def safe(self, t):
        if t == "int":
            return N("int", v=1, ty=t)
        if t == "real":
            return N("real", t="1.5", v=1.5, ty=t)
        if t == "bool":
            return N("bool", v=True, ty=t)
        if t == "texto":
            return N("text", v="ab", q="'", ty=t)
        if t == "indef":
            return N("prom", e=self.safe("int"), ty=t)
        if is_opt(t):
            return N("prom", e=N("nulo", ty="nulo"), ty=t)
        if is_vec(t):
            return N("list", elem=t[1], args=[], ty=t)
        if is_rec(t):
            return N("rec", sym=t[1], args=[(n, self.safe(ft)) for n, ft in t[1].fields], ty=t)
        v = t[1].variants[0]
        return N("variant", sym=v, args=[self.safe(p) for p in v.params], ty=t)


class Program:
    def __init__(self, items, ref):
        self.items = items
        self.ref = ref

    def source(self, style=None, paren=6):
        p = Printer(style)
        p.paren_chance = paren
        for s in self.items:
            p.stmt(s)
        return p.text()
