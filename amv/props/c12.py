"""The static rules: what follows them is accepted, what breaks one is not."""
from ..diag import parse, wrong
from ..engine import Property
from ..gen import Gen
from ..lang import N, PRIMS, Printer, is_opt, is_rec, is_uni, is_vec
from ..rules import ANYWHERE, PRELUDE, TOP, VALUES, WRONG

PROMOTES = {"real": ("int",)}
FSTR_WRONG = [w for w in WRONG if not set(w) & set("'\"{}") and w != "alvo"]


BASES = ["int", "real", "bool", "texto", ("rec", "Zr"), ("rec", "Zq"), ("uni", "Zu")]
OF = {("rec", "Zr"): "rec", ("rec", "Zq"): "rec2", ("uni", "Zu"): "uni"}


def some_type(s, d=2):
    """A type made of the prelude's."""
    k = s.weighted([(3, "base"), (2 if d else 0, "vec"), (2 if d else 0, "opt")])
    if k == "base":
        return s.pick(BASES)
    i = some_type(s, d - 1)
    return i if k == "opt" and is_opt(i) else (k, i)


def text(t):
    if isinstance(t, str):
        return t
    return f"[{text(t[1])}]" if is_vec(t) else text(t[1]) + "?" if is_opt(t) else t[1]


def typed(t, s, d=1):
    """An expression of exactly that type."""
    if is_vec(t):
        if t[1] in ("int", "real", "bool", "texto") and s.p(25):
            return f"vec({text(t[1])}, {s.rint(0, 2)})"
        return f"[{text(t[1])}: " + ", ".join(typed(t[1], s, 0) for _ in range(s.rint(1, 1 + d))) + "]"
    if is_opt(t):
        return f"[{text(t)}: {s.pick(['nulo', typed(t[1], s, 0)])}][0]"
    return s.pick(VALUES[OF.get(t, t)])


def fits(t, exp):
    return t == exp or exp == "real" and t == "int" or exp == "indef" or is_opt(exp) and fits(t, exp[1])


def near(t, s):
    """A type that resembles t and is another."""
    for _ in range(8):
        if is_vec(t) or is_opt(t):
            k = s.n(5)
            u = (t[0], near(t[1], s)) if k < 3 else t[1] if k == 3 and t[1] in BASES else ("vec", t)
        else:
            u = s.pick([("vec", t), "int", "real", some_type(s)])
        if is_opt(u) and is_opt(u[1]):
            u = u[1]
        if u != t and "?" not in str(u):
            return u
    return "int" if t != "int" else "bool"


def plain(t):
    """Made of the prelude's types only."""
    return t in BASES or (is_vec(t) or is_opt(t)) and plain(t[1])


def good(exp, s):
    """A value of the prelude that is accepted where exp is expected, or None."""
    if exp in ("int", "bool", "texto"):
        return s.pick(VALUES[exp])
    if isinstance(exp, tuple) and plain(exp) and s.p(60):
        return typed(exp, s)
    if exp == "real":
        return s.pick(VALUES["real"] + VALUES["int"])
    if exp == "indef":
        return s.pick(VALUES[s.pick(["int", "real", "bool", "texto", "vec", "rec", "uni"])])
    if is_opt(exp):
        return "nulo" if s.p(50) else good(exp[1], s)
    return None


def bad(exp, s, met):
    """An expression that is not accepted where exp is expected."""
    if exp == "fstr":
        return s.pick(FSTR_WRONG)
    if isinstance(exp, tuple) and s.p(50) or exp == "num" and s.p(20):
        for _ in range(5):
            u = near(exp, s) if exp != "num" and s.p(70) else some_type(s)
            if plain(u) and not fits(u, exp) and not (exp == "num" and u in ("int", "real")):
                return typed(u, s)
    kinds = None
    if exp in ("int", "bool", "texto"):
        kinds = set(VALUES) - {exp}
    elif exp in ("real", "num"):
        kinds = set(VALUES) - {"int", "real"}
    elif exp == "indef":
        kinds = {"void"}
    elif is_opt(exp):
        i = exp[1]
        if i in ("int", "bool", "texto"):
            kinds = set(VALUES) - {"nulo", "opt", i}
        elif i == "real":
            kinds = set(VALUES) - {"nulo", "opt", "real", "int"}
        elif is_rec(i) or is_uni(i):
            kinds = set(VALUES) - {"nulo", "opt"}
        elif is_vec(i):
            kinds = set(VALUES) - {"nulo", "opt", "vec", "vec2"}
        else:
            kinds = {"void"}
    elif is_vec(exp):
        kinds = set(VALUES) - {"vec", "vec2"}
    elif is_rec(exp) or is_uni(exp):
        kinds = set(VALUES)
    if kinds is None or s.p(25):
        w = s.pick(WRONG)
        while met and w == "alvo":
            w = s.pick(WRONG)
    else:
        w = s.pick(VALUES[s.pick(sorted(kinds))])
    return f"({w})" if ":>" in w else w


class Slot:
    """A place of the tree where an expression stands."""
    __slots__ = ("get", "set", "exp", "span", "met", "what")


class Walk:
    def __init__(self, items):
        self.slots = []
        self.places = []      # where a statement can be inserted
        self.met = False
        self.nested = None
        self.block(items, None, False, False, {}, {}, top=True)

    # --- statements
    def block(self, body, fn, loop, arm, outer, names, top=False):
        """outer: names of the enclosing scopes; names: of this one, already declared."""
        names = dict(names)
        n = len(body)
        for i, st in enumerate(body):
            self.places.append((body, i, fn, loop, arm, dict(outer), dict(names), top))
            self.stmt(st, fn, loop, arm, {**outer, **names})
            if st.k in ("decl", "func", "rec", "uni"):
                if not (st.k == "func" and st.sym.kind == "met"):
                    names[st.sym.name] = st
            elif st.k == "multi":
                for y in st.syms:
                    names[y.name] = st
        if not (n and body[-1].k in ("retorna", "produz", "quebra", "continua")):
            self.places.append((body, n, fn, loop, arm, dict(outer), dict(names), top))

    def sub(self, body, fn, loop, arm, vis, names=()):
        self.block(body, fn, loop, arm, vis, {n: None for n in names})

    def slot(self, holder, key, exp, span, index=None):
        x = Slot()
        if index is None:
            x.get = lambda: getattr(holder, key)
            x.set = lambda v: setattr(holder, key, v)
        else:
            def get():
                o = getattr(holder, key)[index]
                return o[1] if isinstance(o, tuple) else o

            def set_(v):
                o = getattr(holder, key)
                if isinstance(o, tuple):
                    setattr(holder, key, o[:index] + (v,) + o[index + 1:])
                elif isinstance(o[index], tuple):
                    o[index] = (o[index][0], v)
                else:
                    o[index] = v
            x.get, x.set = get, set_
        x.exp, x.span, x.met, x.what = exp, self.nested or span, self.met, getattr(holder, "k", "?")
        e = x.get()
        if e is None:
            return
        self.slots.append(x)
        self.expr(e, span)

    def stmt(self, st, fn, loop, arm, vis):
        k = st.k
        self.ctx = fn, loop, vis
        simple = lambda: (st.line, max(st.line, st.last - 1))
        head = lambda: (st.line, st.hi)
        if k == "decl":
            self.slot(st, "e", st.sym.ty, simple)
        elif k == "assign":
            for t in st.targets:
                self.expr(t, simple)
            self.slot(st, "e", st.targets[-1].ty, simple)
        elif k == "compound":
            self.expr(st.target, simple)
            self.slot(st, "e", "num", simple)
        elif k in ("mostra", "expr"):
            self.slot(st, "e", "any", simple)
        elif k == "se":
            for i, (c, b) in enumerate(st.conds):
                self.ctx = fn, loop, vis
                self.cond(st, "conds", i, "bool", 0)
                self.sub(b, fn, loop, arm, vis)
            if st.other is not None:
                self.sub(st.other, fn, loop, arm, vis)
        elif k == "enquanto":
            self.slot(st, "cond", "bool", head)
            self.sub(st.body, fn, True, arm, vis)
        elif k == "para":
            for a in ("a", "b", "inc"):
                self.slot(st, a, "int", head)
            self.sub(st.body, fn, True, arm, vis, [st.sym.name])
        elif k == "escolha":
            self.slot(st, "e", "any", lambda: (st.line, st.last))
            for i, (v, b) in enumerate(st.cases):
                self.ctx = fn, loop, vis
                self.cond(st, "cases", i, st.e.ty if st.e.ty in ("int", "texto") else "any", 0)
                self.sub(b, fn, loop, arm, vis)
            if st.other is not None:
                self.sub(st.other, fn, loop, arm, vis)
        elif k == "iguala":
            self.slot(st.x, "e", "any", lambda: (st.line, st.last))
            self.arms(st.x, fn, loop, arm, vis, lambda: (st.line, st.last))
        elif k == "seiguala":
            self.slot(st, "e", "any", head)
            self.sub(st.body, fn, loop, arm, {**vis, **self.binds(st.pat)})
            if st.other is not None:
                self.sub(st.other, fn, loop, arm, vis)
        elif k == "retorna":
            if st.e is not None:
                self.slot(st, "e", fn.ret, simple)
        elif k == "produz":
            self.slot(st, "e", "any", simple)
        elif k == "func":
            f = st.sym
            self.met = f.kind == "met"
            self.sub(f.body, f, False, False, vis, [p.name for p in f.params])
            self.met = False

    def cond(self, st, key, i, exp, j):
        x = Slot()

        def set_(v):
            ls = getattr(st, key)
            ls[i] = (v, ls[i][1])
        x.get, x.set = lambda: getattr(st, key)[i][0], set_
        x.exp, x.met, x.what = exp, self.met, st.k
        x.span = self.nested or (lambda: tuple(st.clines[i]))
        self.slots.append(x)
        self.expr(x.get(), x.span)

    def binds(self, p):
        if p.k == "pvar":
            return {p.sym.name: None}
        out = {}
        for a in getattr(p, "args", None) or ():
            out.update(self.binds(a))
        return out

    def arms(self, x, fn, loop, arm, vis, span):
        for a in x.arms:
            if a.k == "armx":
                ctx = self.ctx
                self.ctx = fn, loop, {**vis, **self.binds(a.pat)}
                self.slot(a, "e", "any", span)
                self.ctx = ctx
            else:
                self.sub(a.body, fn, loop, True, {**vis, **self.binds(a.pat)})

    # --- expressions
    def expr(self, e, span):
        k = e.k
        if k == "prom":
            self.expr(e.e, span)
        elif k == "bin":
            exp = "bool" if e.op in ("e", "ou") else "any" if e.op in ("==", "!=") else "num"
            self.slot(e, "l", exp, span)
            self.slot(e, "r", exp, span)
        elif k == "un":
            self.slot(e, "e", "bool" if e.op == "nao" else "num", span)
        elif k == "cast":
            self.slot(e, "e", "any", span)
        elif k == "call":
            for i, p in enumerate(e.fn.params):
                self.slot(e, "args", p.ty, span, i)
        elif k == "meth":
            self.expr(e.e, span)
            for i, p in enumerate(e.fn.params):
                self.slot(e, "args", p.ty, span, i)
        elif k == "idx":
            self.expr(e.e, span)
            self.slot(e, "i", "int", span)
        elif k in ("field", "valor"):
            self.expr(e.e, span)
        elif k == "valor_ou":
            self.expr(e.e, span)
            t = e.e.ty
            self.slot(e, "d", t[1] if is_opt(t) else "any", span)
        elif k == "bi":
            sig = {"txt_contem": ["texto", "texto"], "leia": ["texto"], "remova": [None, "int"]}.get(e.name)
            for i, a in enumerate(e.args):
                x = "any"
                if sig:
                    x = sig[i]
                elif e.name == "anexa":
                    x = None if i == 0 else e.args[0].ty[1] if is_vec(e.args[0].ty) else "any"
                if x is None:
                    self.expr(a, span)
                else:
                    self.slot(e, "args", x, span, i)
        elif k == "rec":
            fs = dict(e.sym.fields)
            for i, (n, _) in enumerate(e.args):
                self.slot(e, "args", fs[n], span, i)
        elif k == "variant":
            for i, t in enumerate(e.sym.params or ()):
                self.slot(e, "args", t, span, i)
        elif k == "list":
            for i in range(len(e.args)):
                self.slot(e, "args", e.elem, span, i)
        elif k == "vecn":
            for i in range(len(e.args)):
                self.slot(e, "args", "int", span, i)
        elif k == "fstr":
            for i, p in enumerate(e.parts):
                if not isinstance(p, str):
                    x = Slot()

                    def set_(v, i=i, e=e):
                        e.parts[i] = v
                    x.get, x.set = (lambda i=i, e=e: e.parts[i]), set_
                    x.exp, x.span, x.met, x.what = "fstr", self.nested or span, self.met, "fstr"
                    self.slots.append(x)
        elif k == "iguala":
            self.slot(e, "e", "any", span)
            fn, loop, vis = ctx = self.ctx
            # what is inside is printed on its own: its lines are not the file's
            old = self.nested
            self.nested = old or span
            self.arms(e, fn, loop, True, vis, span)
            self.nested = old
            self.ctx = ctx


class C12(Property):
    id = "C12"
    quick = 3000
    thorough = 400000
    needs_vm = False
    technique = ("property-based testing: generated well-typed programs (accepted) and the same programs with one place made "
                 "to break one static rule (rejected, with a diagnostic on that place)")
    level_note = "212 statements and 1817 expressions that break a rule, and values of every other type, in every kind of place."
    assumptions = ("The lists of amv/rules.py state the static rules.",)
    rule = ("A case is a well-typed program, with some values exchanged for others that the rules admit, which has to be accepted, and a "
            "copy with one fault: an expression of a type its place does not admit (or wrong by itself) at any depth, a wrong statement "
            "in any block, a second declaration, a use before the declaration or outside the scope. The copy has to be rejected with "
            "one diagnostic on a line of the faulty construct, and nothing may run. Non-trivial: the base program has 8 lines or more.")
    profile = dict(depth=2, keep_err=60, nfunc=(0, 2), nmet=(0, 1), nuni=(0, 1), nrec=(0, 1), ntop=(2, 6), body=(1, 3),
                   igx=4, iguala=4, seiguala=2, escolha=3, opts=2, vecs=2, se=5, enquanto=3, para=3, steps=2500)

    def printed(self, items, style):
        p = Printer(style)
        for x in items:
            p.stmt(x)
        return p.text()

    # statements with a place for an expression, and its line
    FORMS = [("mostra %s", 0), ("zg = %s", 0), ("%s", 0), ("zn9: int = %s", 0), ("se %s == 1 entao\nfim", 0), ("zr.zx = %s", 0),
             ("func zn9(): int\n  mostra 1\n  retorna %s\nfim", 2), ("zl[0] = %s", 0), ("mostra [int: 1, %s]", 0),
             ("para i de 0..%s faca\nfim", 0), ("escolha %s:\ncaso 1:\n  mostra 1\nfim", 0), ("mostra zf(1,\n  %s)", 1),
             ("mostra iguala 1\n 1 => %s\n _ => 2\nfim", 1), ("zg += %s", 0), ("mostra 1 + %s", 0), ("mostra nao %s", 0),
             ("enquanto %s faca\n  quebra\nfim", 0), ("mostra %s :> texto", 0), ("mostra Zu::ZA(%s)", 0)]

    def alone(self, s):
        """Wrong expressions, each in a program of its own."""
        out = []
        for _ in range(24):
            e = s.pick(WRONG)
            f, off = s.pick(self.FORMS)
            if s.p(8) and e in FSTR_WRONG:
                f, off = "mostra f'a{%s}b'", 0
            n = PRELUDE.count("\n") + 1 + off
            out.append({"src": PRELUDE + f % e + "\n", "lo": n, "hi": n, "where": e})
        return {"base": PRELUDE, "alone": out}

    def gen(self, s, tier):
        if s.p(12):
            s.label("twins")
            return self.twins(s)
        if s.p(12):
            s.label("alone")
            return self.alone(s)
        g = Gen(s, **self.profile)
        prog = g.program()
        items = [N("raw", t=PRELUDE.rstrip("\n"))] + list(prog.items)
        self.printed(items, None)
        style = s if s.p(30) else None
        w = Walk(items)
        # other values that the rules admit
        n = 0
        for _ in range(s.rint(0, 4)):
            if not w.slots:
                break
            x = s.pick(w.slots)
            t = getattr(x.get(), "ty", None)
            v = s.pick(VALUES[t]) if x.exp == "num" and t in ("int", "real") else good(x.exp, s)
            if v is not None and not isinstance(x.get(), str) and x.what not in ("enquanto", "para"):
                x.set(N("raw", t=f"({v})" if ":>" in v else v, ty=x.get().ty))
                n += 1
        base = self.printed(items, None)
        w = Walk(items)
        kind = s.weighted([(6, "slot"), (4, "stmt"), (1, "again"), (1, "early"), (1, "late")])
        if kind == "slot" and not w.slots:
            kind = "stmt"
        lo = hi = None
        where = ""
        if kind == "slot":
            x = s.pick(w.slots)
            b = bad(x.exp, s, x.met)
            x.set(N("raw", t=b, ty="?"))
            where = f"{x.what}: {b} where {x.exp} is expected"
            text = self.printed(items, style)
            lo, hi = x.span()
        else:
            r = getattr(self, kind)(s, w)
            if r is None:
                kind = "stmt"
                r = self.stmt(s, w)
            body, i, t, off = r
            f = N("fault", t="\x01" + t)
            body.insert(i, f)
            where = f"{kind}: {t}"
            text = self.printed(items, style)
            lo = hi = text[:text.index("\x01")].count("\n") + off
            text = text.replace("\x01", "")
        s.label(kind)
        return {"base": base, "src": text, "lo": lo, "hi": hi, "where": where}

    def stmt(self, s, w):
        places = [p for p in w.places if not (p[7] and p[1] == 0)]     # not before the prelude
        tops = [p for p in places if p[7]]
        if tops and s.p(30):
            body, i, fn, loop, arm, outer, names, top = s.pick(tops)
            t, off = s.pick(TOP + ANYWHERE)
            return body, i, t, off
        body, i, fn, loop, arm, outer, names, top = s.pick(places)
        met = fn is not None and fn.kind == "met"
        if fn is not None and s.p(25) and not arm:
            if fn.ret is None:
                return body, i, s.pick(["retorna 1", "retorna nulo", "retorna zv(1)", "retorna zg"]), 1
            return body, i, s.pick(["retorna;", "retorna zv(1)", f"retorna {bad(fn.ret, s, met)}"]), 1
        while True:
            t, off = s.pick(ANYWHERE)
            if "retorna" in t and fn is not None:
                continue
            if loop and ("quebra" in t or "continua" in t):
                continue
            if "produz" in t and arm and t.startswith("produz"):
                continue
            if arm and "retorna" in t:
                continue
            return body, i, t, off

    def again(self, s, w):
        """A second declaration in the same scope."""
        c = [p for p in w.places if p[6] and not (p[7] and p[1] == 0)]
        if not c:
            return None
        body, i, fn, loop, arm, outer, names, top = s.pick(c)
        n = s.pick(sorted(names))
        return body, i, s.pick([f"{n}: int = 1", f"{n}: texto", f"zn1, {n}: real"]), 1

    def early(self, s, w):
        """A use before the declaration."""
        c = []
        for body, i, fn, loop, arm, outer, names, top in w.places:
            if top and i == 0:
                continue
            for st in body[i:]:
                if st.k == "decl":
                    n = st.sym.name
                    if n not in outer and n not in names:
                        c.append((body, i, n))
        if not c:
            return None
        body, i, n = s.pick(c)
        return body, i, s.pick([f"mostra {n}", f"zg = {n}", f"mostra f'{{{n}}}'", f"se {n} == {n} entao\nfim", f"{n} = {n}"]), 1

    def late(self, s, w):
        """A use after the scope has ended."""
        c = []
        for body, i, fn, loop, arm, outer, names, top in w.places:
            if i == 0 or (top and i == 1):
                continue
            st = body[i - 1]
            bs = []
            if st.k == "se":
                bs = [b for _, b in st.conds] + [st.other or []]
            elif st.k in ("enquanto", "para"):
                bs = [st.body]
                if st.k == "para" and st.sym.name not in outer and st.sym.name not in names:
                    c.append((body, i, st.sym.name))
            elif st.k == "escolha":
                bs = [b for _, b in st.cases] + [st.other or []]
            elif st.k == "func":
                bs = [st.sym.body]
                for p in st.sym.params:
                    if p.name not in outer and p.name not in names:
                        c.append((body, i, p.name))
            elif st.k == "seiguala":
                bs = [st.body, st.other or []]
                for n in sorted(w.binds(st.pat)):
                    if n not in outer and n not in names:
                        c.append((body, i, n))
            for b in bs:
                for d in b:
                    if d.k == "decl" and d.sym.name not in outer and d.sym.name not in names:
                        c.append((body, i, d.sym.name))
        if not c:
            return None
        body, i, n = s.pick(c)
        return body, i, s.pick([f"mostra {n}", f"zs = f'{{{n}}}'", f"se {n} == {n} entao\nfim", f"{n} = {n}"]), 1

    # ----------------------------------------------------------------- modules
    def twins(self, s):
        """Types of the same name from two modules are two types; the same one by two ways is one."""
        def module(extra):
            return ("registo T\n    x: int\nfim\nuniao U\n    A(int),\n    B\nfim\n" + extra +
                    "v: T = T(x: 1)\nfunc novo(): T\n    retorna v\nfim\nfunc nova(): U\n    retorna U::B\nfim\n"
                    "met T::k(alvo, o: T): T\n    retorna o\nfim\nfunc leva(o: T): int\n    retorna o.x\nfim\n"
                    "func traz(o: U): U\n    retorna o\nfim\n")

        files = {"m1.ama": module(""), "sub/m2.ama": module(s.pick(["", "", "kx: int = 1\n"])),
                 "m3.ama": 'usa "m1"\n', "m4.ama": 'usa "m1" => q\nusa "sub/m2" => w\n',
                 "m5.ama": s.pick(["", "# m5\n"]) + module("")}
        ways = {"p": 1, "r": 2, "u": 1, "d.q": 1, "d.w": 2, "y": 5, "": s.pick([0, 1, 2])}
        main = ['usa "m1" => p', 'usa "sub/m2" => r', 'usa "m3" => u', 'usa "m4" => d', 'usa "./m5" => y']
        if ways[""]:
            main.append('usa "%s"' % ("m1" if ways[""] == 1 else "sub/m2"))
        main = s.shuffle(main)
        if not ways[""]:
            main += module("").rstrip("\n").split("\n")

        def name(y):
            w = s.pick([k for k, m in ways.items() if m == y[0]])
            return w + "." if w else ""

        def base():
            return (s.pick(sorted(set(ways.values()))), s.pick("TTU"))

        def ty(d=2):
            k = s.weighted([(4, "base"), (d, "vec"), (d, "opt")])
            if k == "base":
                return base()
            i = ty(d - 1)
            return i if k == "opt" and is_opt(i) else (k, i)

        def show(t):
            return f"[{show(t[1])}]" if is_vec(t) else show(t[1]) + "?" if is_opt(t) else name(t) + t[1]

        def value(t, d=2):
            if is_vec(t):
                return f"[{show(t[1])}: {value(t[1])}]"
            if is_opt(t):
                return f"[{show(t)}: {s.pick(['nulo', value(t[1])])}][0]"
            if t[1] == "U":
                v = name(t) + "nova()"
                return f"{name(t)}traz({v})" if d and s.p(15) else v
            v = s.pick([name(t) + "v", name(t) + "novo()", name(t) + "T(x: 1)"])
            return f"{v}.k({value(t, d - 1)})" if d and s.p(15) else v

        def twin(t):
            if is_vec(t) or is_opt(t):
                return (t[0], twin(t[1]))
            return (s.pick(sorted(set(ways.values()) - {t[0]})), t[1])

        def use(i, e, t):
            """Lines, and which of them is the one that has a t where an e is expected."""
            k = s.pick(["decl", "assign", "arg", "ret", "field", "setf", "list", "anexa", "var", "arm", "leva", "opt", "item"])
            E = show(e)
            g, v = value(e), value(t)
            if k == "decl":
                return [f"x{i}: {E} = {v}"], 0
            if k == "assign":
                return [f"x{i}: {E} = {g}", f"x{i} = {v}"], 1
            if k == "arg":
                return [f"func f{i}(a: {E}): int", "    retorna 1", "fim", f"mostra f{i}({v})"], 3
            if k == "ret":
                return [f"func f{i}(): {E}", f"    retorna {v}", "fim"], 1
            if k == "field":
                return [f"registo R{i}", f"    a: {E}", "fim", f"x{i}: R{i} = R{i}(a: {v})"], 3
            if k == "setf":
                return [f"registo R{i}", f"    a: {E}", "fim", f"x{i}: R{i} = R{i}(a: {g})", f"x{i}.a = {v}"], 4
            if k == "list":
                return [f"x{i}: [{E}] = [{E}: {g}, {v}]"], 0
            if k == "item":
                return [f"x{i}: [{E}] = [{E}: {g}]", f"x{i}[0] = {v}"], 1
            if k == "anexa":
                return [f"x{i}: [{E}] = [{E}: {g}]", f"anexa(x{i}, {v})"], 1
            if k == "var":
                return [f"uniao W{i}", f"    A({E})", "fim", f"x{i}: W{i} = W{i}::A({v})"], 3
            if k == "arm":
                return [f"x{i}: {E} = iguala 1 1 => {g} _ => {v} fim"], 0
            if k == "opt" and not is_opt(e):
                return [f"x{i}: {E}? = {v}"], 0
            if k == "leva" and e[1] in ("T", "U"):
                return [f"x{i}: {'int' if e[1] == 'T' else show(e)} = {name(e)}{'leva' if e[1] == 'T' else 'traz'}({v})"], 0
            return [f"x{i}: {E} = nulo", f"x{i} = {v}"] if is_opt(e) else [f"x{i}: {E} = {v}"], 1 if is_opt(e) else 0

        lines = list(main)
        for i in range(s.rint(1, 5)):
            e = ty()
            lines += use(i, e, e)[0]
        e = ty()
        new, at = use(9, e, twin(e))
        bad = lines + new
        files_ = {k: v for k, v in files.items() if k != "prog.ama"}
        n = len(lines) + at + 1
        return {"base": "\n".join(lines) + "\n", "src": "\n".join(bad) + "\n", "lo": n, "hi": n, "where": "twins: " + new[at], "files": files_}

    # ---------------------------------------------------------------- checking
    def check(self, case, env):
        more = case.get("files", {})
        r = env.w.run({**more, "prog.ama": case["base"]}, "prog.ama", vm=False)
        if r.how != "ok" or r.err or r.out:
            return f"a well-typed program was not accepted\n{r.show()}\n--- program\n{case['base']}"
        for c in case.get("alone", [case]):
            head = self.faulty(c, more, env)
            if head:
                return head
        return None

    def faulty(self, case, more, env):
        r = env.w.run({**more, "prog.ama": case["src"]}, "prog.ama", vm=False)
        head = None
        if r.compiled:
            head = "an ill-typed program was accepted"
        elif r.crashed or r.timeout:
            head = "the compiler crashed or did not end"
        else:
            head = wrong(r, {**more, "prog.ama": case["src"]})
            if not head:
                d = parse(r.err)
                if d is None:
                    head = "no place given"
                elif not case["lo"] <= d.line <= case["hi"]:
                    head = f"the diagnostic is not about the faulty place, lines {case['lo']} to {case['hi']}"
        return head and f"{head}\nthe fault, at {case['lo']}..{case['hi']}: {case['where']}\n{r.show()}\n--- program\n{case['src']}"

    def nontrivial(self, case):
        if "alone" in case:
            return str(case["alone"])
        return case["src"] if "files" in case or case["base"].count("\n") >= PRELUDE.count("\n") + 8 else None

    def sample(self, case):
        if "alone" in case:
            return {"each after the declarations": [c["src"][len(PRELUDE):] for c in case["alone"]]}
        if "files" in case:
            return {"program": case["src"][:1200], "modules": sorted(case["files"]), "fault": case["where"], "lines": [case["lo"], case["hi"]]}
        return {"program": case["src"].split("\n", PRELUDE.count("\n"))[-1][:1200], "fault": case["where"],
                "lines": [case["lo"] - PRELUDE.count("\n"), case["hi"] - PRELUDE.count("\n")]}


PROP = C12()
