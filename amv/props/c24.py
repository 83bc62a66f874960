"""Functions with a result always return one."""
from ..diag import parse, wrong
from ..diff import compare
from ..engine import Property

PRE = """uniao U A(int), B, C(bool) fim
registo R
    x: int
fim
func nada()
    mostra 'nada'
fim
"""
# type -> (text of the k-th value, how the caller shows a call, what that prints)
TYPES = {
    "int": (lambda k: str(k), "{}", lambda k: str(k)),
    "texto": (lambda k: f"'r{k}'", "{}", lambda k: f"r{k}"),
    "bool": (lambda k: "verdadeiro" if k % 2 else "falso", "{}", lambda k: "verdadeiro" if k % 2 else "falso"),
    "real": (lambda k: f"{k}.5", "{}", lambda k: f"{k}.5"),
    "[int]": (lambda k: f"[int: {k}]", "{}[0]", lambda k: str(k)),
    "[int]?": (lambda k: f"[int: {k}]" if k % 3 else "nulo", "{}.valor_ou([int: 99])[0]", lambda k: str(k if k % 3 else 99)),
    "int?": (lambda k: str(k) if k % 3 else "nulo", "{}", lambda k: str(k) if k % 3 else "nulo"),
    "R": (lambda k: f"R(x: {k})", "{}.x", lambda k: str(k)),
    "R?": (lambda k: f"R(x: {k})" if k % 3 else "nulo", "({} == nulo)", lambda k: "falso" if k % 3 else "verdadeiro"),
    "U": (lambda k: f"U::A({k})", "iguala {} U::A(n) => n, _ => 0-1 fim", lambda k: str(k)),
}
CONDS = [("a == 0", lambda v: v["a"] == 0), ("a > 1", lambda v: v["a"] > 1), ("b == 'x'", lambda v: v["b"] == "x"),
         ("a % 2 == 0", lambda v: v["a"] % 2 == 0), ("nao (b == 'y')", lambda v: v["b"] != "y"),
         ("o == nulo", lambda v: v["o"] is None), ("z", lambda v: v["z"]), ("z e (a == 1)", lambda v: v["z"] and v["a"] == 1),
         ("f2(a)", lambda v: v["a"] > 0)]
CONST = [("verdadeiro", lambda v: True), ("falso", lambda v: False), ("1 < 2", lambda v: True), ("2 == 1", lambda v: False),
         ("verdadeiro e verdadeiro", lambda v: True), ("nao falso", lambda v: True)]
UNI = [("U::A(_)", lambda x: x[0] == "A"), ("U::A(1)", lambda x: x == ("A", 1)), ("U::B", lambda x: x[0] == "B"),
       ("U::C(_)", lambda x: x[0] == "C"), ("U::C(q)", lambda x: x[0] == "C")]


class Ret(Exception):
    pass


class Quebra(Exception):
    pass


class Continua(Exception):
    pass


class TooLong(Exception):
    pass


class C24(Property):
    id = "C24"
    quick = 2500
    thorough = 150000
    technique = ("property-based testing: bodies of functions against an independent analysis of their paths, and a "
                 "model that runs them on every combination of small arguments")
    level_note = "Random bodies of nested statements to depth 4; up to 72 calls each."
    assumptions = ("Whether a body with conditions that are constant is accepted is left open; what is accepted must still return.",)
    rule = ("A case is a function or method with a result, of ten types, whose body nests conditionals, selections, matches, "
            "loops, jumps and returns. If some path of its control-flow graph misses a retorna, the program has to be rejected at the "
            "function, without running. If its statements return in the plain way, it has to be accepted. If it is accepted, "
            "calls with every combination of the arguments give the values and traces of the model. "
            "Non-trivial: the body has two branching statements or more.")

    def gen(self, s, tier):
        self.s, self.k, self.vars, self.marks, self.branches = s, 0, 0, 0, 0
        self.left = s.pick([4, 8, 16, 24])
        self.ty = s.pick(sorted(TYPES))
        self.p_ret = s.pick([30, 80, 95, 100])
        self.p_else = s.pick([60, 95])
        self.p_const = s.pick([0, 0, 0, 25])
        body = self.block(0, False, True)
        method = s.p(30)
        module = s.p(15)
        head = ("met R::f(alvo, " if method else "func f(") + "a: int, b: texto, o: int?, z: bool, u: U): " + self.ty
        top = PRE + "func f2(a: int): bool\n    retorna a > 0\nfim\n"
        lo = top.count("\n") + 1
        fn = head + "\n" + self.text(body, 1) + "fim\n"
        hi = lo + fn.count("\n") - 1
        calls, exp = [], []
        show, shown = TYPES[self.ty][1:]
        falls = False
        for a in range(3):
            for b in "xy":
                for o, z, (ut, uv) in (((None, "nulo"), True, ("U::A(1)", ("A", 1))), ((1, "1"), False, ("U::A(2)", ("A", 2))),
                                       ((1, "1"), True, ("U::B", ("B",))), ((None, "nulo"), False, ("U::C(verdadeiro)", ("C", True)))):
                    v = {"a": a, "b": b, "o": o[0], "z": z, "u": uv}
                    out, steps = [], [600]
                    try:
                        self.exec(body, v, out, steps)
                        falls = True
                        out = None
                    except Ret as e:
                        out.append(shown(e.args[0]))
                    except TooLong:
                        continue
                    args = f"({a}, '{b}', {o[1]}, {'verdadeiro' if z else 'falso'}, {ut})"
                    calls.append("mostra " + show.format(("r.f" if method else "f") + args))
                    if out is None:
                        exp = None
                    elif exp is not None:
                        exp += out
        main = "mostra 'começo'\nr: R = R(x: 1)\n" + "\n".join(calls) + "\n"
        files = {"prog.ama": 'usa "m"\n' + main, "m.ama": top + fn} if module else {"prog.ama": top + fn + main}
        for x in ("method" if method else "func", "module" if module else "one", self.ty):
            s.label(x)
        s.label("misses" if may_fall(body) else "plain" if plain(body) else "open")
        return {"files": files, "where": ["m.ama" if module else "prog.ama", lo, hi],
                "misses": may_fall(body), "plain": plain(body), "falls": falls,
                "expect": None if exp is None else "".join(x + "\n" for x in ["começo", *exp])}

    # ---- bodies
    def block(self, d, loop, root=False):
        s = self.s
        n = s.weighted([(2, 1), (3, 2), (1, 3)] + ([] if root else [(1, 0)]))
        out = [self.stmt(d, loop) for _ in range(n)]
        if s.p(15 if root else self.p_ret):
            out.append(("ret", self.next()))
            if s.p(8):
                out.append(self.stmt(d, loop))
        return out

    def next(self):
        self.k += 1
        return self.k

    def cond(self):
        s = self.s
        if s.p(self.p_const):
            return (*s.pick(CONST), True)
        return (*s.pick(CONDS), False)

    def stmt(self, d, loop):
        s = self.s
        self.left -= 1
        if d >= 4 or self.left < 0:
            return self.leaf(loop)
        k = s.weighted([(3, "leaf"), (5, "se"), (3, "escolha"), (3, "iguala"), (2, "seiguala"), (2, "enquanto"), (2, "para")])
        if k == "leaf":
            return self.leaf(loop)
        self.branches += 1
        b = lambda lp=loop: self.block(d + 1, lp)
        if k == "se":
            return ("se", [(self.cond(), b()) for _ in range(s.weighted([(4, 1), (3, 2), (1, 3)]))], b() if s.p(self.p_else) else None)
        if k == "escolha":
            what = s.pick(["a", "b"])
            vals = [0, 1, 2, 7] if what == "a" else ["x", "y", "q"]
            cases = [(s.pick(vals), b()) for _ in range(s.rint(0, 3))]
            return ("escolha", what, cases, b() if s.p(self.p_else) else None)
        if k == "iguala":
            w = s.pick(["u", "u", "a", "b", "z", "o"])
            arms = []
            none = lambda: None if s.p(10) else b()
            if w == "u":
                arms = [(*s.pick(UNI), none()) for _ in range(s.rint(0, 2))]
                if s.p(50):
                    rest = [("U::A(_)", UNI[0][1]), ("U::B", UNI[2][1]), ("U::C(_)", UNI[3][1])]
                    arms += [(*r, none()) for r in s.shuffle(rest)]
                else:
                    arms.append((s.pick(["_", "w"]), lambda x: True, none()))
            elif w == "a":
                arms = [(str(i), (lambda x, i=i: x == i), none()) for i in s.shuffle([0, 1, 2, 5])[:s.rint(0, 3)]]
                arms.append((s.pick(["_", "w"]), lambda x: True, none()))
            elif w == "b":
                arms = [(f"'{i}'", (lambda x, i=i: x == i), none()) for i in s.shuffle(["x", "y", "q"])[:s.rint(0, 2)]]
                arms.append((s.pick(["_", "w"]), lambda x: True, none()))
            elif w == "z":
                arms = [("_", lambda x: True, none())]
            else:
                w = "u"
                arms = [("U::A(1)", UNI[1][1], none()), ("_", lambda x: True, none())]
            return ("iguala", w, arms)
        if k == "seiguala":
            return ("seiguala", s.pick(UNI), b(), b() if s.p(self.p_else) else None)
        if k == "enquanto":
            if s.p(30 if not self.p_const else 60):
                return ("enquanto", ("verdadeiro", lambda v: True, True), self.block(d + 1, True), None)
            self.vars += 1
            return ("enquanto", None, self.block(d + 1, True), (f"i{self.vars}", s.rint(0, 2)))
        self.vars += 1
        lo, hi = s.pick([(0, 2), (0, 0), (1, 3), (2, 1), ("0", "a"), ("a", "2"), (0, "1 + 1")])
        return ("para", f"i{self.vars}", lo, hi, self.block(d + 1, True))

    def leaf(self, loop):
        s = self.s
        if loop and s.p(35):
            return (s.pick(["quebra", "continua"]),)
        if s.p(25):
            return ("ret", self.next())
        self.marks += 1
        return ("mostra", self.marks)

    # ---- text
    def text(self, body, d):
        return "".join(self.one(x, d) for x in body)

    def one(self, x, d):
        i = "    " * d
        k = x[0]
        t = lambda b: self.text(b, d + 1)
        if k == "ret":
            return f"{i}retorna {TYPES[self.ty][0](x[1])}\n"
        if k == "mostra":
            return f"{i}mostra 'm{x[1]}'\n"
        if k in ("quebra", "continua"):
            return f"{i}{k}\n"
        if k == "se":
            o = ""
            for n, (c, b) in enumerate(x[1]):
                o += f"{i}{'senaose' if n else 'se'} {c[0]} entao\n" + t(b)
            return o + (f"{i}senao\n" + t(x[2]) if x[2] is not None else "") + f"{i}fim\n"
        if k == "escolha":
            o = f"{i}escolha {x[1]}:\n"
            for v, b in x[2]:
                o += f"{i}caso {repr(v)}:\n" + t(b)
            return o + (f"{i}senao:\n" + t(x[3]) if x[3] is not None else "") + f"{i}fim\n"
        if k == "iguala":
            o = f"{i}iguala {x[1]}\n"
            for p, _, b in x[2]:
                o += f"{i}{p} => nada()\n" if b is None else f"{i}{p} => faca\n" + t(b) + f"{i}fim\n"
            return o + f"{i}fim\n"
        if k == "seiguala":
            return f"{i}se iguala u => {x[1][0]} entao\n" + t(x[2]) + (
                f"{i}senao\n" + t(x[3]) if x[3] is not None else "") + f"{i}fim\n"
        if k == "enquanto":
            if x[3] is None:
                return f"{i}enquanto {x[1][0]} faca\n" + t(x[2]) + f"{i}fim\n"
            v, n = x[3]
            return f"{i}{v}: int = 0\n{i}enquanto {v} < {n} faca\n{i}    {v} += 1\n" + t(x[2]) + f"{i}fim\n"
        return f"{i}para {x[1]} de {x[2]}..{x[3]} faca\n" + t(x[4]) + f"{i}fim\n"

    # ---- the model
    def exec(self, body, v, out, steps):
        for x in body:
            steps[0] -= 1
            if steps[0] < 0 or len(out) > 60:
                raise TooLong()
            k = x[0]
            if k == "ret":
                raise Ret(x[1])
            if k == "mostra":
                out.append(f"m{x[1]}")
            elif k == "quebra":
                raise Quebra()
            elif k == "continua":
                raise Continua()
            elif k == "se":
                for c, b in x[1]:
                    if c[1](v):
                        self.exec(b, v, out, steps)
                        break
                else:
                    self.exec(x[2] or [], v, out, steps)
            elif k == "escolha":
                for val, b in x[2]:
                    if v[x[1]] == val:
                        self.exec(b, v, out, steps)
                        break
                else:
                    self.exec(x[3] or [], v, out, steps)
            elif k == "iguala":
                for _, test, b in x[2]:
                    if test(v[x[1]]):
                        if b is None:
                            out.append("nada")
                        else:
                            self.exec(b, v, out, steps)
                        break
            elif k == "seiguala":
                self.exec(x[2] if x[1][1](v["u"]) else x[3] or [], v, out, steps)
            else:
                if k == "enquanto":
                    times = x[3][1] if x[3] else 10**9
                    b = x[2]
                else:
                    lo, hi = (eval(str(e), {}, {"a": v["a"]}) for e in (x[2], x[3]))
                    times, b = max(0, hi - lo), x[4]
                n = 0
                while n < times:
                    n += 1
                    steps[0] -= 1
                    if steps[0] < 0:
                        raise TooLong()
                    try:
                        self.exec(b, v, out, steps)
                    except Quebra:
                        break
                    except Continua:
                        pass

    def check(self, case, env):
        fs = case["files"]
        self.fate = None
        text = "\n".join(f"### {n}\n{t}" for n, t in fs.items())
        name, lo, hi = case["where"]
        r = env.w.run(fs, "prog.ama")
        self.fate = r.how
        if r.how == "rejected":
            w = wrong(r, fs)
            if w:
                return w + "\n" + r.show() + text
            if case["plain"]:
                return "a function that plainly returns is rejected\n" + r.show() + text
            d = parse(r.err)
            if "retorna" not in d.msg or d.file != name or not lo <= d.line <= hi:
                return f"rejected for another reason\n{r.show()}{text}"
            return None
        if case["misses"] or case["falls"]:
            return "a function that may end without a retorna is accepted\n" + r.show() + text
        w = compare(r, {"out": case["expect"], "error": None})
        return w and w + text

    def nontrivial(self, case):
        return str(case["files"]) if self.branches >= 2 else None

    def sample(self, case):
        return {"files": case["files"], "answer": self.fate}


def plain(body):
    """A statement of the block returns, in each of its branches."""
    return any(x[0] == "ret"
               or (x[0] == "se" and x[2] is not None and plain(x[2]) and all(plain(b) for _, b in x[1]))
               or (x[0] == "escolha" and x[3] is not None and plain(x[3]) and all(plain(b) for _, b in x[2]))
               or (x[0] == "iguala" and all(b is not None and plain(b) for *_, b in x[2]))
               or (x[0] == "seiguala" and x[3] is not None and plain(x[2]) and plain(x[3]))
               for x in body)


def may_fall(body):
    return "next" in ways(body)


def ways(body):
    """How control may leave a block: next, quebra, continua (returns are not
    listed).  Conditions may go both ways, except in 'enquanto verdadeiro' and
    for bounds of loops that are literals; constant conditions count as known."""
    out = set()
    for x in body:
        k = x[0]
        if k == "ret":
            return out
        if k in ("quebra", "continua"):
            return out | {k}
        if k == "mostra":
            continue
        if k == "se":
            w = set()
            for c, b in x[1]:
                if c[2] and not c[1](None):
                    continue
                w |= ways(b)
                if c[2]:
                    break
            else:
                w |= ways(x[2] or [])
        elif k == "escolha":
            w = ways(x[3] or [])
            for _, b in x[2]:
                w |= ways(b)
        elif k == "iguala":
            w = set()
            for *_, b in x[2]:
                w |= ways(b or [])
        elif k == "seiguala":
            w = ways(x[2]) | ways(x[3] or [])
        elif k == "enquanto":
            b = ways(x[2])
            w = {"next"} if "quebra" in b or x[3] is not None else set()
        else:
            b = ways(x[4])
            known = all(isinstance(e, int) for e in x[2:4])
            if known and x[2] < x[3]:
                w = {"next"} if b else set()
            else:
                w = {"next"}
        out |= w - {"next"}
        if "next" not in w:
            return out
    return out | {"next"}


PROP = C24()
