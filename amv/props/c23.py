"""Built-in and mathematics functions."""
import math
import re
from decimal import ROUND_HALF_UP, Decimal

from ..diff import rt_message
from ..engine import Property
from ..lexref import WORDS
from ..ref import E_NEG, default, e_index, graphemes, parse_int, parse_real, show, to_i64
from ..ref import show_real

TEXTS = ["", "a", "olá", "x y", "ab" * 5, "ção", "e\u0301a", "日本", "\U0001f468\u200d\U0001f469\u200d\U0001f467", "\U0001f1e6\U0001f1f4", "{x}", "'", '"',
         "a\nb", "7", "-3", "2.5", "verdadeiro", "nulo", "\t", " ", "abcabc", "# x"]
LINES = ["", "a", "olá mundo", " ", "  x  ", "12", "-7", "+5", "007", "9223372036854775807", "-9223372036854775808", "2.5", "-0.0", ".5",
         "5.", "1e3", "1E-2", "inf", "nan", "é\u0301", "日本\U0001f600", "'", '"aspas"', "\\n", "# nao", "{x}", "a\tb", "0"]
BAD_INT = ["", "x", "1.5", " 1", "1 ", "9223372036854775808", "--1", "+", "-", "1_000", "0x10", "٣", "1e3", "\t2"]
BAD_REAL = ["", "x", "1,5", " 1.0", "1.5 ", ".", "e5", "1e", "--1", "+-1", "0x1", "1_0.0", "infinit"]
REALS = [0.0, 0.5, 1.0, 1.5, 2.0, 2.5, 3.0, 0.1, 10.0, 100.0, 7.25, 1e15, 123456789.125, 0.0001, 4503599627370497.5,
         9007199254740993.0, 9223372036854775807.0, 9223372036854774784.0, 1e19, 1e300, 0.49999999999999994, 3.141592653589793,
         1.5707963267948966, 6.283185307179586, 45.0, 90.0, 180.0, 2.718281828459045, 1e-300]
INTS = [0, 1, 2, 3, 7, 10, 16, 45, 90, 180, 1000, 2**31, 2**53 + 1, 2**63 - 1]
E_LEIA = {"int": "Valor introduzido não é um inteiro válido", "real": "Valor introduzido não é um número real válido"}
E_UTF = "Não foi possível ler o valor introduzido"
E_DIM = "Dimensões de um vector devem ser especificidas por números inteiros positivos"


def fl(f, *a):
    try:
        return f(*a)
    except ValueError:
        return math.nan
    except OverflowError:
        return math.inf


def powf(x, y):
    try:
        return math.pow(x, y)
    except OverflowError:
        return -math.inf if x < 0 and y % 2 == 1 else math.inf
    except ValueError:
        if x == 0:
            return -math.inf if math.copysign(1, x) < 0 and y % 2 == 1 else math.inf
        return math.nan


def ln(x):
    if math.isnan(x) or x < 0:
        return math.nan
    return -math.inf if x == 0 else math.inf if math.isinf(x) else math.log(x)


def div(a, b):
    if math.isnan(a) or math.isnan(b):
        return math.nan
    if b == 0:
        return math.nan if a == 0 else math.copysign(math.inf, a) * math.copysign(1, b)
    return a / b


def half_up(x):
    if not math.isfinite(x):
        return x
    return float(Decimal(x).to_integral_value(ROUND_HALF_UP))


def whole(f):
    return lambda x: to_i64(float(f(x)) if math.isfinite(x) else x)


# name -> (number of arguments, exact, function)
MATH = {
    "abs": (1, True, abs),
    "raizqd": (1, True, lambda x: fl(math.sqrt, x)),
    "expoente": (2, False, powf),
    "arredonda": (1, True, lambda x: to_i64(half_up(x))),
    "piso": (1, True, whole(math.floor)),
    "teto": (1, True, whole(math.ceil)),
    "sen": (1, False, lambda x: fl(math.sin, x)),
    "cos": (1, False, lambda x: fl(math.cos, x)),
    "tan": (1, False, lambda x: fl(math.tan, x)),
    "log": (2, False, lambda x, b: div(ln(x), ln(b))),
    "grausprad": (1, False, lambda x: x * (math.pi / 180)),
    "radpgraus": (1, False, lambda x: x * (180 / math.pi)),
}


class Stop(Exception):
    pass


class C23(Property):
    id = "C23"
    quick = 8000
    thorough = 250000
    technique = ("property-based testing: random programs of calls, with random input, against a model of the standard "
                 "modules in Python")
    level_note = "Up to 14 calls per program; arguments from edge values and random ones."
    assumptions = ("Trigonometric, power and logarithm results may differ by a relative 1e-9 from Python's.",
                   "Lines of the input end in a line feed; a carriage return is not part of the generated input.")
    rule = ("A case is a program that calls the built-in functions (input, output, texts, vectors) and those of the module 'mat' "
            "with random arguments, in random contexts, and the input that it reads. Output up to the end, or up to the documented error, "
            "exit status and error have to be those of the model, which knows each result, its dynamic type, each prompt and each consumed line. "
            "Non-trivial: three calls or more ran.")

    def gen(self, s, tier):
        self.s = s
        self.src, self.out, self.inp = [], [], []
        self.n = self.calls = 0
        self.error = None
        self.mode = s.pick(["global", "alias", "items", None])
        self.uses = []
        if self.mode:
            self.uses = [{"global": 'usa "mat"', "alias": 'usa "mat" => m',
                          "items": "usa 'mat' => [" + ", ".join([*MATH, "PI"]) + "]"}[self.mode]]
        self.eof = s.p(20)
        self.ended = False
        ks = [(4, self.read), (2, self.write), (2, self.text), (2, self.vec), (2, self.vector)] + (
            [(5, self.math), (1, self.pi)] if self.mode else [])
        k = s.weighted([(2, None), (1, "io"), (1, "math")])
        if k == "io":
            ks = [(5, self.read), (3, self.write), (1, self.text)]
        elif k == "math" and self.mode:
            ks = [(5, self.math), (1, self.pi)]
        try:
            for _ in range(s.rint(2, 14)):
                s.weighted(ks)()
        except Stop:
            pass
        inp = b"".join(self.inp)
        if self.error is None and not self.ended and s.p(30):
            inp += "resto\n".encode()
        elif inp.endswith(b"\n") and s.p(50) and not self.inp[-1] == b"\n":
            # the last line need not be ended
            inp = inp[:-1]
        return {"src": "\n".join(self.uses + self.src) + "\n", "stdin": inp, "pieces": self.out, "error": self.error,
                "calls": self.calls}

    def name(self):
        self.n += 1
        return f"v{self.n}"

    def put(self, *lines):
        self.src += lines

    def fail(self, msg):
        self.error = msg
        if self.s.p(50):
            self.put("mostra 'depois'")
        raise Stop()

    def lit(self, v):
        """The text of a value."""
        t = type(v)
        if t is bool:
            return "verdadeiro" if v else "falso"
        if t is int:
            return str(v) if v >= 0 else f"-{-v}" if v > -2**63 else "(-9223372036854775807 - 1)"
        if t is float:
            x = show_real(abs(v))
            return ("-" if math.copysign(1, v) < 0 else "") + x
        if v is None:
            return "nulo"
        q = self.s.pick("'\"")
        return q + v.replace(q, "\\" + q).replace("\n", "\\n") + q

    # ---- input
    def prompt(self):
        t = self.s.pick(["", "> ", "nome: ", *TEXTS])
        self.out.append(t)
        return self.lit(t)

    def line(self, kind):
        """The line that the next read gets; appends it to the input.  -> text, or None at the end of the input"""
        s = self.s
        if self.eof and s.p(30):
            self.ended = True
        if self.ended:
            return ""
        if s.p(3):
            self.inp.append(s.pick([b"\xff\n", b"a\xc3\n", b"\xed\xa0\x80\n"]))
            return None
        if kind == "texto" or s.p(4):
            t = s.pick(LINES)
        elif kind == "int":
            t = s.pick(BAD_INT) if s.p(8) else s.pick(["0", "1", "-1", "12", "+5", "007", "9223372036854775807", "-9223372036854775808",
                                                       str(s.n(10**6)), "-" + str(s.n(10**6))])
        else:
            t = s.pick(BAD_REAL) if s.p(8) else s.pick(["0", "1", "-1.5", "2.50", ".5", "5.", "1e3", "1E-2", "inf", "-nan", "+0.1",
                                                        str(s.n(10**6) / 1000), "1e400", "-0"])
        self.inp.append(t.encode() + b"\n")
        return t

    def take(self, kind):
        """One read: -> value, or stops with the error"""
        self.calls += 1
        t = self.line(kind)
        if t is None:
            self.fail(E_UTF)
        if kind == "texto":
            return t
        v = (parse_int if kind == "int" else parse_real)(t)
        if v is None:
            self.fail(E_LEIA[kind])
        return v

    def read(self):
        s = self.s
        kind = s.pick(["texto", "int", "real"])
        fn = {"texto": "leia", "int": "leia_int", "real": "leia_real"}[kind]
        form = s.pick(["decl", "mostra", "stmt", "fstr", "loop", "func", "args", "assign", "promote", "vec", "cond"])
        if form == "decl":
            v = self.name()
            p = self.prompt()
            self.put(f"{v}: {kind} = {fn}({p})", f"mostra {v}")
            self.out.append(show(self.take(kind)) + "\n")
        elif form == "mostra":
            self.put(f"mostra {fn}({self.prompt()})")
            self.out.append(show(self.take(kind)) + "\n")
        elif form == "stmt":
            self.put(f"{fn}({self.prompt()})")
            self.take(kind)
        elif form == "fstr":
            a, b = ("'" + s.pick(["", "a", "b: ", "é"]) + "'" for _ in range(2))
            self.put(f'mostra f"<{{{fn}({a})}}|{{{fn}({b})}}>"')
            self.out.append(a[1:-1])
            x = self.take(kind)
            self.out.append(b[1:-1])
            y = self.take(kind)
            self.out.append(f"<{show(x)}|{show(y)}>\n")
        elif form == "loop":
            n, v, i = s.rint(0, 4), self.name(), self.name()
            p = s.pick(["", "? "])
            self.put(f"para {i} de 0..{n} faca", f"    mostra {fn}('{p}')", "fim")
            for _ in range(n):
                self.out.append(p)
                self.out.append(show(self.take(kind)) + "\n")
        elif form == "func":
            f = self.name()
            p = self.prompt()
            self.put(f"func {f}(p: texto): {kind}", "    escreva('[')", f"    retorna {fn}(p)", "fim", f"mostra {f}({p})")
            self.out.insert(-1, "[")
            self.out.append(show(self.take(kind)) + "\n")
        elif form == "args":
            f = self.name()
            self.put(f"func {f}(a: {kind}, b: {kind})", "    mostra b", "    mostra a", "fim", f"{f}({fn}('1'), {fn}('2'))")
            self.out.append("1")
            x = self.take(kind)
            self.out.append("2")
            y = self.take(kind)
            self.out.append(show(y) + "\n" + show(x) + "\n")
        elif form == "assign":
            v = self.name()
            p = self.prompt()
            self.put(f"{v}: {kind}", f"{v} = {fn}({p})", f"mostra {v} == {v}", f"mostra {v}")
            x = self.take(kind)
            self.out.append(show(x == x) + "\n" + show(x) + "\n")
        elif form == "promote":
            v = self.name()
            p = self.prompt()
            self.put(f"{v}: real = leia_int({p})", f"mostra {v}")
            self.out.append(show(float(self.take("int"))) + "\n")
        elif form == "vec":
            v = self.name()
            self.put(f"{v}: [{kind}] = [{kind}: {fn}('a'), {fn}('b'), {fn}('')]", f"mostra {v}")
            self.out.append("a")
            x = self.take(kind)
            self.out.append("b")
            y = self.take(kind)
            z = self.take(kind)
            self.out.append(show([x, y, z]) + "\n")
        else:
            self.put(f"se tam(leia('')) > 0 entao", "    mostra 'sim'", "senao", "    mostra 'nao'", "fim")
            self.out.append("sim\n" if self.take("texto") else "nao\n")

    # ---- output
    def value(self):
        s = self.s
        k = s.pick(["int", "real", "bool", "texto", "vec", "opt", "vv"])
        if k in ("int", "real", "bool", "texto"):
            v = self.scalar(k)
            return v, self.lit(v)
        if k == "vec":
            t = s.pick(["int", "real", "bool", "texto"])
            v = [self.scalar(t) for _ in range(s.rint(0, 3))]
            return v, f"[{t}: " + ", ".join(map(self.lit, v)) + "]"
        if k == "vv":
            v = [[s.n(9) for _ in range(s.n(3))] for _ in range(s.n(3))]
            return v, "[[int]: " + ", ".join("[int: " + ", ".join(map(str, x)) + "]" for x in v) + "]"
        n = self.name()
        v = s.pick([None, 3, -1])
        self.put(f"{n}: int? = {self.lit(v)}")
        return v, n

    def scalar(self, t):
        s = self.s
        if t == "int":
            return s.pick([*INTS, -1, -2**63, s.n(1000)])
        if t == "real":
            return s.pick(REALS) * s.pick([1, 1, -1])
        return s.p(50) if t == "bool" else s.pick(TEXTS)

    def write(self):
        s = self.s
        self.calls += 1
        v, t = self.value()
        k = s.pick(["escreva", "escrevaln", "mostra", "each"])
        if k == "mostra":
            self.put(f"mostra {t}")
            self.out.append(show(v) + "\n")
        elif k == "each":
            n, i = s.rint(0, 4), self.name()
            self.put(f"para {i} de 0..{n} faca", f"    escreva({i})", f"    escreva({t})", "fim", "escrevaln('')")
            self.out.append("".join(f"{j}{show(v)}" for j in range(n)) + "\n")
        else:
            self.put(f"{k}({t})")
            self.out.append(show(v) + ("\n" if k == "escrevaln" else ""))

    # ---- texts
    def text(self):
        s = self.s
        self.calls += 1
        if s.p(50):
            t = s.pick(TEXTS) + s.pick(["", *TEXTS])
            n = len(graphemes(t))
            k = s.n(3)
            if k == 0:
                self.put(f"mostra tam({self.lit(t)})")
            elif k == 1:
                v = self.name()
                self.put(f"{v}: texto = {self.lit(t)}", f"mostra tam({v})")
            else:
                # an int, also in the way it computes
                self.put(f"mostra (tam({self.lit(t)}) * 2 + 1) // 2")
            self.out.append(show(n) + "\n")
        else:
            a = s.pick(TEXTS) + s.pick(TEXTS)
            i, j = sorted((s.n(len(a) + 1), s.n(len(a) + 1)))
            b = s.pick([a, a[i:j], a[i:], s.pick(TEXTS), a + "x", a.upper()])
            self.put(f"mostra txt_contem({self.lit(a)}, {self.lit(b)})")
            self.out.append(show(b in a) + "\n")

    # ---- vectors
    def vec(self):
        s = self.s
        self.calls += 1
        t = s.pick(["int", "real", "bool", "texto"])
        dims = [s.pick([0, 1, 2, 3, 5, 2, 1]) for _ in range(s.weighted([(3, 1), (3, 2), (1, 3), (1, 4)]))]
        if s.p(6):
            dims[s.n(len(dims))] = -s.rint(1, 3)
        v = self.name()
        ty = "[" * len(dims) + t + "]" * len(dims)
        self.put(f"{v}: {ty} = vec({t}, {', '.join(map(str, dims))})", f"mostra {v}", f"mostra tam({v})")
        if min(dims) < 0:
            self.fail(E_DIM)

        def mk(d):
            return [mk(d[1:]) if len(d) > 1 else default(t) for _ in range(d[0])]
        x = mk(dims)
        self.out.append(f"{show(x)}\n{len(x)}\n")
        if len(dims) > 1 and dims[0] > 1 and dims[-1] > 0 and len(dims) == 2:
            # rows are separate
            i = s.n(dims[0])
            e = self.scalar(t)
            self.put(f"{v}[{i}][0] = {self.lit(e)}", f"mostra {v}")
            x[i][0] = e
            self.out.append(show(x) + "\n")

    def vector(self):
        s = self.s
        t = s.pick(["int", "real", "bool", "texto"])
        v = self.name()
        x = [self.scalar(t) for _ in range(s.rint(0, 4))]
        self.put(f"{v}: [{t}] = [{t}: " + ", ".join(map(self.lit, x)) + "]")
        other = None
        for _ in range(s.rint(1, 6)):
            self.calls += 1
            k = s.pick(["anexa", "anexa", "remova", "tam", "alias", "mostra", "get"])
            w = other if other and s.p(50) else v
            if k == "anexa":
                e = self.scalar(t)
                if t == "real" and s.p(30):
                    e = self.scalar("int")
                self.put(f"anexa({w}, {self.lit(e)})")
                x.append(float(e) if t == "real" else e)
            elif k in ("remova", "get"):
                i = s.n(len(x) + 1) if s.p(10) else -1 if s.p(4) else s.n(max(1, len(x)))
                if k == "remova" and s.p(30):
                    self.put(f"remova({w}, {i})")
                    show_it = False
                else:
                    self.put(f"mostra remova({w}, {i})" if k == "remova" else f"mostra {w}[{i}]")
                    show_it = True
                if i < 0:
                    self.fail(E_NEG)
                if i >= len(x):
                    self.fail(e_index(len(x), i))
                e = x.pop(i) if k == "remova" else x[i]
                if show_it:
                    self.out.append(show(e) + "\n")
            elif k == "tam":
                self.put(f"mostra tam({w})")
                self.out.append(f"{len(x)}\n")
            elif k == "alias":
                other = self.name()
                self.put(f"{other}: [{t}] = {v}")
            else:
                self.put(f"mostra {w}")
                self.out.append(show(x) + "\n")

    # ---- mathematics
    def arg(self):
        s = self.s
        k = s.pick(["int", "real", "real", "rand", "small"])
        if k == "int":
            v = s.pick(INTS) * s.pick([1, -1])
        elif k == "real":
            v = s.pick(REALS) * s.pick([1, 1, -1])
        elif k == "rand":
            v = (s.n(2 * 10**9) - 10**9) / s.pick([1.0, 2.0, 7.0, 1e3, 1e6])
        else:
            v = (s.n(41) - 20) / 4.0
        t = self.lit(v)
        if s.p(25):
            n = self.name()
            self.put(f"{n}: {'int' if type(v) is int else 'real'} = {t}")
            t = n
        return float(v), t

    def math(self):
        s = self.s
        self.calls += 1
        fn = s.pick(sorted(MATH))
        n, exact, f = MATH[fn]
        args = [self.arg() for _ in range(n)]
        r = f(*(a for a, _ in args))
        call = ("m." if self.mode == "alias" else "") + f"{fn}({', '.join(t for _, t in args)})"
        kind = "int" if type(r) is int else "real"
        form = s.pick(["mostra", "decl", "escreva", "fstr", "use", "vec"])
        piece = show(r) if exact else r
        if form == "mostra":
            self.put(f"mostra {call}")
        elif form == "decl":
            v = self.name()
            self.put(f"{v}: {kind} = {call}", f"mostra {v}")
        elif form == "escreva":
            self.put(f"escrevaln({call})")
        elif form == "fstr":
            if "'" in call or '"' in call:
                return
            self.put(f"mostra f'{{{call}}}'")
        elif form == "vec":
            self.put(f"mostra [{kind}: {call}]")
            self.out += ["[", piece, "]\n"]
            return
        else:
            # the dynamic type is the declared one
            if kind == "int":
                big = r if abs(r) < 2**62 else 0
                if big == 0 and r != 0:
                    self.put(f"mostra {call} == {self.lit(r)}")
                    self.out.append("verdadeiro\n")
                    return
                self.put(f"mostra ({call} * 2 + 1) % 2 == {(-1 if r < 0 else 1)}")
                self.out.append("verdadeiro\n")
                return
            self.put(f"mostra 0 * {call} == 0")
            self.out.append(show(0 * r == 0) + "\n")
            return
        self.out += [piece, "\n"]

    def pi(self):
        self.put("mostra " + ("m." if self.mode == "alias" else "") + "PI")
        self.out.append(show(math.pi) + "\n")

    # ---- the check
    def check(self, case, env):
        r = env.w.run(case["src"], stdin=case["stdin"])
        w = None
        if r.how in ("timeout", "crash", "rejected"):
            w = r.how
        if w is None:
            w = self.output(r.out, case["pieces"])
        if w is None:
            if case["error"] is None:
                if r.rc != 0 or r.err:
                    w = "the program stopped with an error; expected a normal end"
            else:
                m = rt_message(r.err)
                if r.rc != 1 or m is None or m[1] != case["error"]:
                    w = f"expected the error: {case['error']}"
        return w and f"{w}\n{r.show(3000)}\n--- stdin\n{case['stdin']!r}\n--- program\n{case['src']}"

    def output(self, out, pieces):
        i = 0
        for p in pieces:
            if type(p) is str:
                if out[i:i + len(p)] != p:
                    return f"wrong output at character {i}: {out[i:i + len(p) + 20]!r}; expected {p!r}"
                i += len(p)
            else:
                m = re.compile(r"-?(?:\d+\.\d+|inf|NaN)").match(out, i)
                if not m:
                    return f"wrong output at character {i}: {out[i:i + 40]!r}; expected about {p!r}"
                g = float(m[0])
                if not (g == p or (math.isnan(g) and math.isnan(p)) or abs(g - p) <= 1e-9 * abs(p) + 1e-300):
                    return f"the result is {m[0]}; expected about {p!r}"
                i = m.end()
        return None if i == len(out) else f"more output: {out[i:]!r}"

    def nontrivial(self, case):
        return case["src"] + repr(case["stdin"]) if case["calls"] >= 3 else None

    def sample(self, case):
        return {"program": case["src"][:1500], "stdin": repr(case["stdin"]), "error": case["error"]}


PROP = C23()
