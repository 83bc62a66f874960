"""The front end answers every input."""
import os

from ..diag import wrong
from ..engine import REPO, Property
from ..gen import Gen
from ..multi import MultiGen
from ..mutate import SOUP, mutate, tokens
from ..textred import reduce_files
from .c08 import PROP as MATCH
from .c10 import C10, show

CHARS = "\n\n  '\"{}()[]:;,.=<>!+-*/%#@?_\\$&~^|`aefinosux0123456789\t\r\x00\x0b\x0c\x1c\x85\u2028\ufeff\u00b2\u0660½éç日\U0001f600\u0301\ud7ff\uffff"

def corpus():
    """The example programs of the repository."""
    out = []
    for base, ds, names in os.walk(REPO):
        ds[:] = sorted(d for d in ds if d not in (".git", "target", "node_modules"))
        for n in sorted(names):
            if n.endswith(".ama"):
                try:
                    with open(os.path.join(base, n), encoding="utf-8") as f:
                        out.append(f.read())
                except (OSError, UnicodeDecodeError):
                    pass
    return [t for t in out if len(t) < 6000]


class C13(Property):
    id = "C13"
    quick = 9000
    thorough = 600000
    technique = ("fuzzing: random characters, token soups, truncations and structured mutations of generated "
                 "and real programs, against the invariants of a front end's answer")
    level_note = "Texts up to about 20 kB."
    assumptions = ("Only the front end and the code generator run here; C11 runs what is accepted.",)
    rule = ("A case is a text (random characters or bytes, random tokens, a program cut at some token, or a "
            "program with one to three damages, alone or as a module). The compiler has to end with either "
            "bytecode and no message, or one diagnostic in the documented form that names a file of the "
            "program and quotes the line it gives, with no output, no bytecode, and no traceback. "
            "Non-trivial: the text has 3 tokens or more and is rejected, or is accepted.")
    profile = dict(depth=3, keep_err=25, nfunc=(0, 3), nmet=(0, 2), nuni=(0, 2), nrec=(0, 2), ntop=(2, 8),
                   igx=4, iguala=4, seiguala=2, escolha=3)

    def __init__(self):
        self._corpus = None

    def gen(self, s, tier):
        k = s.weighted([(1, "chars"), (2, "soup"), (2, "cut"), (6, "damaged"), (3, "real"), (2, "modules"),
                        (1, "bytes"), (1, "nested"), (2, "typed"), (4, "paths")])
        s.label(k)
        main = {"chars": self.chars, "soup": self.soup, "cut": self.cut, "damaged": self.damaged,
                "real": self.real, "bytes": self.bytes, "nested": self.nested, "typed": self.typed}
        if k == "modules":
            g = MultiGen(s, **C10.profile)
            g.modules(s.rint(2, 4))
            fs = g.sources()
            n = s.pick(sorted(fs))
            fs[n] = mutate(fs[n], s)
            if s.p(10):
                del fs[s.pick(sorted(x for x in fs if x != "prog.ama"))]
            return {"files": fs}
        if k == "paths":
            return {"files": self.paths(s)}
        t = main[k](s)
        if s.p(5):
            t = t.replace(b"\n", b"\r\n") if isinstance(t, bytes) else t.replace("\n", s.pick(["\r\n", "\r"]))
        if isinstance(t, str) and s.p(15):
            t = t.rstrip("\n")
        if s.p(8):
            return {"files": {"prog.ama": s.pick(['usa "m"', 'usa "m" => z', 'usa "m" => [a, b]']) + "\nmostra 1\n",
                              "m.ama": t}}
        return {"files": {"prog.ama": t}}

    def chars(self, s):
        return "".join(s.pick(CHARS) for _ in range(s.rint(0, 40)))

    def bytes(self, s):
        t = self.damaged(s).encode("utf-8", "surrogatepass")
        for _ in range(s.rint(1, 3)):
            i = s.n(len(t) + 1)
            t = t[:i] + bytes([s.pick([0, 0x80, 0xff, 0xc3, 0xed, 0xf0, 0xe2, s.n(256)])]) + t[i + s.n(2):]
        return t

    def soup(self, s):
        return "".join(s.pick(SOUP) + s.pick([" ", " ", " ", "\n", ""]) for _ in range(s.rint(1, 40)))

    def cut(self, s):
        t = tokens(self.program(s))
        return "".join(t[:s.n(len(t) + 1)]) + s.pick(["", "", "\n", " ", "  # x", "\n\n", " fim\n"])

    def program(self, s):
        if s.p(15):
            return MATCH.gen(s, "quick")["src"]
        return Gen(s, **self.profile).program().source(s if s.p(30) else None)

    def damaged(self, s):
        return mutate(self.program(s), s)

    def typed(self, s):
        """Names and literals changed for others, so that the syntax stays."""
        t = tokens(self.program(s))
        words = [x for x in t if x[0].isalnum() and x not in SOUP] or ["x"]
        for _ in range(s.rint(1, 4)):
            at = [i for i, x in enumerate(t) if x[0].isalnum() or x[0] in "'_"]
            if not at:
                break
            t[s.pick(at)] = s.pick(words) if s.p(70) else s.pick(
                ["nulo", "alvo", "'x'", "1", "2.5", "verdadeiro", "Opcao", "Lista", "int", "Vector", "indef", "_", "vec",
                 "[int: 1]", "f'{x}'", "x.y", "x::y", "valor", "-1", "texto", "vazio", "mat", "abs", "f()", "99999999999999999999",
                 "Inteiro", "iguala 1 _ => 2 fim", "nao x", "1 + 'a'", "x()", "x[0]", "(x)"])
        return "".join(t)

    def paths(self, s):
        """Names of modules and of what they have, everywhere, right and wrong."""
        m1 = "registo T\n    x: int\nfim\nuniao U\n    A(int),\n    B\nfim\nk: int = 1\nv: T = T(x: 1)\nl: [T] = [T: v]\no: T? = v\nw: U = U::A(1)\n" \
             "func f(a: int): T\n    retorna v\nfim\nfunc n()\n    mostra 1\nfim\nmet T::m(alvo, a: int): int\n    retorna a\nfim\n"
        files = {"m1.ama": m1, "m2.ama": s.pick(["usa 'm1' => q\n", "usa 'm1'\n", "usa 'm1' => [T, U, f, k]\n", ""]) + "z: int = 1\nregisto R\n    x: int\nfim\n"}
        t = ""
        # one name that may be wrong, or many
        one = s.p(50)
        for _ in range(0 if one else s.rint(1, 3)):
            t += "usa " + s.pick(["'m1' => a", "'m1'", "'m1' => [T, f]", "'m1' => [U, v, w]", "'m2' => b", "'m2'", "'m1' => T", "'m2' => [q]",
                                  "'m1' => [nada]", "'m2' => [T]", "'mat' => c", "'mat'", "'m1' => [n, n]"]) + "\n"
        if one:
            t = "usa 'm1' => a\nusa 'm2' => b\n" + s.pick(["", "usa 'm1' => [T]\n", "usa 'm1' => [U, v]\n"])
        left = [1 if one else 10 ** 9]
        heads = ["a", "b", "b.q", "q", "c", "", "", "T", "k", "a.T", "a.v", "a.f", "a.U", "zz", "nada", "alvo"]
        tails = ["T", "U", "k", "v", "l", "o", "w", "f", "n", "R", "z", "q", "m", "x", "nada", "pi", "abs", "A", "U::A", "U::B", "T::m", "a", "b", "c"]

        def path():
            left[0] -= 1
            if left[0] < 0:
                return s.pick(["a.v", "a.k", "a.o"])
            if one and s.p(70):
                return s.pick(["a", "a", "b", "a.v", "a.k", "a.T", "b.R"]) + "." + s.pick(tails)
            h, x = s.pick(heads), s.pick(tails)
            return (h + "." if h else "") + x

        def ty(d=1):
            if left[0] <= 0:
                return s.pick(["int", "a.T", "[a.T]", "texto"])
            k = s.n(8)
            if k == 0 and d:
                return "[" + ty(0) + "]"
            if k == 1 and d:
                return ty(0) + "?"
            return s.pick(["int", "indef", "texto"]) if k == 2 else path()

        def e(d=1):
            k = s.n(14)
            if d <= 0 or k < 5:
                return s.pick(["1", "'a'", "nulo", "verdadeiro"]) if k == 0 else path()
            if k == 5:
                return f"{path()}({', '.join(e(d - 1) for _ in range(s.n(3)))})"
            if k == 6:
                return f"{path()}(x: {e(d - 1)})"
            if k == 7:
                return f"[{ty()}: {e(d - 1)}]"
            if k == 8:
                return f"{e(d - 1)}.{s.pick(tails)}" + s.pick(["", "(1)", "()", ".x"])
            if k == 9:
                return f"{path()}[{e(d - 1)}]"
            if k == 10:
                return f"({e(d - 1)} {s.pick(['+', '==', 'e', '!='])} {e(d - 1)})"
            if k == 11:
                return f"({e(d - 1)} :> {ty()})"
            if k == 12:
                return s.pick([f"vec({ty()}, {e(d - 1)})", f"tam({e(d - 1)})", f"f'{{{path()}}}'", f"{path()}.valor_ou({e(d - 1)})", f"-{path()}"])
            return f"(iguala {e(d - 1)}\n    {path()}{s.pick(['', '(y)', '(1)', '(y, y)'])} => {e(d - 1)}\n    _ => {e(d - 1)}\nfim)"

        for i in range(1 if one else s.rint(1, 3)):
            k = s.n(13)
            t += [lambda: f"x{i}: {ty()} = {e()}", lambda: f"x{i}: {ty()}", lambda: f"{path()} = {e()}", lambda: f"mostra {e(2)}",
                  lambda: f"func g{i}(a1: {ty()}): {ty()}\n    retorna {e()}\nfim", lambda: f"registo S{i}\n    y: {ty()}\nfim",
                  lambda: f"uniao V{i}\n    C({ty()}),\n    D\nfim", lambda: f"met {path()}::h{i}(alvo): {ty()}\n    retorna alvo.{s.pick(tails)}\nfim",
                  lambda: f"{path()} += {e()}", lambda: f"se iguala {path()} => {path()}{s.pick(['', '(y)'])} entao\n    mostra {path()}\nfim",
                  lambda: f"{e(2)}", lambda: f"para {s.pick(['i', 'a', 'T'])} de {e()}..{e()} faca\n    mostra {path()}\nfim",
                  lambda: f"{s.pick(['a', 'b', 'T', 'f', 'm1', 'z'])}: int = {e()}"][k]() + "\n"
        files["prog.ama"] = t
        return files

    def real(self, s):
        if self._corpus is None:
            self._corpus = corpus()
        t = s.pick(self._corpus)
        k = s.n(10)
        if k == 0:
            return t
        if k < 3:
            x = tokens(t)
            return "".join(x[:s.n(len(x) + 1)])
        return mutate(t, s)

    def nested(self, s):
        n = s.pick([5, 40, 90, 150, 300, 1000])
        a, b, c = s.pick([("(", "1", ")"), ("-", "1", ""), ("se verdadeiro entao\n", "mostra 1\n", "fim\n"),
                          ("[int: ", "", "]"), ("1 + (", "2", ")"), ("f(", "1", ")"), ("nao ", "verdadeiro", ""),
                          ("iguala 1\n _ => ", "1", " fim"), ("func g()\n", "mostra 1\n", "fim\n"), ("x = ", "1", ""),
                          ("1 + ", "1", ""), ("enquanto falso faca\n", "", "fim\n"), ("", "x", ".y"), ("", "x", "[0]"),
                          ("", "x", "()"), ("x: ", "int", "\n"), ("[", "int", "]"), ("", "f", "(1)"),
                          ("escolha 1:\ncaso 1:\n", "mostra 1\n", "fim\n"), ("", "1", " == 1")])
        t = a * n + b + c * n
        pre = s.pick(["", "", "mostra ", "x: int = ", "y: ", "mostra vec(int, 1)", "met "])
        t = pre + t + "\n"
        return mutate(t, s, 1) if s.p(30) else t

    def check(self, case, env):
        fs = case["files"]
        self.fate = None
        r = env.w.run(fs, "prog.ama", vm=False, timeout=20)
        w = None
        if r.timeout:
            w = "the compiler did not end"
        elif r.crashed:
            w = "the compiler crashed"
        elif r.compiled:
            self.fate = "accepted"
            if r.out or r.err or r.rc != 0:
                w = "an accepted program, and a message"
        else:
            self.fate = "rejected"
            w = wrong(r, fs)
        return w and f"{w}\n{r.show(3000)}\n{show(fs)[:6000]}"

    def nontrivial(self, case):
        fs = case["files"]
        t = fs["prog.ama"]
        if self.fate == "accepted" or len(tokens(t if isinstance(t, str) else t.decode("latin-1"))) >= 3:
            return str(fs)
        return None

    def sample(self, case):
        return {"files": {k: str(v)[:1500] for k, v in case["files"].items()}, "answer": self.fate}

    def reduce(self, choices, env, case, why, deadline):
        return reduce_files(self, env, case, why, deadline)


PROP = C13()
