"""Only the programs of the grammar are accepted."""
from ..engine import Property
from ..gen import Gen
from ..lexref import OPS, WORDS, lex
from ..mutate import mutate
from ..parseref import Bad, Unsure, parse
from ..textred import reduce_files
from ..tree import TreeGen, write
from .c16 import where

VALUES = ["x", "int", "7", "2.5", "'t'", "f'{x}'", "f't'", "f'{x'", "f'{}'", "f'{f\"a\"}'", "f'{x y}'"]
# grammar phrases that go on where another has ended
PHRASES = [":> int", ": int", ", x", "= x", "=> x", "(x)", "(x,)", "[x]", "[int: x]", "[int]", ". x", ":: x", "- x", "== x", "e x",
           "< x", "inc x", ".. x", "senao", "senao : x", "senaose x entao", "caso x :", "entao", "faca", "fim", "x : int",
           "x => x", "_ => x", "x,", ", x : int", ", x : x", "\n x", "\n fim", "x\n", ";\n", "@x", "@@x", "usa 'x'", "usa 'x' => x",
           "usa 'x' => [x]", "func x() fim", "mostra x;", "retorna", "retorna;", "retorna x\n", "registo x fim",
           "uniao x x fim", "nativa x", ": vazio", "x()", "x(x: x)", "x::x(x)", "+= x", "-= x\n", "= x = x", "nao x", "?", "x?"]
ALL = sorted(OPS) + sorted(WORDS) + VALUES + PHRASES + ["\n"]
PIECES = ["{", "}", "{{", "}}", "x", " ", "1", "+", "a.b", "f(1)", "(", ")", ":", "=", "\\n", "\\\"", "f'a'", ",", "{x}", "{ x }",
          "{a + 1}", "[0]", "#", ".", ";", "é", "nao", "fim", ":> int", "{x.y(1)}", "texto", "$"]


class OneText:
    """What reduce_files needs."""

    def __init__(self, prop):
        self.prop = prop

    def check(self, case, env):
        return self.prop.check({"texts": [case["files"]["prog.ama"]]}, env)


class C26(Property):
    id = "C26"
    quick = 5000
    thorough = 300000
    needs_vm = False
    technique = ("differential testing: generated programs with tokens added, changed, removed and moved, the real "
                 "parser against a reference parser (accepted or not, tree, line of the first wrong token)")
    level_note = "Token sequences of up to about 400 tokens; every kind of token at a random place of them."
    assumptions = ("Trees are read from the nodes that Parser.parse of amanda/compiler/parse.py returns. The reference "
                   "parser gives no answer for the few texts of which the description of the grammar does not say whether they are "
                   "programs (such as generic arguments without a comma, or targets in parentheses).")
    rule = ("A case is a batch of texts: a random syntax tree's or a generated program's text with each kind of token put "
            "at one random place, or in the place of the token there; or eight texts with one to three random "
            "tokens added, changed, removed, swapped or copied; or f-strings of random pieces. The parser has to accept the text, with "
            "the same tree, if the reference parser does, and to give an error in the line of the first token that "
            "no program goes on with, if it does not. Non-trivial: the batch has a text that is accepted and one that "
            "is not.")

    def gen(self, s, tier):
        k = s.weighted([(4, "each"), (4, "some"), (2, "damaged"), (1, "ftexts")])
        s.label(k)
        if k == "ftexts":
            return {"texts": [self.ftext(s) for _ in range(24)]}
        if k == "damaged":
            src = Gen(s, depth=3, nfunc=(0, 2), ntop=(1, 5), nrec=(0, 2), nuni=(0, 2), nmet=(0, 2), iguala=4, igx=4,
                      seiguala=2, escolha=3).program().source(s if s.p(30) else None)
            return {"texts": [src] + [mutate(src, s, 1) for _ in range(8)]}
        src = write(TreeGen(s, s.pick([1, 2, 3])).module(), s if s.p(60) else None)
        ts = pieces(src)
        if k == "each":
            i, put = s.n(len(ts) + 1), s.p(50)
            j = i + (0 if put else 1)
            return {"texts": [src] + ["".join(ts[:i]) + sep(t) + "".join(ts[j:]) for t in ALL]}
        return {"texts": [src] + [self.changed(ts, s) for _ in range(8)]}

    def changed(self, ts, s):
        ts = list(ts)
        for _ in range(s.weighted([(5, 1), (2, 2), (1, 3)])):
            i = s.n(len(ts) + 1)
            k = s.pick(["put", "change", "drop", "swap", "copy", "own"])
            if k == "put" or not ts or i == len(ts):
                ts.insert(i, sep(s.pick(ALL)))
            elif k == "change":
                ts[i] = sep(s.pick(ALL))
            elif k == "drop":
                del ts[i:i + s.pick([1, 1, 2, 4])]
            elif k == "swap":
                j = min(i + s.pick([1, 1, 2, 5]), len(ts) - 1)
                ts[i], ts[j] = sep(ts[j]), sep(ts[i])
            elif k == "copy":
                j = s.n(len(ts))
                ts[i:i] = [" "] + ts[j:j + s.rint(1, 6)] + [" "]
            else:
                # a token of the text at another place
                ts.insert(i, sep(s.pick(ts)))
        return "".join(ts)

    def ftext(self, s):
        t = "".join(s.pick(PIECES) for _ in range(s.rint(0, 8)))
        return f'mostra f"{t}"\n' if s.p(70) else f"zq = f'{t}'\nmostra 1"

    def check(self, case, env):
        r = env.w.call("trees", case["texts"])
        if r.timeout:
            return f"the parser did not end\n{case['texts']!r}"
        if r.value is None or r.value[0] != "ok":
            return f"the parser crashed: {r.value}\n{case['texts']!r}"
        for text, got in zip(case["texts"], r.value[1]):
            if got[0] == "deep":
                continue
            try:
                want = parse(text)
            except Unsure:
                continue
            except Bad as e:
                a, z = e.lines
                if got[0] != "error":
                    return f"accepted, with a wrong token in line {a}\n--- text\n{text}"
                if not a <= got[2] <= z:
                    return f"the first wrong token is in line {a}; the error is in line {got[2]}: {got[1]}\n--- text\n{text}"
                continue
            if got[0] == "error":
                return f"rejected: line {got[2]}: {got[1]}\n--- text\n{text}"
            if got != want:
                return f"another tree: {where(got, want)}\n--- text\n{text}"
        return None

    def nontrivial(self, case):
        good = bad = False
        for t in case["texts"][:6]:
            try:
                parse(t)
                good = True
            except Bad:
                bad = True
            except Unsure:
                pass
            if good and bad:
                return str(case["texts"])
        return None

    def reduce(self, choices, env, case, why, deadline):
        one = next((t for t in case["texts"] if self.check({"texts": [t]}, env)), None)
        if one is None:
            return case, why, 0
        got, why, n = reduce_files(OneText(self), env, {"files": {"prog.ama": one}}, self.check({"texts": [one]}, env),
                                   deadline, lambda w: w.split(" ")[0])
        return {"texts": [got["files"]["prog.ama"]]}, why, n

    def sample(self, case):
        return {"texts": [t[:300] for t in case["texts"][:3]]}


def sep(t):
    return " " + t.strip(" ") + " "


def pieces(text):
    """The tokens, each with the space before it."""
    spans, out, last = [], [], 0
    lex(text, spans)
    for a, b in spans:
        out.append(text[last:b])
        last = b
    return out + ([text[last:]] if text[last:].strip() else [])


PROP = C26()
