"""The lexer."""
from ..engine import Property
from ..lexref import OPS, WORDS, goes_on, lex
from ..mutate import SOUP
from .c13 import CHARS, PROP as FRONT

SPACE = [" ", " ", "  ", "\t", "\x0b", "\x0c", "\u00a0", "\u2003", "\u2028", "\x85", "\x1c"]
LETTERS = "abcefinosuxyzABZ_çãéñßπЖ日ª"
MORE = LETTERS + "0123456789\u0663\u00b2\u00bd"
TEXT = "ab c'\"\\n\n\n#{}çé日\U0001f600\u0301\t\x00;:=>/\\"
PAIRS = list(OPS)


class C15(Property):
    id = "C15"
    quick = 6000
    thorough = 400000
    needs_vm = False
    technique = ("property-based testing: token sequences printed with random layouts and lexed again, and "
                 "differential testing of random texts against a reference lexer")
    level_note = "Random token sequences of up to 60 tokens, 8 per case; random texts of up to 300 characters."
    assumptions = ("Tokens are read through Lexer.get_token of amanda/compiler/parse.py; columns are not part of the property.",)
    rule = ("A case is a batch of eight texts. Four are printed from a sequence of tokens of all kinds with a random "
            "layout (spaces of all kinds, comments, blank lines, or nothing between tokens that cannot merge), and "
            "lexing has to give that sequence, with kinds, values and lines; four are random characters, soups, or "
            "programs, damaged or not, and lexing has to give what the reference lexer gives, up to the end or the first error, with its "
            "line. Non-trivial: 10 tokens or more.")

    def gen(self, s, tier):
        ws, exps = [], []
        for _ in range(4):
            t, e = self.written(s)
            ws.append(t)
            exps.append(e)
        others = [getattr(self, s.pick(["chars", "ops", "soup", "source", "quotes", "words"]))(s) for _ in range(4)]
        return {"texts": ws + others, "expect": exps + [None] * len(others)}

    # ---- printed token sequences
    def token(self, s):
        """-> (text, [kind, value])"""
        k = s.weighted([(4, "op"), (3, "word"), (3, "id"), (2, "int"), (2, "real"), (3, "text"), (1, "ftext"),
                        (1, "almost")])
        if k == "op":
            w = s.pick(PAIRS)
            return w, [OPS[w], w]
        if k == "word":
            w = s.pick(sorted(WORDS))
            return w, [WORDS[w], w]
        if k == "almost":
            # a keyword with one more or one less letter, or other case
            w = s.pick(sorted(WORDS))
            w = s.pick([w + s.pick(MORE), s.pick(LETTERS) + w, w.upper(), w.capitalize(), w + s.pick(sorted(WORDS)),
                        w[:-1] or "q"])
            return w, [WORDS.get(w, "IDENTIFIER"), w]
        if k == "id":
            w = s.pick(LETTERS) + "".join(s.pick(MORE) for _ in range(s.weighted([(3, 0), (3, 2), (1, 12)])))
            return w, [WORDS.get(w, "IDENTIFIER"), w]
        if k == "int":
            v = s.pick([0, 7, 10, 123456789, 2**63 - 1, 2**63, 10**40, s.n(10**6)])
            w = "0" * s.pick([0, 0, 0, 1, 3]) + str(v)
            return w, ["INTEGER", v]
        if k == "real":
            a, b = str(s.pick([0, 1, 12, 10**20, s.n(10**6)])), s.pick(["0", "5", "25", "000001", "10", str(s.n(10**9))])
            return a + "." + b, ["REAL", float(a + "." + b)]
        q = s.pick("'\"")
        raw = v = ""
        for _ in range(s.weighted([(1, 0), (4, 4), (2, 12)])):
            c = s.pick(TEXT)
            if c == q or (c in "'\"" and s.p(30)):
                raw += "\\" + c
            elif c == "\\":
                # a backslash stands for itself before other characters
                raw += c + "z"
                c += "z"
            elif c == "\n" and s.p(50):
                raw += "\\n"
            else:
                raw += c
            v += c
        f = k == "ftext"
        return ("f" if f else "") + q + raw + q, ["FORMAT_STR" if f else "STRING", v]

    def glued(self, a, b):
        """Whether the texts of two tokens would not be two tokens."""
        if not a or not b:
            return False
        x, y = a[-1], b[0]
        text_a = x in "'\""
        if a[0].isdecimal() and x.isdecimal():
            return y.isdecimal() or (y == "." and a.isdecimal())
        if goes_on(x) and not text_a:
            return goes_on(y) or (a == "f" and y in "'\"")
        if text_a:
            return False
        return (x + y) in OPS or (a + y) in OPS

    def written(self, s):
        text, line, exp = "", 1, []
        last = ""
        for _ in range(s.rint(1, 60)):
            while True:
                k = s.weighted([(7, "none"), (12, "space"), (3, "line"), (1, "comment"), (1, "blank")])
                if k == "none":
                    break
                if k == "space":
                    text += s.pick(SPACE)
                    last = ""
                    if s.p(80):
                        break
                elif k == "comment":
                    text += "#" + "".join(s.pick(MORE + " #'\"{}\\/\t") for _ in range(s.n(8)))
                if k != "space":
                    for _ in range(1 if k != "blank" else s.rint(2, 4)):
                        exp.append(["NEWLINE", "\\n", line])
                        line += 1
                        text += "\n"
                    last = ""
            w, e = self.token(s)
            if self.glued(last, w):
                text += s.pick(SPACE)
            exp.append([*e, line])
            text += w
            line += w.count("\n")
            last = w
        end = s.pick(["", "\n", " ", " \n", "\n\n", "#x", " # x\n", "\n  "])
        lines = end.count("\n")
        for i in range(lines - end.endswith("\n")):
            exp.append(["NEWLINE", "\\n", line])
            line += 1
        exp.append(["EOF", None, line])
        return text + end, exp

    # ---- texts
    def chars(self, s):
        return "".join(s.pick(CHARS) for _ in range(s.rint(0, 60)))

    def ops(self, s):
        return "".join(s.pick("..::>=<!+-*/%@@?()[]{},;= \n1\\n&$") for _ in range(s.rint(0, 40)))

    def words(self, s):
        ks = sorted(WORDS) + ["F", "ff", "f_", "_f", "r", "b", "u", "1f", "ef"]
        return "".join(s.pick(ks) + s.pick(["", "", " ", "\n", "_", "1", "f", "é", ".", "'a'", "f'a'"])
                       for _ in range(s.rint(0, 30)))

    def quotes(self, s):
        return "".join(s.pick("'\"\\nf{}#\nab1. ") for _ in range(s.rint(0, 40)))

    def soup(self, s):
        return "".join(s.pick(SOUP) + s.pick(["", "", " ", "\n"]) for _ in range(s.rint(1, 60)))

    def source(self, s):
        return s.pick([FRONT.real, FRONT.damaged])(s)

    def check(self, case, env):
        r = env.w.call("lex", case["texts"])
        if r.timeout:
            return "the lexer did not end\n" + repr(case["texts"])
        if r.value is None or r.value[0] != "ok":
            return f"the lexer crashed: {r.value}\n{case['texts']!r}"
        for text, exp, got in zip(case["texts"], case["expect"], r.value[1]):
            want = exp if exp is not None else lex(text)
            if got == want and all(type(a[1]) is type(b[1]) for a, b in zip(got, want)):
                continue
            for i in range(max(len(got), len(want))):
                a, b = (x[i] if i < len(x) else None for x in (got, want))
                if a != b or type(a[1]) is not type(b[1]):
                    return f"token {i} is {a}; expected {b}\n--- text\n{text}\n--- as\n{text!r}"
        return None

    def nontrivial(self, case):
        return str(case["texts"]) if sum(len(e or "") for e in case["expect"]) >= 10 else None

    def sample(self, case):
        return {"texts": [t[:200] for t in case["texts"][:2] + case["texts"][4:6]]}


PROP = C15()
