"""Structure through parsing."""
from ..engine import Property
from ..mutate import tokens
from ..tree import TreeGen, strip, write

MARKS = ["zq9", "9876543", "98.76543"]
EXTRA = MARKS + ["'zq9'", "f'{zq9}'", ": zq9", ", zq9", ". zq9", ":: zq9", "[zq9]", "(zq9)", "- zq9", "e zq9", "zq9 (", "zq9 :",
                 "zq9 ,", "= zq9", ":> zq9", "mostra", "retorna", "nao", "-", "+", "se", "quebra", "?", "\nzq9\n", "zq9;", "zq9\n",
                 "alvo", "nativa", "faca", "fim", "inc", "=>", "[", "]", "{", "}"]


class C16(Property):
    id = "C16"
    quick = 14000
    thorough = 300000
    needs_vm = False
    technique = ("property-based testing: round trip of random syntax trees through random texts of them, and the parser")
    level_note = "Untyped trees of up to 200 nodes; three random layouts and one fully parenthesised text of each."
    assumptions = ("Trees are read from the nodes that Parser.parse of amanda/compiler/parse.py returns.",)
    rule = ("A case is a syntax tree, of all kinds of statements, expressions, types and patterns, and four texts of it: "
            "one with all parentheses and one statement per line, and three with random redundant parentheses, "
            "line breaks, comments, spaces, indentation and separators. Parsing each text has to give the tree. "
            "One more token in the first text, at three places, makes it an error or another tree, that has the token's name or value. "
            "Non-trivial: the tree has two operators or more.")

    def gen(self, s, tier):
        t = TreeGen(s, s.pick([2, 3, 4, 5])).module()
        texts = [write(t, None)] + [write(t, s) for _ in range(3)]
        return {"tree": strip(t), "texts": texts + [self.more(texts[0], s) for _ in range(3)]}

    def more(self, text, s):
        """The text with one more token."""
        ts = tokens(text)
        ts.insert(s.n(len(ts) + 1), " " + s.pick(EXTRA) + " ")
        return "".join(ts)

    def check(self, case, env):
        r = env.w.call("trees", case["texts"])
        if r.timeout:
            return "the parser did not end\n" + case["texts"][0]
        if r.value is None or r.value[0] != "ok":
            return f"the parser crashed: {r.value}\n{case['texts']!r}"
        for i, (text, got) in enumerate(zip(case["texts"], r.value[1])):
            if i >= 4:
                if got[0] == "error":
                    continue
                if got == case["tree"]:
                    return f"text {i}, with one more token, is the same tree\n--- text\n{text}"
                for m in MARKS:
                    if m in text and m not in str(got):
                        return f"text {i} is accepted, and the tree lacks {m}\n--- text\n{text}"
                continue
            if got != case["tree"]:
                if got[0] == "error":
                    return f"text {i} of a tree is rejected: line {got[2]}: {got[1]}\n--- text\n{text}"
                return f"text {i} of a tree is another tree: {where(got, case['tree'])}\n--- text\n{text}"
        return None

    def nontrivial(self, case):
        return case["texts"][0] if str(case["tree"]).count("'bin'") >= 2 else None

    def sample(self, case):
        return {"texts": [t[:600] for t in case["texts"][:2]]}


def where(a, b):
    """The innermost difference."""
    if isinstance(a, list) and isinstance(b, list) and len(a) == len(b) and (not a or a[0] == b[0] or len(a) > 2):
        for x, y in zip(a, b):
            if x != y:
                return where(x, y)
    return f"{str(a)[:400]}; expected {str(b)[:400]}"


PROP = C16()
