"""Matching."""
from ..diff import Diff
from .c08 import PROP as MATRIX, uncovered


class C07(Diff):
    id = "C07"
    quick = 3000
    thorough = 50000
    rule = ("A case is a program of iguala statements, iguala expressions (also inside other "
            "expressions, functions and loops) and se iguala, over integers, texts, records and "
            "unions with nested and recursive variants, compared with the reference interpreter on "
            "output, exit status and error. Half of the cases are instead one function whose arms come "
            "from splitting, dropping, shuffling, widening and repeating nested patterns, each arm shows its "
            "number and all that it bound, and it is called with a value for each arm and for patterns that "
            "nearly match. Non-trivial: it prints at least two values.")
    profile = dict(
        nrec=(0, 1), nuni=(1, 3), nfunc=(0, 2), nmet=(0, 2), ntop=(4, 8), depth=2, body=(1, 3), block=1, vecs=1,
        variant=12, igx=8, iguala=14, seiguala=9, bin=4, un=1, cast=1, cmp=2, eq=2, logic=1,
        fstr=1, escolha=1, enquanto=1, para=2, se=2, opts=1, trace=2, keep_err=15, decl=10,
        mostra=8, assign=5, compound=2, expr=2, shadow=20, jump=3, ret=3,
    )

    def gen(self, src, tier):
        if not src.p(50):
            return super().gen(src, tier)
        src.label("matrix")
        s, m = src, MATRIX
        g = m.types(s)
        t = s.weighted([(9, "uni"), (1, "int"), (1, "texto")])
        if t == "uni":
            t = ("uni", s.pick(g.unis))
        pats = m.arms(s, t)
        if uncovered([[p] for p in pats], [t]):
            pats.append(None)
        case = m.program(s, g, t, pats, [], None, show=True)
        return {"src": case["src"], "expect": case["expect"], "matrix": 1}

    def reduce(self, choices, env, case, why, deadline):
        return None if "matrix" in case else super().reduce(choices, env, case, why, deadline)


PROP = C07()
