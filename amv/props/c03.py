"""Variables, scopes, calls; renaming."""
from ..diff import Diff, compare, expect_of
from ..engine import Reject
from ..gen import Program
from ..ref import Ref, StepLimit
from ..rename import rename


class C03(Diff):
    id = "C03"
    quick = 4000
    thorough = 50000
    rule = ("A case is a program of nested scopes (blocks, functions, methods, loop variables, "
            "pattern bindings) where most new names hide others, with recursion and calls in "
            "arguments, compared with the reference interpreter on output, exit status and error; "
            "a second text of the same program, in which every name was replaced by an adversarial "
            "one (a, a_, a_1, a__0, main, ...), has to behave alike. Non-trivial: it prints at "
            "least two values.")
    profile = dict(
        nrec=(0, 1), nuni=(0, 1), nfunc=(1, 4), nmet=(0, 2), ntop=(3, 9), depth=2, body=(1, 4),
        block=3, call=14, meth=4, var=20, bin=6, un=1, cast=1, cmp=3, eq=1, logic=1, fstr=2, igx=3,
        iguala=2, seiguala=2, escolha=1, enquanto=2, para=5, se=4, vecs=1, opts=1, indefs=0,
        trace=2, keep_err=15, decl=18, mostra=10, assign=9, compound=5, chain=2, expr=4, ret=3,
        shadow=75, uglyname=8,
    )

    def gen(self, src, tier):
        prog = self.build(src, tier)
        if not prog.ref.out:
            raise Reject()
        case = {"src": prog.source(src if src.p(40) else None), "expect": expect_of(prog.ref)}
        rename(prog.items, src)
        ref = Ref(steps=20000)
        try:
            ref.run(prog.items)
        except (StepLimit, RecursionError):
            raise Reject()
        case["src2"] = prog.source()
        case["expect2"] = expect_of(ref)
        return case

    def check(self, case, env):
        r = env.w.run(case["src"], timeout=self.timeout)
        w = compare(r, case["expect"], case["src"])
        if w is None and "src2" in case:
            r = env.w.run(case["src2"], timeout=self.timeout)
            w = compare(r, case["expect2"], case["src2"])
            if w:
                w = w + "\n--- the same program before its names were changed\n" + case["src"]
        return w

    def reduce(self, choices, env, case, why, deadline):
        if "before its names" not in why:
            return super().reduce(choices, env, case, why, deadline)
        return None


PROP = C03()
