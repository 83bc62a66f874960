"""Arithmetic, comparison, logic and casts."""
from ..diff import Diff


class C01(Diff):
    id = "C01"
    quick = 8000
    thorough = 40000
    rule = ("A case is a program of expressions over int, real, bool, texto and indef (every "
            "operator, precedence level, conversion, boundary constants, calls that print when "
            "they are evaluated), generated by type and compared with a reference interpreter on "
            "output, exit status and error. Non-trivial: it prints at least two values.")
    profile = dict(
        nrec=(0, 0), nuni=(0, 0), nfunc=(0, 1), nmet=(0, 0), ntop=(4, 14), depth=4,
        bin=14, un=6, cast=9, cmp=8, eq=8, logic=8, fstr=1, igx=0, iguala=0, seiguala=0,
        escolha=0, enquanto=0, para=0, se=1, vecs=0, opts=0, trace=5, big=25, keep_err=45, near=20,
        decl=8, mostra=16, assign=3, compound=4, escreva=0, expr=0, shadow=0,
    )


PROP = C01()
