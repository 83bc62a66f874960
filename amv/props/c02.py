"""Control flow."""
from ..diff import Diff


class C02(Diff):
    id = "C02"
    quick = 4000
    thorough = 60000
    rule = ("A case is a program of nested se/senaose/senao, escolha, enquanto, para (any bounds and "
            "step) with quebra and continua, whose conditions, selectors and bounds call functions "
            "that print, compared with the reference interpreter on output, exit status and error. "
            "Non-trivial: it prints at least two values.")
    profile = dict(
        nrec=(0, 0), nuni=(0, 0), nfunc=(0, 2), nmet=(0, 0), ntop=(2, 6), depth=2, body=(1, 3),
        block=3, bin=6, un=2, cast=1, cmp=8, eq=4, logic=5, fstr=1, igx=1, iguala=1, seiguala=0,
        escolha=7, enquanto=7, para=8, se=8, jump=7, vecs=0, opts=0, indefs=0, trace=4, big=5,
        keep_err=10, decl=5, mostra=8, assign=6, compound=6, chain=1, escreva=1, expr=1, ret=3,
        shadow=5, steps=4000,
    )


PROP = C02()
