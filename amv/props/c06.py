"""Optional values."""
from ..diff import Diff


class C06(Diff):
    id = "C06"
    quick = 5000
    thorough = 50000
    rule = ("A case is a program over optional values (of primitives, vectors, records and unions; as "
            "variables, fields, elements, parameters and results; nulo, promoted and converted), "
            "compared with the reference interpreter on output, exit status and error. "
            "Non-trivial: it prints at least two values.")
    profile = dict(
        nrec=(0, 2), nuni=(0, 1), nfunc=(0, 3), nmet=(0, 1), ntop=(6, 14), depth=3, vecs=1,
        opts=8, valor=12, valor_ou=12, prom=5, eq=10, bin=4, un=1, cast=8, cmp=2, logic=3, fstr=1,
        igx=1, iguala=0, seiguala=0, escolha=0, enquanto=1, para=2, se=3, keep_err=35, decl=12,
        mostra=12, assign=10, compound=3, chain=2, expr=3, shadow=5,
    )


PROP = C06()
