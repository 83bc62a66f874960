"""Records and methods."""
from ..diff import Diff


class C05(Diff):
    id = "C05"
    quick = 6000
    thorough = 50000
    rule = ("A case is a program with up to four record types (fields of any type, arguments in any "
            "order), instances shared by variables, parameters, fields and vectors, field and "
            "compound assignment, and methods of equal names on several types, compared with the "
            "reference interpreter on output, exit status and error. Non-trivial: it prints at "
            "least two values.")
    profile = dict(
        nrec=(1, 4), nuni=(0, 1), nfunc=(0, 2), nmet=(1, 4), ntop=(6, 14), depth=3, vecs=1,
        new=10, field=16, meth=12, variant=2, idx=2, tam=1, bin=4, un=1, cast=1, cmp=2, eq=4,
        logic=1, fstr=1, igx=0, iguala=0, seiguala=0, escolha=0, enquanto=1, para=2, se=2, opts=1,
        big=3, keep_err=25, decl=12, mostra=10, assign=16, compound=8, chain=2, expr=6, shadow=8,
        samemet=60, trace=6,
    )


PROP = C05()
