"""Vectors and text."""
from ..diff import Diff


class C04(Diff):
    id = "C04"
    quick = 6000
    thorough = 50000
    rule = ("A case is a program over vectors (nested, shared by variables, parameters, elements and "
            "fields, built by literals, vec(), anexa, remova, element and compound assignment) and "
            "texts (multi-code-point characters), compared with the reference interpreter on "
            "output, exit status and error. Non-trivial: it prints at least two values.")
    profile = dict(
        nrec=(0, 1), nuni=(0, 0), nfunc=(0, 3), nmet=(0, 1), ntop=(6, 16), depth=3, vecs=6, vdepth=4, reshow=60,
        list=8, vecn=5, idx=14, tam=6, remova=4, anexa=9, remova_s=5, bin=5, un=1, cast=2, cmp=3,
        eq=2, logic=2, fstr=1, igx=0, iguala=0, seiguala=0, escolha=1, enquanto=2, para=4, se=2,
        opts=0, indefs=1, big=4, keep_err=35, decl=12, mostra=12, assign=14, compound=8, chain=2,
        expr=4, shadow=5, txt=3, trace=3,
    )


PROP = C04()
