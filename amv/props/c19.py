"""Run-time errors: line and chain of calls."""
import re

from ..diff import Diff, category, compare, expect_of
from ..engine import Reject, Src, TIER
from ..lang import N, Sym
from ..multi import MultiGen
from ..ref import Ref, StepLimit
from .c10 import C10, show


def lit(v):
    return N("int", v=v, ty="int")


def zero(s):
    """An expression whose value is zero."""
    k = s.n(3)
    if k == 0:
        return lit(0)
    a = s.rint(1, 9)
    if k == 1:
        return N("bin", op="-", l=lit(a), r=lit(a), ty="int")
    return N("bin", op="%", l=lit(a), r=lit(1), ty="int")


def fault(s):
    """An expression of type int or texto that stops the program."""
    k = s.weighted([(4, "div"), (3, "idx"), (3, "cast"), (2, "nulo"), (1, "char")])
    s.label("fault-" + k)
    if k == "div":
        return N("bin", op=s.pick(["//", "%"]), l=lit(s.rint(0, 9)), r=zero(s), ty="int")
    if k == "idx":
        n = s.rint(0, 3)
        v = N("list", elem="int", args=[lit(i) for i in range(n)], ty=("vec", "int"))
        return N("idx", e=v, i=lit(n + s.n(3)), ty="int")
    if k == "cast":
        return N("cast", e=N("text", v=s.pick(["x", "1x", "", "a\nb"]), q="'", ty="texto"), to="int", ty="int")
    if k == "nulo":
        o = ("opt", "int")
        v = N("list", elem=o, args=[N("prom", e=N("nulo", ty="nulo"), ty=o)], ty=("vec", o))
        return N("valor", e=N("idx", e=v, i=lit(0), ty=o), ty="int")
    return N("idx", e=N("text", v="abc", q='"', ty="texto"), i=lit(3 + s.n(4)), ty="texto")


def blocks(x, out, fn=None):
    """Every list of statements below x: [(list, function)]"""
    if isinstance(x, N):
        if x.k == "func":
            out.append((x.sym.body, x.sym))
            for y in x.sym.body:
                blocks(y, out, x.sym)
        elif x.k in ("se", "escolha"):
            for _, b in x.conds if x.k == "se" else x.cases:
                out.append((b, fn))
                for y in b:
                    blocks(y, out, fn)
            if x.other is not None:
                out.append((x.other, fn))
                for y in x.other:
                    blocks(y, out, fn)
        elif x.k in ("enquanto", "para"):
            out.append((x.body, fn))
            for y in x.body:
                blocks(y, out, fn)
        elif x.k == "iguala":
            for a in x.x.arms:
                if a.k == "armb":
                    out.append((a.body, fn))
                    for y in a.body:
                        blocks(y, out, fn)
        elif x.k == "seiguala":
            for b in (x.body, x.other):
                if b is not None:
                    out.append((b, fn))
                    for y in b:
                        blocks(y, out, fn)


def wrong(s):
    """A statement that stops the program."""
    e = fault(s)
    cmp_ = N("bin", op="==", l=e, r=lit(1) if e.ty == "int" else N("text", v="a", q="'", ty="texto"), ty="bool")
    none = [N("mostra", e=lit(77))]
    k = s.weighted([(4, "mostra"), (2, "expr"), (2, "se"), (2, "senaose"), (2, "enquanto"), (2, "para"),
                    (2, "caso"), (2, "escolha"), (2, "arm"), (1, "iguala")])
    s.label("at-" + k)
    if k == "mostra":
        return N("mostra", e=e)
    if k == "expr":
        return N("expr", e=e)
    if k == "se":
        return N("se", conds=[(cmp_, none)], other=None)
    if k == "senaose":
        f = N("bool", v=False, ty="bool")
        pre = [(f, [N("mostra", e=lit(78))] * s.rint(0, 2)) for _ in range(s.rint(1, 2))]
        return N("se", conds=pre + [(cmp_, none)], other=None)
    if k == "enquanto":
        return N("enquanto", cond=cmp_, body=none)
    if k == "para":
        y = Sym("i9", "int")
        y.glob = False
        if e.ty != "int":
            e = N("cast", e=e, to="int", ty="int")
        return N("para", sym=y, a=e if s.p(50) else lit(0), b=e, inc=None, body=none)
    if k == "caso":
        pre = [(lit(i), [N("mostra", e=lit(79))]) for i in range(s.rint(0, 2))]
        if e.ty != "int":
            e = N("cast", e=e, to="int", ty="int")
        return N("escolha", e=lit(5), cases=pre + [(e, none)], other=None)
    if k == "escolha":
        return N("escolha", e=e if e.ty == "int" else N("cast", e=e, to="int", ty="int"), cases=[(lit(0), none)], other=None)
    y = Sym("p9", "int")
    y.glob = False
    if k == "iguala":
        return N("iguala", x=N("iguala", e=e if e.ty == "int" else lit(3), ty=None,
                               arms=[N("armx", pat=N("pvar", sym=y), e=e)]))
    arms = [N("armx", pat=N("pint", v=i), e=lit(i) if e.ty == "int" else N("text", v="b", q="'", ty="texto"))
            for i in range(s.rint(0, 2))]
    return N("iguala", x=N("iguala", e=lit(6), ty=None, arms=arms + [N("armx", pat=N("pvar", sym=y), e=e)]))


def tower(s):
    """A function that calls itself to a given depth, and fails
    there or when the calls are too many."""
    n = Sym("n", "int")
    n.glob = False
    fs = [Sym(f"torre{i}", kind="func", ret="int", params=[n], fuel=False) for i in range(1)]
    var = lambda: N("var", sym=n, ty="int")
    for i, f in enumerate(fs):
        f.glob = True
        call = N("call", fn=fs[(i + 1) % len(fs)], ty="int",
                 args=[N("bin", op="-", l=var(), r=lit(1), ty="int")])
        f.body = [N("se", conds=[(N("bin", op="==", l=var(), r=lit(0), ty="bool"),
                                  [N("retorna", e=N("bin", op="//", l=lit(1), r=var(), ty="int"))])], other=None),
                  N("retorna", e=call if s.p(50) else N("bin", op="+", l=lit(1), r=call, ty="int"))]
    d = s.weighted([(3, s.rint(0, 5)), (2, s.rint(100, 400)), (2, s.rint(990, 1002))])
    s.label("tower")
    return fs, [N("func", sym=f) for f in fs] + [N("mostra", e=N("call", fn=fs[0], args=[lit(d)], ty="int"))]


class C19(Diff):
    id = "C19"
    quick = 5000
    thorough = 80000
    rule = ("A case is a program, of one file or of several modules, into whose statements (any block "
            "of any function, method, loop, selection or match) a statement that fails was put, and "
            "which reaches it, or one that fails by itself; the output before the error, the exit "
            "status, the message, the line of the statement and the function and line of every "
            "active call have to be those of the reference interpreter. Non-trivial: the error is "
            "inside at least one call, or below line 10.")
    profile = dict(
        nrec=(0, 2), nuni=(0, 1), nfunc=(1, 4), nmet=(0, 2), ntop=(3, 9), depth=2, body=(1, 3),
        block=3, call=16, meth=8, var=14, bin=6, un=1, cast=2, cmp=3, eq=1, logic=1, fstr=2, igx=0,
        iguala=3, seiguala=2, escolha=4, enquanto=3, para=4, se=5, vecs=1, opts=1, indefs=0,
        keep_err=60, decl=10, mostra=8, assign=7, compound=3, chain=1, expr=6, ret=3, jump=2,
        shadow=5, uglyname=1,
    )

    def gen(self, src, tier):
        if src.p(20):
            g = MultiGen(src, **{**C10.profile, **{k: self.profile[k] for k in ("igx", "keep_err", "call", "meth", "nfunc")}})
            prog = g.modules(src.rint(2, 4))
            src.label("modules")
        else:
            g = None
            prog = self.build(src, tier)
            if src.p(5):
                prog.items += tower(src)[1]
        self.inject(prog.items, src)
        style = src if src.p(70) else None
        case = self.finish(prog, g, style)
        if g is None and src.p(3):
            # a program whose lines have large numbers
            k = src.pick([200, 250, 300, 1000, 32768, 65500, 65536, 70000])
            src.label("far-lines")
            case["files"]["prog.ama"] = "\n" * k + case["files"]["prog.ama"]
            case["trace"] = [[n, a + k, b + k] for n, a, b in case["trace"]]
        return case

    def inject(self, items, src):
        for _ in range(src.weighted([(2, 1), (2, 2), (1, 0), (1, 4)])):
            out = [(items, None)]
            for x in items:
                blocks(x, out)
            deep = [b for b in out if b[1] is not None and b[1].fuel]
            b, fn = src.pick(deep) if deep and src.p(30) else src.pick(out)
            at = src.rint(0, len(b))
            x = wrong(src)
            if b is items:
                if at == 0:
                    at = len(b)
                x.mod = getattr(b[at - 1], "mod", None)
                if x.mod is not None:
                    x.mod.items.insert(x.mod.items.index(b[at - 1]) + 1, x)
            elif b and at == len(b) and b[-1].k in ("retorna", "produz", "quebra", "continua"):
                at -= 1
            b.insert(at, x)

    def finish(self, prog, g, style):
        if g:
            files = g.sources(style)
        else:
            text = prog.source(style)
            files = {"prog.ama": text}
        ref = Ref(steps=20000)
        try:
            ref.run(prog.items)
        except (StepLimit, RecursionError):
            raise Reject()
        if ref.error is None:
            raise Reject()
        return {"files": files, "expect": expect_of(ref), "trace": [[n, *ln] for n, ln in ref.trace]}

    def case_of(self, prog):
        try:
            return self.finish(prog, None, None)
        except Reject:
            return None

    def check(self, case, env):
        r = env.w.run(case["files"], "prog.ama", timeout=self.timeout)
        w = compare(r, case["expect"], show(case["files"]))
        if w:
            return w
        w = self.chain(case, r.err)
        if w:
            return w + "\n" + r.show() + "\n" + show(case["files"])
        return None

    def chain(self, case, err):
        want = case["trace"]
        msg = case["expect"]["error"]
        body = err.strip("\n")
        i = body.rfind("Erro na linha ")
        head, last = body[:i], body[i:]
        got = []
        if head:
            lines = head.split("\n")
            if lines[0].strip() != "Fluxo de execução:" or lines[-1]:
                return "the chain of calls does not have its form"
            for ln in lines[1:-1]:
                m = re.fullmatch(r"    Linha (\d+), na função (.*)", ln)
                if not m:
                    return f"the chain of calls has the line {ln!r}"
                got.append([m.group(2), int(m.group(1))])
        m = re.fullmatch(r"Erro na linha (\d+): (.*)\.", last, re.S)
        if not m or m.group(2) != msg:
            return "the message is not " + msg
        got.append([None, int(m.group(1))])
        for k, (a, b) in enumerate(zip(got, want)):
            n = a[0]
            if n is not None and n.count("::") > 1:
                n = "::".join(n.split("::")[-2:])
            if n != b[0] or not b[1] <= a[1] <= b[2]:
                return f"wrong chain of calls: entry {k} is {a}, expected {b}\n(whole: {str(want)[:600]})"
        if len(got) != len(want):
            return f"wrong chain of calls: {len(got)} entries, expected {len(want)}"
        return None

    def reduce(self, choices, env, case, why, deadline):
        if len(case["files"]) > 1:
            return None
        src = Src(replay=choices)
        prog = None
        for _ in [0]:
            if src.p(20):
                return None
            prog = self.build(src, TIER)
            if src.p(5):
                prog.items += tower(src)[1]
            self.inject(prog.items, src)
        return self.reduce_prog(prog, env, case, why, deadline)

    def nontrivial(self, case):
        t = case["trace"]
        return str(case["files"]) if len(t) > 1 or t[0][1] > 10 else None

    def sample(self, case):
        return {"files": case["files"], "expected_output": case["expect"]["out"][:300],
                "expected_error": case["expect"]["error"], "expected_chain": case["trace"][:12]}


PROP = C19()
