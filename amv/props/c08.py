"""Exhaustiveness of iguala."""
import re

from ..diff import compare
from ..engine import Property
from ..gen import Gen
from ..lang import N, Printer, Sym, is_uni
from ..ref import Ref

TX = ["", "", "a", "a", "b", "b", "_", "0", "'a'", '"a"', "a'", '"', " a", "A", "\u00e1", "00", "zz"]
IX = [0, 0, 1, 1, 2, 2, 3, 3, 4, 256, 65536, 65537, 2 ** 32, 2 ** 32 + 1, 2 ** 63 - 1]


# A pattern here: None (anything), ("int", v), ("text", s), (variant Sym, [patterns])

def uncovered(rows, types):
    """Every vector of values of these types that no row matches, as vectors of
    patterns (exact: each vector returned is matched by no row)."""
    if not types:
        return [] if rows else [[]]
    t, rest = types[0], types[1:]
    heads = [r[0] for r in rows if r[0] is not None]
    if not heads:
        return [[None] + w for w in uncovered([r[1:] for r in rows], rest)]
    out = []
    if is_uni(t):
        for v in t[1].variants:
            n = len(v.params)
            spec = []
            for r in rows:
                if r[0] is None:
                    spec.append([None] * n + r[1:])
                elif r[0][0] is v:
                    spec.append(list(r[0][1]) + r[1:])
            for w in uncovered(spec, list(v.params) + rest):
                out.append([(v, w[:n])] + w[n:])
        return out
    consts = []
    for h in heads:
        if h not in consts:
            consts.append(h)
    for c in consts:
        spec = [r[1:] for r in rows if r[0] is None or r[0] == c]
        out += [[c] + w for w in uncovered(spec, rest)]
    spec = [r[1:] for r in rows if r[0] is None]
    return out + [[("other",)] + w for w in uncovered(spec, rest)]


def text_of(p):
    if p is None:
        return "_"
    if isinstance(p[0], Sym):
        s = f"{p[0].owner.name}::{p[0].name}"
        return s + (f"({', '.join(text_of(a) for a in p[1])})" if p[1] else "")
    return "const"


def parse_pat(s):
    """The text of a pattern -> nested (name, [args]) or '_'"""
    m = re.match(r"\s*([^\s(),]+)\s*", s)
    if not m:
        raise ValueError(s)
    name, s = m.group(1), s[m.end():]
    args = []
    if s.startswith("("):
        s = s[1:]
        while True:
            a, s = parse_pat(s)
            args.append(a)
            if s.startswith(","):
                s = s[1:]
                continue
            if not s.startswith(")"):
                raise ValueError(s)
            s = s[1:].lstrip()
            break
    return ("_" if name in ("_", "const") and not args else (name, args)), s


def meets(a, b):
    """Can one value match both?"""
    if a == "_" or b == "_":
        return True
    return a[0] == b[0] and len(a[1]) == len(b[1]) and all(meets(x, y) for x, y in zip(a[1], b[1]))


class C08(Property):
    id = "C08"
    quick = 6000
    thorough = 150000
    technique = ("property-based testing: generated unions and pattern matrices, decided against an "
                 "independent matrix algorithm for the uncovered values, and run on values of every arm")
    level_note = "Random search over unions and arms up to about 30 arms of nesting depth 3."
    assumptions = ("The oracle computes the uncovered values by specialising the pattern matrix.",)
    rule = ("A case is a set of unions (nested, recursive, with equal variant names), a scrutinee "
            "type and a list of arms made by splitting patterns and then dropping, shuffling, "
            "widening or adding arms (or one ill-typed pattern). The oracle lists the uncovered "
            "values; acceptance, the reported missing patterns, the line, and for accepted "
            "matches the arm taken for many values are compared. Non-trivial: two arms or more "
            "with at least one constructor or constant.")

    def gen(self, src, tier):
        g = self.types(src)
        s = src
        t = s.weighted([(8, "uni"), (1, "int"), (1, "texto"), (1, "rec"), (1, "bool")])
        if t == "uni":
            t = ("uni", s.pick(g.unis))
        elif t == "rec":
            t = ("rec", g.recs[0])
        pats = self.arms(s, t)
        bad = None
        if s.p(15):
            bad = self.spoil(s, g, t, pats)
        rows = [[p] for p in pats]
        miss = [] if bad else uncovered(rows, [t])
        if bad is None and len(miss) > 400:
            miss = miss[:400]
        return self.program(s, g, t, pats, miss, bad)

    def types(self, s):
        g = Gen(s, vecs=0, opts=0, nrec=(0, 0))
        r = Sym("Reg", kind="rec", fields=[("x", "int")], glob=True)
        g.recs.append(r)
        names = ["A", "B", "Nada", "Algum", "Par"]
        for i in range(s.rint(1, 3)):
            u = Sym(s.pick(["U", "Lista", "Forma"]) + str(i), kind="uni", glob=True)
            u.variants = []
            for j, nm in enumerate(s.sub(names, s.rint(1, 4))):
                v = Sym(nm, kind="variant", owner=u, recursive=False)
                v.params = []
                if s.p(65):
                    for _ in range(s.rint(1, 3)):
                        k = s.weighted([(3, "int"), (2, "texto"), (1, "bool"), (1, ("rec", r)), (1, "real")]
                                       + [(4, ("uni", x)) for x in g.unis]
                                       + ([(2, ("uni", u))] if j > 0 else []))
                        v.params.append(k)
                        v.recursive = v.recursive or k == ("uni", u)
                u.variants.append(v)
            g.unis.append(u)
        return g

    def splits(self, s, p, t, d):
        """p with one of its wildcards split, as a list of patterns; or None"""
        if p is None:
            if d <= 0:
                return None
            if is_uni(t):
                return [(v, [None] * len(v.params)) for v in t[1].variants]
            if t == "int":
                return [("int", s.pick(IX)), None]
            if t == "texto":
                return [("text", s.pick(TX)), None]
            return None
        if isinstance(p[0], Sym) and p[1]:
            i = s.n(len(p[1]))
            sub = self.splits(s, p[1][i], p[0].params[i], d - 1)
            if sub:
                return [(p[0], p[1][:i] + [q] + p[1][i + 1:]) for q in sub]
        return None

    def arms(self, s, t):
        pats = [None]
        for _ in range(s.rint(0, 14)):
            i = s.n(len(pats))
            sub = self.splits(s, pats[i], t, 3)
            if sub and len(pats) + len(sub) <= 30:
                pats[i:i + 1] = sub
        for _ in range(s.n(5)):
            k = s.pick(["drop", "drop", "drop", "shuffle", "widen", "add", "dup", "swap"])
            if k == "drop" and len(pats) > 1:
                del pats[s.n(len(pats))]
            elif k == "shuffle":
                pats = s.shuffle(pats)
            elif k == "widen" and pats:
                i = s.n(len(pats))
                pats[i] = self.widen(s, pats[i])
            elif k == "add":
                pats.insert(s.n(len(pats) + 1), self.any_pat(s, t, 2))
            elif k == "dup":
                pats.insert(s.n(len(pats) + 1), s.pick(pats))
            elif k == "swap" and len(pats) > 1:
                i = s.n(len(pats) - 1)
                pats[i], pats[i + 1] = pats[i + 1], pats[i]
        return pats

    def widen(self, s, p):
        if p is None or not isinstance(p[0], Sym) or not p[1]:
            return p
        i = s.n(len(p[1]))
        q = None if s.p(50) else self.widen(s, p[1][i])
        return (p[0], p[1][:i] + [q] + p[1][i + 1:])

    def any_pat(self, s, t, d):
        if d < 0 or s.p(30):
            return None
        if is_uni(t):
            v = s.pick(t[1].variants)
            return (v, [self.any_pat(s, q, d - 1) for q in v.params])
        if t == "int":
            return ("int", s.pick(IX))
        if t == "texto":
            return ("text", s.pick(TX))
        return None

    def spoil(self, s, g, t, pats):
        """Puts one pattern that does not fit into the arms.  -> its arm, or None"""
        i = s.n(len(pats))
        spots = []

        def find(p, pt, path):
            spots.append((path, pt, p))
            if p is not None and isinstance(p[0], Sym):
                for j, (q, qt) in enumerate(zip(p[1], p[0].params)):
                    find(q, qt, path + [j])

        find(pats[i], t, [])
        path, pt, p = s.pick(spots)
        opts = []
        if pt != "int":
            opts.append(("int", 1))
        if pt != "texto":
            opts.append(("text", "a"))
        for u in g.unis:
            if pt != ("uni", u):
                v = s.pick(u.variants)
                opts.append((v, [None] * len(v.params)))
        if p is not None and isinstance(p[0], Sym):
            opts.append((p[0], p[1] + [None]))
            if len(p[1]) > 1:
                opts.append((p[0], p[1][:-1]))
        q = s.pick(opts)

        def put(p, path):
            if not path:
                return q
            return (p[0], p[1][:path[0]] + [put(p[1][path[0]], path[1:])] + p[1][path[0] + 1:])

        pats[i] = put(pats[i], path)
        s.label("ill-typed")
        return i + 1

    def describers(self, g):
        """A function for each union, that shows a value with all that it contains"""
        out = {}
        for i, u in enumerate(g.unis):
            fn = Sym(f"ver{i}", kind="func", params=[Sym("y", ("uni", u), glob=False)], ret="texto",
                     fuel=False, glob=True)
            out[id(u)] = fn
            arms = []
            for v in u.variants:
                args = [Sym(f"a{j}", p, glob=False) for j, p in enumerate(v.params)]
                a = N("armx", e=self.shown(args, v.name, out))
                a.pat = N("padt", sym=v, args=[N("pvar", sym=x) for x in args])
                arms.append(a)
            ty = ("uni", u)
            fn.body = [N("retorna", e=N("iguala", e=N("var", sym=fn.params[0], ty=ty), arms=arms, ty="texto"))]
        return out

    def shown(self, syms, head, fns):
        """A text with the values of variables"""
        parts = [head]
        for x in syms:
            e = N("var", sym=x, ty=x.ty)
            if is_uni(x.ty):
                e = N("call", fn=fns[id(x.ty[1])], args=[e], ty="texto")
            elif isinstance(x.ty, tuple):
                e = N("field", e=e, name="x", ty="int")
            parts += [" ", e]
        return N("fstr", parts=parts, q="'")

    def program(self, s, g, t, pats, miss, bad, show=False):
        items = [N("rec", sym=g.recs[0])] + [N("uni", sym=u) for u in g.unis]
        count = [0]
        rt = "texto" if show else "int"
        fns = self.describers(g) if show else {}
        items += [N("func", sym=fn) for fn in fns.values()]
        bound = []

        def node(p, pt):
            if p is None:
                count[0] += 1
                nm = "v%d" % count[0]
                bound.append(Sym(nm, pt, glob=False))
                return N("pvar", sym=bound[-1])
            if p[0] == "int":
                return N("pint", v=p[1])
            if p[0] == "text":
                return N("ptext", v=p[1], q=s.pick("'\""))
            return N("padt", sym=p[0], args=[node(a, q) for a, q in zip(p[1], [*p[0].params, "int"])])

        arms = []
        for i, p in enumerate(pats):
            a = N("armx", e=N("int", v=i, ty="int"))
            bound = []
            a.pat = node(p, t)
            if show:
                a.e = self.shown(s.shuffle(bound), str(i), fns)
            arms.append(a)
        y = Sym("x", t, glob=False)
        f = Sym("f", kind="func", params=[y], ret=rt, fuel=False, glob=True)
        how = s.pick(["var", "alvo", "expr", "stmt"])
        scrut = N("var", sym=y, ty=t)
        if how == "alvo":
            f = Sym("f", kind="met", params=[], ret=rt, target=t, glob=True, fuel=False)
            scrut = N("alvo", ty=t)
        elif how == "expr":
            ident = Sym("id", kind="func", params=[Sym("z", t, glob=False)], ret=t, glob=True, fuel=False)
            ident.body = [N("retorna", e=N("var", sym=ident.params[0], ty=t))]
            items.append(N("func", sym=ident))
            scrut = N("call", fn=ident, args=[scrut], ty=t)
        ig = N("iguala", e=scrut, arms=arms, ty=rt)
        if how == "stmt":
            for a in arms:
                a.k = "armb"
                a.body = [N("retorna", e=a.e)]
                del a.e
            f.body = [N("iguala", x=ig)]
        elif s.p(50):
            r = Sym("r", rt, glob=False)
            f.body = [N("decl", sym=r, e=ig), N("retorna", e=N("var", sym=r, ty=rt))]
        else:
            f.body = [N("retorna", e=ig)]
        items.append(N("func", sym=f))
        g.scopes = [[]]
        vals = []
        if not bad and not miss:
            # a value for each arm, and some more
            few = [*pats[:12], None, None, None]
            if show:
                few = [*pats[:30], None, None, None]
                few += [self.widen(s, s.pick(pats)) for _ in range(8)]
            for p in few:
                vals.append(self.value(s, g, t, p, 3))
        for v in vals:
            if how == "alvo":
                e = N("meth", e=v, fn=f, args=[], ty=rt)
            else:
                e = N("call", fn=f, args=[v], ty=rt)
            items.append(N("mostra", e=e))
        if not vals:
            items.insert(0, N("mostra", e=N("int", v=77, ty="int")))
        # indices as the compiler numbers them: by order of declaration
        n = 0
        for u in g.unis:
            for v in u.variants:
                v.idx = n
                n += 1
        pr = Printer()
        for x in items:
            pr.stmt(x)
        text = pr.text()
        case = {"src": text, "arms": len(pats),
                "cons": sum(p is not None for p in pats)}
        start = [i + 1 for i, ln in enumerate(text.split("\n")) if re.search(r"\biguala\b", ln)][0]
        if bad:
            case["expect"] = "bad pattern"
            case["line"] = [start, arms[bad - 1].line]
        elif miss:
            s.label("missing")
            case["expect"] = "missing"
            case["finite"] = is_uni(t)
            case["uncovered"] = sorted({text_of(w[0]) if w[0] != ("other",) else "const" for w in miss})
            case["ty"] = t[1].name if is_uni(t) else str(t)
            case["line"] = [start, start]
        else:
            s.label("covered")
            ref = Ref()
            ref.run(items)
            case["expect"] = {"out": ref.text(), "error": ref.error}
        return case

    def value(self, s, g, t, p, d):
        """A value that matches p"""
        if p is not None and p[0] == "int":
            return N("int", v=p[1], ty="int")
        if p is not None and p[0] == "text":
            return N("text", v=p[1], q=s.pick("'\""), ty="texto")
        if t == "int":
            return N("int", v=s.pick(IX), ty="int")
        if t == "texto":
            return N("text", v=s.pick(TX), q=s.pick("'\""), ty="texto")
        if t == "bool":
            return N("bool", v=bool(s.n(2)), ty="bool")
        if t == "real":
            return N("real", t="1.5", v=1.5, ty="real")
        if not is_uni(t):
            return N("rec", sym=t[1], args=[("x", N("int", v=1, ty="int"))], ty=t)
        if p is not None:
            v, args = p
        else:
            vs = t[1].variants
            if d <= 0:
                vs = [v for v in vs if not v.recursive]
            v = s.pick(vs)
            args = [None] * len(v.params)
        return N("variant", sym=v, ty=t,
                 args=[self.value(s, g, q, a, d - 1) for q, a in zip(v.params, args)])

    def check(self, case, env):
        r = env.w.run(case["src"])
        e = case["expect"]
        if isinstance(e, dict):
            return compare(r, e, case["src"])
        w = self.diagnosed(case, r)
        return w and w + "\n" + r.show() + "\n--- program\n" + case["src"]

    def diagnosed(self, case, r):
        e = case["expect"]
        if r.how != "rejected" or r.out or r.rc != 0:
            return f"expected a diagnostic ({e}), the outcome was {r.how}"
        m = re.search(r", linha (\d+)\n", r.err)
        if not m:
            return "no line in the diagnostic"
        if not case["line"][0] <= int(m.group(1)) <= case["line"][1]:
            return f"the diagnostic names line {m.group(1)}, expected {case['line']}"
        if e == "bad pattern":
            if "Padrão inválido" not in r.err:
                return "the diagnostic is not about an invalid pattern"
            return None
        if not case["finite"]:
            return None if "_ => ..." in r.err else "the diagnostic does not name the missing default"
        if f"do tipo '{case['ty']}'" not in r.err:
            return "the diagnostic does not name the type " + case["ty"]
        rep = re.findall(r"^\* (.*) => \.\.\. *\.?$", r.err, re.M)
        if not rep:
            return "no missing pattern is listed"
        unc = [parse_pat(u)[0] for u in case["uncovered"]]
        got = []
        for x in rep:
            try:
                q, rest = parse_pat(x)
            except ValueError:
                return f"the missing pattern {x!r} is not a pattern"
            if rest.strip():
                return f"the missing pattern {x!r} is not a pattern"
            got.append(q)
            if not any(meets(q, u) for u in unc):
                return (f"the pattern {x!r} is reported as missing, but the arms cover it; uncovered: "
                        + ", ".join(case["uncovered"][:20]))
        for u, x in zip(unc, case["uncovered"]):
            if not any(meets(q, u) for q in got):
                return f"no pattern for {x} is reported as missing"
        return None

    def nontrivial(self, case):
        return case["src"] if case["arms"] > 1 and case["cons"] else None

    def sample(self, case):
        return {"program": case["src"][:1200], "expected": case["expect"],
                "uncovered": case.get("uncovered")}


PROP = C08()
