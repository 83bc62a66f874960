"""Modules."""
import re

from ..diff import Diff, category, compare, expect_of
from ..engine import Reject, Src, TIER
from ..multi import MultiGen
from ..reduce import closed, reduce_items
from ..ref import Ref, StepLimit


class C10(Diff):
    id = "C10"
    quick = 3000
    thorough = 60000
    rule = ("Four of five cases are programs of 2 to 5 modules that import each other globally, "
            "under an alias or by items, through chains of re-exports, in files of several folders, "
            "with equal names wherever no module sees both; the modules run as the reference "
            "interpreter runs their definitions and statements one after the other. The others "
            "break one rule in one module (a name that is not imported, an assignment to another "
            "module's variable, a name that is declared twice or imported twice, a module as a value, an unknown item "
            "or member, a missing file, a cycle) and have to be rejected, in that file and line, "
            "before anything runs. Non-trivial: three modules or more.")
    profile = dict(
        nrec=(0, 1), nuni=(0, 1), nfunc=(0, 2), nmet=(0, 1), ntop=(1, 4), depth=2, body=(1, 2),
        block=2, call=16, meth=8, var=20, new=6, variant=6, bin=6, un=1, cast=1, cmp=3, eq=1, logic=1,
        fstr=2, igx=2, iguala=2, seiguala=1, escolha=1, enquanto=1, para=1, se=2, vecs=1, opts=1,
        indefs=0, keep_err=15, decl=16, mostra=10, assign=9, compound=5, chain=1, expr=4, ret=3,
        shadow=5, uglyname=1,
    )

    def gen(self, src, tier):
        g = MultiGen(src, **self.profile)
        prog = g.modules(src.rint(2, 5))
        self.last = g
        g.left = prog.items
        files = g.sources(src if src.p(40) else None)
        ref = Ref(steps=20000)
        try:
            ref.run(prog.items)     # with the names of the modules
        except (StepLimit, RecursionError):
            raise Reject()
        if not ref.out:
            raise Reject()
        if src.p(20):
            return self.broken(g, src, files)
        return {"files": files, "expect": expect_of(ref)}

    def broken(self, g, s, files):
        """Adds one line that breaks a rule."""
        mods = [m for m in g.mods]
        m = s.pick(mods)
        name = m.path + ".ama"
        scope = g.scope(m)
        plain = {y.name for y in scope}
        others = [y for o in g.mods if o.i < m.i for y in o.own if y.name not in plain]
        aliases = [y for y in scope if y.kind == "alias"]
        foreign = [y for y in scope if y.kind == "var" and y.mod is not m]
        mine = [y for y in scope if y.kind != "alias"]
        far = [(a.name + "." + y.name, y) for a in aliases for y in a.target.own if y.kind == "var"]
        kinds = ["nofile", "value"]
        kinds += ["unseen"] * (2 * bool(others)) + ["assign"] * (3 * bool(foreign or far))
        kinds += ["twice"] * (2 * bool(plain)) + ["aliasval", "member"] * (2 * bool(aliases))
        kinds += ["clash"] * 3
        kinds += ["item"] * (2 * (m.i > 0)) + ["cycle"] * 2 + ["alias2"] * bool(plain)
        k = s.pick(kinds)
        top = first = None
        more = {}
        if k == "clash":
            # two modules, both seen without a name, that declare the same
            def decl(n):
                return s.pick([f"{n}: int = 1", f"func {n}()\n  mostra 1\nfim", f"registo {n}\n  a: int\nfim",
                               f"uniao {n}\n  V0\nfim", f"usa 'cl_0' => {n}"])
            more = {"cl_0.ama": "z_9: int = 0\n"}
            for f in ("cl_1", "cl_2"):
                ds = [decl("n_9"), decl(f)] + ["o_9: int = 0"] * (f == "cl_2")
                ds.sort(key=lambda x: not x.startswith("usa"))
                more[f + ".ama"] = "\n".join(ds) + "\n"
            fs, ways = ["cl_1", "cl_2"], []
            for i in (0, 1):
                # an alias is no item, but comes with the whole module
                item = ["", "", " => [n_9]"] if "cl_0" not in more[fs[i] + ".ama"] else [""]
                if s.p(30):     # through another module
                    more[f"cl_{i + 3}.ama"] = f"usa '{fs[i]}'" + s.pick(item) + f"\nt{i}_9: int = 1\n"
                    fs[i] = f"cl_{i + 3}"
                    s.label("clash-through")
                ways.append(f"usa '{fs[i]}'" + s.pick(item))
            first, top = s.shuffle(ways)
            msg = "O identificador 'n_9' já foi declarado neste escopo"
        elif k == "nofile":
            top = "usa 'nada_disto'" + s.pick(["", " => zz", " => [a]"])
            msg = "Erro ao importar módulo. O caminho 'nada_disto' não é um ficheiro válido"
        elif k == "value":
            line, msg = "mostra nao_existe_9", "o identificador 'nao_existe_9' não foi declarado"
        elif k == "unseen":
            y = s.pick(others)
            if y.kind in ("rec", "uni"):
                line, msg = f"v_9: [{y.name}] = nulo", f"o tipo '{y.name}' não foi declarado"
            else:
                line, msg = f"mostra {y.name}", f"o identificador '{y.name}' não foi declarado"
        elif k == "assign":
            n, y = s.pick([(y.name, y) for y in foreign] + far)
            op = s.pick(["=", "+="]) if y.ty in ("int", "real") else "="
            line = f"{n} {op} {n}"
            msg = ("Atribuição inválida. As variáveis globais de um módulo importado não podem ser "
                   "modificadas externamente")
        elif k == "twice":
            n = s.pick(sorted(plain))
            line = s.pick([f"{n}: int = 1", f"func {n}()\nfim", f"registo {n}\n  a: int\nfim", f"uniao {n}\n  V0\nfim"])
            msg = f"O identificador '{n}' já foi declarado neste escopo"
        elif k == "alias2":
            n = s.pick(sorted(plain))
            t = [x for x in g.mods if x is not m and x.i < m.i]
            top = f"usa '{s.pick(t).path if t else 'nada_9'}' => {n}"
            msg = (f"O identificador '{n}' já foi declarado neste escopo" if t else
                   "Erro ao importar módulo. O caminho 'nada_9' não é um ficheiro válido")
            if t and not any(y.name == n and y.mod is not m or y.kind == "alias" and y.name == n for y in scope):
                # the import comes first: the declaration of n is the second one
                raise Reject()
        elif k == "aliasval":
            n, way = s.pick(alias_paths(g, m))[:2]
            s.label("alias-path-%d" % way.count("."))
            line = s.pick([f"mostra {way}", way, f"{way} = 1", f"v_9: int = {way}", f"{way}()", f"mostra {way}[0]",
                           f"mostra {way} == 1", f"mostra - {way}", f"{way} += 1"])
            msg = (f"identificador '{n}' não é invocável" if line == n + "()" else
                   f"o identificador '{n}' não é uma referência válida")
        elif k == "member":
            _, way, t = s.pick(alias_paths(g, m))
            here = {y.name for y in g.scope(t)}
            names = sorted({y.name for o in g.mods for y in g.scope(o)} - here)
            n = s.pick(names) if names and s.p(60) else "nao_existe_9"
            line = s.pick([f"mostra {way}.{n}", f"{way}.{n} = 1", f"{way}.{n}(1)", f"mostra {way}.{n}.x", f"mostra {way}.{n}[0]"])
            msg = f"O objecto do tipo 'Module' não possui o atributo '{n}'"
        elif k == "item":
            t = s.pick([x for x in g.mods if x.i < m.i])
            # a name that other modules may have
            here = {y.name for y in g.scope(t)}
            names = sorted({y.name for o in g.mods if o is not t for y in o.own} - here)
            n = s.pick(names) if names and s.p(70) else "nao_existe_9"
            top = f"usa '{t.path}' => [{n}]"
            msg = rf"Erro ao importar módulo. O item '{n}' não foi declarado no módulo '\f{t.path}.ama'"
        else:
            t = s.pick([x for x in g.mods if m in reach(x)])
            top = f"usa '{t.path}'" + s.pick(["", " => zz", " => [a]"])
            # importing prog again loads it as a module, which comes round
            msg = rf"Erro ao importar o módulo '\f*' Inclusão cíclica detectada"
        src = files[name]
        head = 0
        lines = src.split("\n")
        while head < len(lines) and (lines[head].startswith(("usa ", "#")) or not lines[head].strip()):
            head += 1
        if top:
            lines.insert(head, top)
            no = head + 1
            if first:
                lines.insert(s.rint(0, head), first)
                no += 1
        else:
            if lines and lines[-1] == "":
                lines.pop()
            lines.append(line)
            no = len(lines)
        out = {**files, **more}
        out[name] = "\n".join(lines) + "\n"
        s.label("broken-" + k)
        where = None if k == "cycle" else [name, no, (top or line).split("\n")[0]]
        return {"files": out, "broken": k, "where": where, "message": msg}

    def rejected(self, case, r):
        if r.how != "rejected":
            return "a program that breaks a rule was not rejected"
        if r.out.strip() or r.rc:
            return f"a program that was rejected printed {r.out!r} and ended with status {r.rc}"
        m = re.match(r'^\nFicheiro "([^"]*)", linha (\d+)(?:: coluna (\d+))?\n    ([^\n]*)\nErro(?: sintático)?: (.*)\.\n\Z', r.err, re.S)
        if not m:
            return "not a diagnostic"
        want = re.escape(case["message"])
        want = want.replace(r"\\f\*'", "[^']*'.*").replace(r"\\f", "[^']*")
        if not re.fullmatch(want, m.group(5), re.S):
            return "another diagnostic; expected: " + case["message"]
        if case["where"] and [m.group(1), int(m.group(2)), m.group(4)] != case["where"]:
            return f"diagnostic in another place; expected: {case['where']}"
        return None

    def check(self, case, env):
        if "broken" in case:
            r = env.w.run(case["files"], "prog.ama", timeout=self.timeout)
            w = self.rejected(case, r)
            return w and w + "\n" + r.show() + "\n" + show(case["files"])
        r = env.w.run(case["files"], "prog.ama", timeout=self.timeout)
        return compare(r, case["expect"], show(case["files"]))

    def reduce(self, choices, env, case, why, deadline):
        src = Src(replay=choices)
        if "broken" in case:
            return None
        self.gen(src, TIER)
        g = self.last
        cat = category(why)
        best = [case, why]

        def fails():
            if not closed(g.left):
                return False
            ref = Ref(steps=20000)
            try:
                ref.run(g.left)
                c = {"files": g.again(g.left), "expect": expect_of(ref)}
            except Exception:
                return False
            w = self.check(c, env)
            if w is None or category(w) != cat:
                return False
            best[:] = [c, w]
            return True

        self.timeout = 3
        n = 0
        if fails():
            n = reduce_items(g.left, fails, deadline)
            for m in g.mods:
                for f in list(m.imports):
                    keep = list(m.imports)
                    m.imports = [x for x in m.imports if x is not f]
                    if not fails():
                        m.imports = keep
        return best[0], best[1], n

    def nontrivial(self, case):
        return str(case["files"]) if len(case["files"]) > 2 else None

    def sample(self, case):
        if "broken" in case:
            return case
        return {"files": case["files"], "expected_output": case["expect"]["out"][:400]}


def alias_paths(g, m, way="", depth=0):
    """[(last name, path, module)] of the aliases that m can name."""
    out = []
    for y in g.scope(m):
        if y.kind == "alias":
            out.append((y.name, way + y.name, y.target))
            if depth < 2:
                out += alias_paths(g, y.target, way + y.name + ".", depth + 1)
    return out


def reach(m, seen=None):
    seen = set() if seen is None else seen
    if m not in seen:
        seen.add(m)
        for _, t, _ in m.imports:
            reach(t, seen)
    return seen


def show(files):
    return "\n".join(f"### {n}\n{t}" for n, t in files.items())


PROP = C10()
