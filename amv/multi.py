"""Programs of several modules: one generated program cut into modules that
import each other in every form."""
from .engine import Reject, Src
from .gen import Gen, Program
from .lang import N, Printer, is_rec, is_uni
from .rename import parts

FILES = ["m1", "lib", "util", "dados", "sub/m2", "sub/dir/geo", "mate", "a.b", "p-q", "sub/lib", "mat"]
ALIASES = ["z", "w", "mod", "lib", "m", "alias_1", "f_", "sub"]
FUNCS = ["q0", "q1", "calc", "soma", "novo", "main_"]
VARS = ["g0", "g1", "total", "estado", "q0", "conf"]
TYPES = ["Q0", "Q1", "Ponto", "Par", "No"]


def declared(x):
    if x.k == "multi":
        return list(x.syms)
    return [x.sym] if x.k in ("func", "rec", "uni", "decl") and x.sym.kind != "met" else []


class Mod:
    def __init__(self, i, path):
        self.i = i
        self.path = path          # without .ama
        self.imports = []         # [form, Mod, alias | [Sym...] | None]
        self.items = []
        self.own = []             # symbols it declares
        self.aliases = {}


class MultiGen(Gen):
    def declare(self, sym):
        super().declare(sym)
        if sym.glob:
            sym.mod = self.cur
        return sym

    def modules(self, n):
        s, P = self.s, self.P
        paths = s.sub(FILES, n - 1)
        self.mods = [Mod(i, p) for i, p in enumerate(paths + ["prog"])]
        self.items = []
        for i, m in enumerate(self.mods):
            self.cur = m
            at = len(self.items)
            for _ in range(s.rint(*P["nrec"])):
                self.items.append(self.g_record())
            for _ in range(s.rint(*P["nuni"])):
                self.items.append(self.g_union())
            nf, nm = s.rint(*P["nfunc"]), s.rint(*P["nmet"])
            for k in s.shuffle(["f"] * nf + ["m"] * nm + ["s"] * s.rint(*P["ntop"])):
                if k == "f":
                    self.items.append(self.g_func())
                elif k == "m":
                    self.items.append(self.g_func(met=True))
                else:
                    self.items += self.stmt()
            for x in self.items[at:]:
                x.mod = m
            for y in self.scopes[0]:
                if getattr(y, "mod", None) is None:
                    y.mod = m
                if y.kind == "var":
                    # other modules cannot assign to it
                    self.protected.add(y)
        prog = self.settle(self.items)
        for x in prog.items:
            x.mod.items.append(x)
        self.arrange()
        return prog

    def drop(self, items, at):
        new = super().drop(items, at)
        if len(new) == len(items):
            new[at].mod = items[at].mod
        return new

    # ------------------------------------------------------- names, imports
    def arrange(self):
        s = self.s
        for m in self.mods:
            for x in m.items:
                m.own += declared(x)
        for m in self.mods:
            self.link(m)
        order = []

        def visit(m):
            for _, t, _ in m.imports:
                if t not in order:
                    visit(t)
            order.append(m)

        visit(self.mods[-1])
        if order != self.mods:
            # main imports every module, in order, first
            main = self.mods[-1]
            have = {t for _, t, _ in main.imports}
            for t in self.mods[:-1]:
                if t not in have:
                    main.imports.append(["alias", t, None])
            main.imports.sort(key=lambda f: f[1].i)
            order.clear()
            visit(main)
            if order != self.mods:
                raise Reject()
        self.names()

    def uses(self, m):
        """The symbols of other modules that the text of m names, and those
        of them that have to be named without a module."""
        need, plain = [], set()

        def note(y):
            if getattr(y, "mod", None) not in (None, m) and y not in need:
                need.append(y)
            return y.name

        p = Printer(None, note)
        for x in m.items:
            p.stmt(x)
        for y in need:
            if y.kind == "uni":
                plain.add(y)
        mets = set()
        syms, nodes = [], []
        parts(m.items, syms, nodes, set())
        for x in nodes:
            if x.k == "meth":
                mets.add(x.fn.mod)
        return need, plain, mets

    def link(self, m):
        s = self.s
        need, plain, mets = self.uses(m)
        by = {}
        for y in need:
            by.setdefault(y.mod, []).append(y)
        for t in mets:
            if t not in (None, m):
                by.setdefault(t, [])
        for t in self.mods[: m.i]:
            if t not in by and s.p(15):
                by[t] = []
        for t in sorted(by, key=lambda t: t.i):
            ys = by[t]
            form = s.weighted([(3, "global"), (3, "alias"), (3, "items"), (1, "both")])
            named = [y for y in ys if y in plain]
            if form == "items" and not ys:
                form = "items" if t.own else "alias"
                ys = s.sub(t.own, 1)
            s.label("usa-" + form)
            if form == "global":
                m.imports.append(["global", t, None])
            elif form == "items":
                m.imports.append(["items", t, s.shuffle(ys)]) if ys else m.imports.append(["alias", t, None])
            else:
                m.imports.append(["alias", t, None])
                if form == "both" and ys:
                    named += [y for y in s.sub(ys, s.rint(1, len(ys))) if y not in named]
                if named:
                    m.imports.append(["items", t, named])
            if s.p(5):
                m.imports.append(["alias", t, None])

    def scope(self, m, seen=None):
        """What the names of m's scope are: [(Sym or (Mod, alias))]"""
        if m in self._scopes:
            return self._scopes[m]
        out = list(m.own)
        for form, t, what in m.imports:
            if form == "global":
                out += [y for y in self.scope(t) if y not in out]
            elif form == "items":
                out += [y for y in what if y not in out]
            else:
                out += [y for y in (what,) if y is not None and y not in out]
        self._scopes[m] = out
        return out

    def names(self):
        """Names for the symbols of the modules: equal ones wherever no module
        sees both."""
        s = self.s
        from .lang import Sym
        for m in self.mods:
            for f in m.imports:
                if f[0] == "alias":
                    f[2] = Sym("?", kind="alias", mod=m, target=f[1])
                    f[2].glob = True
        self._scopes = {}
        self.renamed = True
        together = {}
        for m in self.mods:
            sc = self.scope(m)
            for y in sc:
                together.setdefault(y, set()).update(sc)
        tops = set(together)
        local = {}
        for m in self.mods:
            # the names of the locals of the modules that see a symbol
            syms, nodes = [], []
            parts(m.items, syms, nodes, set())
            names = {y.name for y in syms if y not in tops and y.kind in ("var", "rec", "uni")}
            for y in self.scope(m):
                local.setdefault(y, set()).update(names)
        done = {}
        for y in together:
            if y.kind != "alias" and not s.p(60):
                done[y] = y.name
        for y in together:
            if y in done:
                continue
            pool = {"alias": ALIASES, "func": FUNCS, "var": VARS, "rec": TYPES, "uni": TYPES}[y.kind]
            for _ in range(6):
                n = s.pick(pool)
                if n not in local[y] and all(done.get(o) != n for o in together[y] if o is not y):
                    break
            else:
                n = f"{pool[0]}_{len(done)}"
            if n in done.values():
                s.label("equal-names")
            done[y] = n
            y.name = n

    def view(self, m):
        """How m names a symbol."""
        s = self.s
        plain = {y for y in self.scope(m)}
        ways = {}

        def paths(m0, prefix, depth):
            for y in self.scope(m0):
                if y.kind == "alias":
                    if depth < 2:
                        paths(y.target, prefix + y.name + ".", depth + 1)
                elif prefix:
                    ways.setdefault(y, []).append(prefix + y.name)

        paths(m, "", 0)
        force = {y for y in plain if y.kind == "uni"}

        def name(y):
            if y in self.tops and y.mod is not m:
                w = list(ways.get(y, ()))
                if y in plain:
                    w = [y.name] + w
                    if y in force:
                        return y.name
                if not w:
                    raise AssertionError(f"{y} of {y.mod.path} cannot be named in {m.path}")
                return w[s.n(len(w))]
            return y.name
        return name

    def sources(self, style=None):
        s = self.s
        self.tops = {y for m in self.mods for y in m.own}
        files = {}
        for m in self.mods:
            p = Printer(style, self.view(m))
            if style is not None and s.p(20):
                p.w("# " + m.path)
                p.nl()
            for form, t, what in m.imports:
                path = t.path
                k = s.n(6)
                if k == 1:
                    path += ".ama"
                elif k == 2:
                    path = "./" + path
                elif k == 3:
                    path = "sub/../" + path if any(x.path.startswith("sub/") for x in self.mods) else path
                q = s.pick("\"'")
                p.w(f"usa {q}{path}{q}")
                if form == "alias":
                    p.w(" => " + what.name)
                elif form == "items":
                    p.w(" => [" + ", ".join(y.name for y in what) + "]")
                p.nl()
            for x in m.items:
                p.stmt(x)
            files[m.path + ".ama"] = p.text()
            m.line = p.line
        return files

    def again(self, items):
        """Takes the remaining items of a program that is being reduced."""
        for m in self.mods:
            m.items = [x for x in items if x.mod is m]
            m.own = [y for x in m.items for y in declared(x)]
        own = {y for m in self.mods for y in m.own}
        for m in self.mods:
            for f in m.imports:
                if f[0] == "items":
                    f[2] = [y for y in f[2] if y in own]
            m.imports = [f for f in m.imports if f[0] != "items" or f[2]]
        self._scopes = {}
        self.s = Src(replay=[])
        return self.sources()
