"""Bytecode is well formed."""
import os

from ..diff import Diff
from ..image import Bad, decode, sweep, verify
from ..lang import walk
from ..multi import MultiGen
from .c10 import C10


def tail(name):
    """How the methods of the types of other modules are told apart is free."""
    return "::".join(name.split("::")[-2:])


def fname(f, m=None):
    if f.kind == "met":
        home = m and not isinstance(f.target, str) and f.target[1].mod
        if home and home is not m:
            path = os.path.relpath(home.path + ".ama", os.path.dirname(m.path) or ".")
            return f"{path}::{f.target[1].name}::{f.name}"
        return (f.target if isinstance(f.target, str) else f.target[1].name) + "::" + f.name
    return f.name


class C18(Diff):
    id = "C18"
    quick = 1500
    thorough = 80000
    needs_vm = False
    technique = ("property-based testing: images of generated programs checked by an independent "
                 "bytecode verifier (abstract interpretation of every path)")
    level_note = ("Random programs; for each one every path of its code is followed by the verifier.")
    assumptions = ("Opcode numbers, operand widths and stack effects are those of vm.rs/opcode.rs.",)
    rule = ("A case is a generated program of any mix of features; its image is decoded and every "
            "function is verified: complete known instructions, operands in range, jump targets "
            "inside the function, no stack underflow, locals initialised before they are read, "
            "calls with the right number of arguments, the source map. Non-trivial: the image has "
            "at least 30 instructions.")
    profile = dict(depth=3, indefs=2, keep_err=20, nfunc=(0, 4), nmet=(0, 3), nuni=(0, 3), nrec=(0, 3),
                   escolha=4, para=5, enquanto=4, iguala=5, seiguala=3, igx=1, jump=5, block=2, body=(1, 3), ntop=(3, 8))

    def gen(self, src, tier):
        if src.p(20):
            g = MultiGen(src, **C10.profile)
            g.modules(src.rint(2, 4))
            files = g.sources()
            src.label("modules")
            arity = {}
            for m in g.mods:
                name = m.path.split("/")[-1]
                # two modules of one name cannot be told apart in the image
                arity[name] = None if name in arity else {
                    fname(x.sym, m): len(x.sym.params) + (x.sym.kind == "met") for x in m.items if x.k == "func"}
            lines = {k.split("/")[-1][:-4]: t.count("\n") + 1 for k, t in files.items()}
            return {"files": files, "arity": {k: v for k, v in arity.items() if v is not None},
                    "lines": {k: v for k, v in lines.items() if arity.get(k) is not None},
                    "variants": sum(len(x.sym.variants) for m in g.mods for x in m.items if x.k == "uni")}
        prog = self.build(src, tier)
        return self.case_of(prog, src if src.p(50) else None)

    def case_of(self, prog, style=None):
        text = prog.source(style)
        arity, variants, shows = {}, 0, set()
        nodes = []

        def body(x):
            for n in walk(x):
                nodes.append(n)
                if n.k == "mostra":
                    shows.update(range(n.line, getattr(n, "last", n.line) + 1))

        for it in prog.items:
            if it.k == "uni":
                variants += len(it.sym.variants)
            if it.k == "func":
                f = it.sym
                arity[fname(f)] = len(f.params) + (f.kind == "met")
                body(f.body)
            else:
                body(it)
        stmts = {id(n.x) for n in nodes if n.k == "iguala" and hasattr(n, "x")}
        if any(n.k == "iguala" and not hasattr(n, "x") and id(n) not in stmts for n in nodes):
            shows = None    # expressions of many lines
        else:
            shows = sorted(shows)
        return {"src": text, "arity": arity, "variants": variants, "shows": shows}

    def check(self, case, env):
        if "files" in case:
            r = env.w.run(case["files"], "prog.ama", vm=False)
            w = self.judge_modules(case, r)
            return w and w + "\n" + r.show() + "\n" + "\n".join(f"### {n}\n{t}" for n, t in case["files"].items())
        r = env.w.run(case["src"], vm=False)
        w = self.judge(case, r)
        return w and w + "\n" + r.show() + "\n--- program\n" + case["src"]

    def judge_modules(self, case, r):
        if r.blob is None or r.rc != 0:
            return "the program was not compiled"
        try:
            image = decode(r.blob)
            stats = verify(image, case["arity"], case["lines"], case["variants"] + 64)
            want = sorted(k.split("/")[-1][:-4] for k in case["files"])
            got = sorted(m["name"] for m in [image, *image["imports"]] if not m["builtin"])
            if want != got:
                return f"the modules of the image are {got}, those of the program {want}"
            for m in [image, *image["imports"]]:
                if m["name"] in case["arity"] and (sorted(tail(f["name"]) for f in m["functions"])
                                                   != sorted(tail(n) for n in case["arity"][m["name"]])):
                    return (f"the functions of {m['name']} are {[f['name'] for f in m['functions']]}, "
                            f"expected {sorted(case['arity'][m['name']])}")
            self.last = stats["instructions"]
        except Bad as e:
            return "ill-formed image: " + str(e)
        return None

    def judge(self, case, r):
        if r.blob is None or r.rc != 0:
            return "the program was not compiled"
        try:
            image = decode(r.blob)
            names = {m["name"] for m in [image, *image["imports"]]}
            if "prog" not in names:
                return "no module is named prog"
            stats = verify(image, {"prog": case["arity"]},
                           {"prog": case["src"].count("\n") + 1},
                           None)
            listed = [f["name"] for f in image["functions"]]
            if sorted(set(listed)) != sorted(case["arity"]):
                return f"the functions of the image are {listed}, those of the program {sorted(case['arity'])}"
            sm = image["src_map"]
            shows = case["shows"]
            for p, (op, a, nxt) in sweep(image["ops"]).items():
                if op == "MOSTRA" and shows is not None:
                    ln = [sm[i + 2] for i in range(0, len(sm), 3) if sm[i] <= p <= sm[i + 1]]
                    if not ln or ln[0] not in shows:
                        return f"the source map gives line {ln} to the MOSTRA at {p}; no mostra is there"
            self.last = stats["instructions"]
        except Bad as e:
            return "ill-formed image: " + str(e)
        return None

    last = 0

    def nontrivial(self, case):
        return str(case.get("files") or case["src"]) if self.last >= 30 else None

    def sample(self, case):
        return {"program": str(case.get("files") or case["src"])[:1500], "instructions": self.last}


PROP = C18()
