"""The command line."""
import os
import shutil

from .. import cli
from ..diag import parse
from ..diff import rt_message
from ..engine import Property
from ..ref import e_index

DIRS = ["", "", "a", "a/b", "b", "pasta um", "ção", "x.y", "a/ama"]
MAINS = ["prog.ama", "prog.ama", "p", "um programa.ama", "é.ama", ".ama", "a.b.ama", "prog.txt", "-p.ama", "-d", "prog.AMA", "mat", "日本.ama", "m0"]
ROOT = "@ROOT@"


def join(d, n):
    return os.path.join(d, n) if d else n


class C22(Property):
    id = "C22"
    quick = 800
    thorough = 40000
    technique = ("property-based testing of the real command: generated folder layouts, path spellings, options, environments and "
                 "stdout faults, against a model of the command line")
    level_note = "Layouts of up to 8 folders and 6 files; imports up to 3 deep; stdout a pipe, a full device or a closed pipe."
    assumptions = ("Imports are looked up in the current folder and then in the standard library, as resolve_import documents.",
                   "Runs `python -m amanda` from a copy of amanda/ and std/ of the working tree, with the VM built from it.")
    rule = ("A case is a folder layout (program and modules in several folders, decoys with the same names elsewhere, a module named like one "
            "of the standard library), a current folder, a spelling of the program's path, options, an environment and an outcome (normal end, "
            "run-time error, error in the program or in a module, missing module, import cycle, missing file, wrong usage, unwritable "
            "stdout). Checked: exit status, exact stdout, stderr, and the names and contents of all files afterwards. Non-trivial: every "
            "case; distinct by layout and arguments.")

    # ------------------------------------------------------------ generation
    def spell(self, s, target, cwd, dirs, ext=None):
        """A path for target, which is relative to the root, seen from cwd."""
        rel = os.path.relpath(join("/r", target), join("/r", cwd))
        k = s.n(6)
        if k == 0:
            rel = "./" + rel
        elif k == 1:
            rel = ROOT + "/" + target
        elif k == 2:
            # through a folder that exists below the current one
            subs = [os.path.relpath(join("/r", d), join("/r", cwd)) for d in dirs if d and d != cwd and (not cwd or d.startswith(cwd + "/"))]
            if subs:
                x = s.pick(subs)
                rel = x + "/" + "/".join(".." for _ in x.split("/")) + "/" + rel
        elif k == 3:
            rel = rel.replace("/", "//" if s.n(2) else "/./")
        return rel

    def gen(self, s, tier):
        dirs = sorted({s.pick(DIRS) for _ in range(s.rint(1, 5))} | {""})
        for d in list(dirs):
            if "/" in d:
                dirs.append(d.split("/")[0])
        dirs = sorted(set(dirs))
        cwd, home = s.pick(dirs), s.pick(dirs)
        name = s.pick(MAINS)
        main = join(home, name)
        if main in dirs:
            name, main = "prog.ama", join(home, "prog.ama")
        kind = s.weighted([(6, "ok"), (3, "rt"), (3, "bad"), (2, "badmod"), (2, "nomod"), (1, "cycle"), (2, "missing"), (1, "usage"),
                           (1, "help"), (1, "full")])
        files, expect = {}, {"kind": kind, "rc": 0, "out": "", "err": None}
        nmods = s.rint(0, 3)
        if kind in ("badmod", "cycle"):
            nmods = max(1, nmods)
        mods = []
        for i in range(nmods):
            p = join(s.pick(dirs), f"m{i}.ama")
            mods.append(p)
        s.label(kind)
        s.label("cwd=" + ("home" if cwd == home else "other"))
        # module i may import the later ones; the program imports module 0 and some others
        lines = {p: [] for p in [main, *mods]}
        order = []      # what is loaded, in order

        def usa(importer, i, alias):
            p = self.spell(s, mods[i], cwd, dirs)
            if p.endswith(".ama") and s.p(60):
                p = p[:-4]
            q = s.pick("'\"")
            lines[importer].append(f"usa {q}{p}{q} => {alias}")

        edges = {p: [] for p in lines}
        for i, p in enumerate(mods):
            for j in range(i + 1, nmods):
                if s.p(50):
                    edges[p].append(j)
        first = [i for i in range(nmods) if i == 0 or s.p(50)]
        reach = set()

        def load(i):
            if i in reach:
                return
            reach.add(i)
            for j in edges[mods[i]]:
                load(j)
            order.append(i)
        edges[main] = first
        for i in first:
            load(i)
        out = ""
        for i in order:
            out += f"módulo {i}\n"
        mat = s.weighted([(5, None), (2, "std"), (2, "local"), (1, "away")])
        if main in (join(cwd, "mat.ama"), join(cwd, "mat")):
            mat = None
        if mat:
            s.label("mat-" + mat)
            lines[main].append('usa "mat" => mm')
            if mat == "local":
                files[join(cwd, "mat.ama")] = "func abs(x: int): int\n    retorna 77\nfim\n"
            if mat == "away":
                for d in dirs:
                    if d != cwd and join(d, "mat.ama") != main:
                        files[join(d, "mat.ama")] = "func abs(x: int): int\n    retorna 77\nfim\n"
        for p in [main, *mods]:
            for j in edges[p]:
                usa(p, j, f"z{j}")
        for i, p in enumerate(mods):
            lines[p] += [f"mostra 'módulo {i}'", f"func valor(): int", f"    retorna {10 + i}", "fim"]
        body = lines[main]
        read = s.p(20)
        stdin = ""
        body += ["mostra 'início'"]
        out += "início\n"
        for j in first:
            body.append(f"mostra z{j}.valor()")
            out += f"{10 + j}\n"
        if mat:
            body.append("mostra mm.abs(5 - 8)")
            out += ("77" if mat == "local" else "3.0") + "\n"
        if read:
            stdin = s.pick(["olá\nmundo\n", "olá", "\n", "", "a b \r\n"])
            body.append("mostra '[' == '['")
            body.append("linha: texto = leia('nome? ')")
            body.append("escrevaln(linha)")
            out += "verdadeiro\nnome? " + (stdin.split("\n")[0] if stdin else "") + "\n"
        last = s.pick(["mostra 'fim'", "escreva('fim')", "mostra 'não há mais'", ""])
        if kind == "ok":
            body.append(last)
            out += {"mostra 'fim'": "fim\n", "escreva('fim')": "fim", "mostra 'não há mais'": "não há mais\n", "": ""}[last]
        elif kind == "rt":
            where = s.pick(["main", "function", "module"]) if order else s.pick(["main", "function"])
            bad = ["v: [int] = [int: 1, 2]", "escreva('antes')", "mostra v[7]", "mostra 'depois'"]
            if where == "main":
                body += bad
                out += "antes"
            elif where == "function":
                body += ["func f()", *bad, "fim", "f()", "mostra 'depois'"]
                out += "antes"
            else:
                i = s.pick(order)
                lines[mods[i]] += bad
                out = "".join(f"módulo {j}\n" for j in order[:order.index(i) + 1]) + "antes"
            expect["err"] = e_index(2, 7)
            expect["rc"] = 1
        elif kind in ("bad", "badmod"):
            p = main if kind == "bad" else mods[s.pick(order)]
            b = s.pick(["zz: int = 'a'", "mostra )", "mostra nada", "retorna", "mostra 'aberto", "zz: int = 1 +", "$"])
            at = s.rint(len(lines[p]) if b == "mostra 'aberto" else len([x for x in lines[p] if x.startswith("usa")]), len(lines[p]))
            if at and lines[p][at - 1].startswith(("func", "    ")):
                at = len(lines[p])
            lines[p].insert(at, b)
            expect["file"], expect["line"] = p, at + 1
        elif kind == "nomod":
            p = main if not order or s.p(50) else mods[s.pick(order)]
            m = s.pick(["nada", "a/nada", "./nada.ama", "../fora/nada", ROOT + "/nada", "", "a/", "mat.txt", "embutido"])
            # next to the program is not where it is looked for
            if home != cwd and s.p(50):
                m = "perto"
                files[join(home, "perto.ama")] = "mostra 'perto'\n"
            lines[p].insert(0, f"usa '{m}' => nn")
            expect["file"], expect["line"] = p, 1
        elif kind == "cycle":
            i = s.pick(order)
            t = self.spell(s, main, cwd, dirs)
            if not name.endswith(".ama"):
                kind = expect["kind"] = "ok"
            else:
                lines[mods[i]].insert(0, f"usa '{t}' => cc")
                expect["msg"] = "cíclica"
        for p, ls in lines.items():
            files[p] = "\n".join(ls) + "\n"
        # decoys: beside the program, with the names of the modules
        for p in mods:
            for d in dirs:
                f = join(d, os.path.basename(p))
                if f not in files and f not in dirs and s.p(40):
                    files[f] = "mostra 'errado'\nfunc valor(): int\n    retorna 0\nfim\n"
        args = self.spell(s, main, cwd, dirs)
        if s.p(10) and kind in ("ok", "rt", "full"):
            # the program under another name
            expect["link"] = join(cwd, "atalho.ama")
            args = "atalho.ama"
        debug = s.p(35)
        argv = [args]
        if args.startswith("-"):
            argv = ["--", args] if s.p(50) else ["./" + args]
        if debug:
            o = s.pick(["-d", "--debug"])
            argv = [o, *argv] if s.p(60) or argv[0] == "--" else [*argv, o]
        if kind == "missing":
            expect["rc"] = 1
            bad = s.pick([args + "x", "nada.ama", ROOT, ".", ROOT + "/nada/prog.ama", args + "/", "..", "", "\n", "no meio.ama"])
            if os.path.normpath(join("/r", join(cwd, bad))) in (join("/r", f) for f in files) and not bad.endswith("/"):
                bad = "nada.ama"
            argv = [("-d" if debug else "--"), bad] if not bad.startswith("-") else ["--", bad]
        elif kind == "usage":
            expect["rc"] = 2
            argv = s.pick([[], ["-d"], ["-x", "./" + args], ["--nada", "prog.ama"], [*argv, "outro.ama"], ["--"], ["--debug=1", "./" + args]])
        elif kind == "help":
            argv = s.pick([["-h"], ["--help"], ["-h", "nada.ama"]])
        if kind in ("ok", "rt", "full", "cycle"):
            pass
        if kind in ("ok", "rt", "full", "help"):
            expect["out"] = out
        if kind == "full":
            expect["rc"] = 1
        expect["listing"] = join(cwd, "debug.amasm") if debug and expect["kind"] in ("ok", "rt", "full") else None
        if s.p(25):
            files[join(cwd, "debug.amasm")] = "VELHO\n" * 2000
        extra = {}
        paths = "".join([cwd, home, *dirs, *files])
        if expect["kind"] in ("ok", "rt", "full") and paths.isascii() and s.p(30):
            extra = {"LC_ALL": "C", "PYTHONUTF8": "0", "PYTHONCOERCECLOCALE": "0"}
            s.label("locale-C")
        return {"files": files, "dirs": dirs, "cwd": cwd, "argv": argv, "stdin": stdin, "extra": extra, "expect": expect,
                "stdout": s.pick(["/dev/full", "closed"]) if kind == "full" else None, "twice": s.p(15)}

    # ---------------------------------------------------------------- running
    def check(self, case, env):
        root = os.path.join(env.scratch, f"w{os.getpid()}")
        shutil.rmtree(root, ignore_errors=True)
        os.makedirs(root)
        root = os.path.realpath(root)
        for d in case["dirs"]:
            os.makedirs(os.path.join(root, d), exist_ok=True)
        for f, t in case["files"].items():
            with open(os.path.join(root, f), "w", encoding="utf-8", newline="") as h:
                h.write(t.replace(ROOT, root))
        ex = case["expect"]
        if ex.get("link"):
            main = next(iter(k for k in case["files"] if "início" in case["files"][k]))
            os.symlink(os.path.join(root, main), os.path.join(root, ex["link"]))
        before = self.tree(root)
        for k in range(2 if case["twice"] else 1):
            w = self.once(case, env, root, before)
            if w:
                return (f"{w}\ncwd: {case['cwd']!r} argv: {case['argv']!r}\n" +
                        "\n".join(f"--- {n}\n{t[:600]}" for n, t in sorted(case["files"].items())))
        shutil.rmtree(root, ignore_errors=True)
        return None

    def tree(self, root):
        out = {}
        for b, ds, ns in os.walk(root):
            for d in ds:
                out[os.path.relpath(os.path.join(b, d), root)] = None
            for n in ns:
                p = os.path.join(b, n)
                if os.path.isfile(p) and not os.path.islink(p):
                    with open(p, "rb") as h:
                        out[os.path.relpath(p, root)] = h.read()
                else:
                    out[os.path.relpath(p, root)] = os.readlink(p).encode() if os.path.islink(p) else b"?"
        return out

    def once(self, case, env, root, before):
        ex = case["expect"]
        kind = ex["kind"]
        out = None
        if case["stdout"] == "closed":
            r, out = os.pipe()
            os.close(r)
        elif case["stdout"]:
            out = os.open(case["stdout"], os.O_WRONLY)
        try:
            a = cli.run(env, os.path.join(root, case["cwd"]), [x.replace(ROOT, root) for x in case["argv"]],
                        case["stdin"].encode(), out, case["extra"])
        finally:
            if out is not None:
                os.close(out)
        w = self.judge(case, a, root)
        if w:
            return f"{kind}: {w}\n{a.show()}"
        after = self.tree(root)
        new = sorted(set(after) - set(before))
        lst = ex["listing"]
        if [x for x in new if x != lst]:
            return f"{kind}: files were created: {new}\n{a.show()}"
        gone = sorted(set(before) - set(after))
        if gone:
            return f"{kind}: files disappeared: {gone}"
        changed = sorted(x for x in before if before[x] != after[x])
        if [x for x in changed if x != lst]:
            return f"{kind}: files were changed: {changed}"
        if lst:
            t = after.get(lst)
            if not t:
                return f"{kind}: no debug listing\n{a.show()}"
            t = t.decode("utf-8", "strict")
            if "VELHO" in t or ("início" not in t):
                return f"{kind}: the debug listing is not the program's:\n{t[:500]}"
        return None

    def judge(self, case, a, root):
        ex = case["expect"]
        kind = ex["kind"]
        if a.timeout:
            return "the command did not end"
        if a.rc != ex["rc"]:
            return f"exit status {a.rc}, expected {ex['rc']}"
        if "Traceback" in a.err or "panicked" in a.err:
            return "a crash"
        if kind == "help":
            return None if not a.err and "usage" in a.out else "no help on stdout"
        want = ex["out"] if kind != "full" else ""
        if a.out != want:
            return f"stdout is {a.out!r}, expected {want!r}"
        if kind == "ok":
            return "something on stderr" if a.err else None
        if kind == "full":
            return None if rt_message(a.err) else "no run-time error"
        if kind == "rt":
            m = rt_message(a.err)
            return None if m and m[1] == ex["err"] else f"expected the error {ex['err']!r}"
        if kind == "usage":
            return None if "usage" in a.err else "no usage message on stderr"
        if kind == "missing":
            return None if "was not found" in a.err and a.err.count("\n") <= 2 else "no message about the missing file"
        d = parse(a.err)
        if d is None:
            return "this is not one diagnostic"
        at = os.path.realpath(os.path.join(root, case["cwd"], d.file))
        if "file" in ex and (at != os.path.join(root, ex["file"]) or d.line != ex["line"]):
            return f"the diagnostic is about {at}:{d.line}, expected {ex['file']}:{ex['line']}"
        if "msg" in ex and ex["msg"] not in d.msg:
            return f"expected a message about {ex['msg']!r}"
        return None

    def nontrivial(self, case):
        return str((case["argv"], case["cwd"], case["files"]))

    def sample(self, case):
        return {"cwd": case["cwd"], "argv": case["argv"], "files": {k: v[:300] for k, v in case["files"].items()},
                "expect": {k: v for k, v in case["expect"].items()}}


PROP = C22()
