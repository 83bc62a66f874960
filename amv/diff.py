"""Properties decided by running generated programs on the real compiler and
virtual machine and comparing with the reference interpreter."""
import re
import sys

from .engine import Property, Reject, Src, TIER
from .gen import Gen
from .reduce import closed, reduce_items
from .ref import Ref, StepLimit

sys.setrecursionlimit(20000)

ERR = re.compile(r"^Erro na linha (\d+): (.*)\.\Z", re.S | re.M)


def rt_message(err):
    """-> (line, message) of a run-time error, or None"""
    i = err.rfind("Erro na linha ")
    if i < 0:
        return None
    m = ERR.match(err[i:].rstrip("\n"))
    return (int(m.group(1)), m.group(2)) if m else None


def expect_of(ref):
    return {"out": ref.text(), "error": ref.error}


def compare(r, exp, src=None):
    """r: client.Result.  -> None or what is wrong"""
    why = None
    if r.how == "timeout":
        return "the program did not end\n" + r.show()
    if r.how == "crash":
        why = "crash"
    elif r.how == "rejected":
        why = "a valid program was rejected"
    elif r.out != exp["out"]:
        why = "wrong output; expected:\n" + exp["out"] + "\n" + first_diff(r.out, exp["out"])
    elif exp["error"] is None:
        if r.rc != 0:
            why = "the program stopped with an error; expected a normal end"
        elif r.err:
            why = "something was written to stderr"
    else:
        m = rt_message(r.err)
        if r.rc != 1:
            why = f"exit status {r.rc}; expected 1 and the error: " + exp["error"]
        elif m is None or m[1] != exp["error"]:
            why = "wrong error; expected: " + exp["error"]
    if why is None:
        return None
    return why + "\n" + r.show() + (("\n--- program\n" + src) if src else "")


def first_diff(a, b):
    x, y = a.split("\n"), b.split("\n")
    for i in range(max(len(x), len(y))):
        p = x[i] if i < len(x) else "<end>"
        q = y[i] if i < len(y) else "<end>"
        if p != q:
            return f"first difference at output line {i + 1}: got {p!r}, expected {q!r}"
    return "(no difference)"


class Diff(Property):
    profile = {}
    technique = ("property-based testing: generated well-typed programs run on the real compiler "
                 "and VM, differential against a reference interpreter, failures shrunk on the tree")
    level_note = ("Random search: holds on the programs generated by this seed; the reference "
                  "interpreter is the specification.")
    assumptions = ("The reference interpreter amv/ref.py states the language's semantics.",
                   "The VM is built from amanda/vm of the working tree and run in-process.")
    timeout = 15
    classes = {}     # name -> predicate(ref stats, labels)

    def make(self, src, tier):
        return Gen(src, **self.profile)

    def build(self, src, tier):
        g = self.make(src, tier)
        return g.program()

    def gen(self, src, tier):
        prog = self.build(src, tier)
        text = prog.source(src if src.p(60) else None)
        ref = prog.ref
        for k in ref.stats:
            src.label("run:" + k)
        if not ref.out and ref.error is None:
            raise Reject()
        return {"src": text, "expect": expect_of(ref)}

    def check(self, case, env):
        r = env.w.run(case["src"], timeout=self.timeout)
        return compare(r, case["expect"], case["src"])

    # --- shrinking, on the tree of the program
    def case_of(self, prog):
        ref = Ref(steps=20000)
        try:
            ref.run(prog.items)
        except (StepLimit, RecursionError):
            return None
        return {"src": prog.source(), "expect": expect_of(ref)}

    def reduce(self, choices, env, case, why, deadline):
        return self.reduce_prog(self.build(Src(replay=choices), TIER), env, case, why, deadline)

    def reduce_prog(self, prog, env, case, why, deadline):
        cat = category(why)
        best = [case, why]

        def fails():
            if not closed(prog.items):
                return False
            try:
                c = self.case_of(prog)
            except Exception:
                return False
            if c is None:
                return False
            w = self.check(c, env)
            if w is None or category(w) != cat:
                return False
            best[:] = [c, w]
            return True

        self.timeout = 3
        if not fails():
            return case, why, 1
        n = reduce_items(prog.items, fails, deadline)
        return best[0], best[1], n

    def nontrivial(self, case):
        return case["src"] if case["expect"]["out"].count("\n") >= 2 else None

    def sample(self, case):
        return {"program": case["src"][:1500], "expected_output": case["expect"]["out"][:400],
                "expected_error": case["expect"]["error"]}


def category(why):
    """What kind of failure a text describes; shrinking keeps it."""
    head = why.split("\n")[0].split(";")[0]
    if head.startswith("ill-formed"):
        return re.sub(r"[\d']+|\S+,", "", head)
    m = re.findall(r"^(Erro[^\n]*)", why, re.M)
    if "rejected" in head and m:
        return head + re.sub(r"'[^']*'", "''", m[-1])
    if head == "crash":
        m = re.findall(r"^\w*(?:Error|Exception)\b|panicked", why, re.M)
        return head + str(m[-1:])
    return head
