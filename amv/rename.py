"""Consistent renaming of every declared name of a program."""
from .lang import N, Sym


def parts(x, syms, nodes, seen):
    """Collects the symbols and nodes reachable from a tree."""
    if isinstance(x, N):
        if id(x) in seen:
            return
        seen.add(id(x))
        nodes.append(x)
        for v in x.__dict__.values():
            parts(v, syms, nodes, seen)
    elif isinstance(x, Sym):
        if id(x) in seen:
            return
        seen.add(id(x))
        syms.append(x)
        for v in x.__dict__.values():
            parts(v, syms, nodes, seen)
    elif isinstance(x, (list, tuple)):
        for v in x:
            parts(v, syms, nodes, seen)


BASES = ["a", "b", "x", "main", "f", "v", "local", "i", "n0", "entry", "tmp", "_t", "A", "valor", "se_"]
SEPS = ["", "_", "__", "_0", "_1_"]


def rename(items, src):
    """Gives every symbol (and field) reachable from items a name that no other
    one has; the names look like ones a compiler could make up itself."""
    syms, nodes = [], []
    parts(items, syms, nodes, set())
    used = set()

    def new():
        for _ in range(40):
            n = src.pick(BASES) + src.pick(SEPS) + (str(src.n(4)) if src.p(70) else "")
            if n not in used and n not in ("valor",):
                used.add(n)
                return n
        n = "z%d" % len(used)
        used.add(n)
        return n

    fields = {}
    for y in syms:
        if y.name == "_":
            continue
        y.name = new()
        if y.kind == "rec":
            for n, _ in y.fields:
                if n not in fields:
                    fields[n] = new()
            y.fields = [(fields[n], t) for n, t in y.fields]
    for x in nodes:
        if x.k == "field":
            x.name = fields[x.name]
        elif x.k == "rec" and hasattr(x, "args"):
            x.args = [(fields[n], v) for n, v in x.args]
