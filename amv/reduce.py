"""Shrinks a program by editing its tree while it still fails."""
import time

from .lang import N, Sym, is_opt, is_rec, is_uni, is_vec

BODIES = ("body", "other")


def uses(items):
    """-> (declared, used) sets of Syms"""
    decl, used = set(), set()

    def ty(t):
        while isinstance(t, tuple):
            t = t[1]
        if isinstance(t, Sym):
            used.add(t)

    def pat(p):
        if p.k == "pvar":
            decl.add(p.sym)
        elif p.k == "padt":
            used.add(p.sym.owner)
            for a in p.args:
                pat(a)

    def go(x):
        if isinstance(x, (list, tuple)):
            for y in x:
                go(y)
            return
        if not isinstance(x, N):
            return
        k = x.k
        if k == "func":
            f = x.sym
            decl.add(f)
            decl.update(f.params)
            for p in f.params:
                ty(p.ty)
            ty(f.ret)
            if f.kind == "met":
                ty(f.target)
            go(f.body)
            return
        if k == "rec":
            if hasattr(x, "args"):
                used.add(x.sym)
                go(x.args)
            else:
                decl.add(x.sym)
                for _, t in x.sym.fields:
                    ty(t)
            return
        if k == "uni":
            decl.add(x.sym)
            for v in x.sym.variants:
                for t in v.params:
                    ty(t)
            return
        if k in ("decl", "para"):
            decl.add(x.sym)
            ty(x.sym.ty)
        elif k == "multi":
            decl.update(x.syms)
        elif k == "var":
            used.add(x.sym)
        elif k in ("call", "meth"):
            used.add(x.fn)
        elif k == "variant":
            used.add(x.sym.owner)
        elif k in ("list", "vecn"):
            ty(x.elem)
        elif k == "cast":
            ty(x.ty)
        if getattr(x, "pat", None) is not None:
            pat(x.pat)
        for name, v in x.__dict__.items():
            if name not in ("sym", "fn", "ty", "elem", "pat", "k", "line"):
                go(v)

    go(items)
    return decl, used


def closed(items):
    decl, used = uses(items)
    return used <= decl


def safe(t):
    if t == "int":
        return N("int", v=1, ty=t)
    if t == "real":
        return N("real", t="1.5", v=1.5, ty=t)
    if t == "bool":
        return N("bool", v=True, ty=t)
    if t == "texto":
        return N("text", v="a", q="'", ty=t)
    if is_vec(t):
        return N("list", elem=t[1], args=[], ty=t)
    if is_opt(t):
        return N("prom", e=N("nulo", ty="nulo"), ty=t)
    return None


def bodies(items):
    """All the statement lists of the program, outermost first."""
    out = [items]

    def go(x):
        if isinstance(x, list):
            if x and all(isinstance(y, N) for y in x) and is_stmt(x[0]):
                if x is not items:
                    out.append(x)
            for y in x:
                go(y)
        elif isinstance(x, tuple):
            for y in x:
                go(y)
        elif isinstance(x, N):
            if x.k == "func":
                go(x.sym.body)
                return
            for name, v in x.__dict__.items():
                if name not in ("sym", "fn", "ty", "elem", "pat", "k", "line"):
                    go(v)

    go(items)
    return out


STMTS = {"decl", "multi", "assign", "compound", "mostra", "expr", "se", "enquanto", "para",
         "escolha", "iguala", "seiguala", "retorna", "produz", "quebra", "continua", "func", "rec",
         "uni", "raw", "fault"}


def is_stmt(n):
    if n.k == "rec":
        return not hasattr(n, "args")
    if n.k == "iguala":
        return hasattr(n, "x")
    return n.k in STMTS


def slots(items):
    """(container, key) of every expression."""
    out = []

    def go(x, owner, key):
        if isinstance(x, list):
            for i, y in enumerate(x):
                if isinstance(y, tuple):
                    # (cond, block), (name, value) or (value, block)
                    for j, z in enumerate(y):
                        go(z, (x, i, j), None)
                else:
                    go(y, x, i)
        elif isinstance(x, N):
            if not is_stmt(x) and x.k not in ("armx", "armb") and getattr(x, "ty", None) is not None:
                out.append((owner, key))
            if x.k == "func":
                go(x.sym.body, x.sym, "body")
                return
            for name, v in list(x.__dict__.items()):
                if name not in ("sym", "fn", "ty", "elem", "pat", "k", "line", "targets", "target"):
                    go(v, x, name)

    go(items, None, None)
    return out


def get(slot):
    o, k = slot
    if isinstance(o, tuple):
        return o[0][o[1]][o[2]]
    return o[k] if isinstance(o, list) else getattr(o, k)


def put(slot, v):
    o, k = slot
    if isinstance(o, tuple):
        lst, i, j = o
        t = list(lst[i])
        t[j] = v
        lst[i] = tuple(t)
    elif isinstance(o, list):
        o[k] = v
    else:
        setattr(o, k, v)


def children(x):
    out = []

    def go(v):
        if isinstance(v, N):
            if getattr(v, "ty", None) is not None and not is_stmt(v):
                out.append(v)
        elif isinstance(v, (list, tuple)):
            for y in v:
                go(y)

    for name, v in x.__dict__.items():
        if name not in ("sym", "fn", "ty", "elem", "pat", "k", "line"):
            go(v)
    return out


def reduce_items(items, fails, deadline):
    tries = 0

    def test():
        nonlocal tries
        tries += 1
        return fails()

    changed = True
    while changed and time.time() < deadline:
        changed = False
        # remove statements
        for body in bodies(items):
            size = max(len(body) // 2, 1)
            while size >= 1:
                i = 0
                while i < len(body) and time.time() < deadline:
                    old = body[i:i + size]
                    del body[i:i + size]
                    if test():
                        changed = True
                    else:
                        body[i:i] = old
                        i += size
                size //= 2
        # replace statements by what they contain
        for body in bodies(items):
            i = 0
            while i < len(body) and time.time() < deadline:
                s = body[i]
                for inner in inner_bodies(s):
                    body[i:i + 1] = inner
                    if test():
                        changed = True
                        break
                    body[i:i + len(inner)] = [s]
                else:
                    for edit in statement_edits(s):
                        undo = edit()
                        if undo is not None:
                            if test():
                                changed = True
                            else:
                                undo()
                i += 1
        # simplify expressions
        for slot in slots(items):
            if time.time() > deadline:
                break
            try:
                x = get(slot)
            except (IndexError, AttributeError):
                continue
            if not isinstance(x, N) or x.k in ("int", "bool", "text", "real", "nulo"):
                continue
            t = getattr(x, "ty", None)
            cands = []
            sv = safe(t)
            if sv is not None and x.k != sv.k:
                cands.append(sv)
            cands += [c for c in children(x) if c.ty == t]
            for c in cands:
                put(slot, c)
                if test():
                    changed = True
                    break
                put(slot, x)
    return tries


def inner_bodies(s):
    out = []
    if s.k in ("enquanto", "para", "seiguala"):
        out.append(s.body)
        if getattr(s, "other", None):
            out.append(s.other)
    elif s.k == "se":
        out += [b for _, b in s.conds]
        if s.other:
            out.append(s.other)
    elif s.k == "escolha":
        out += [b for _, b in s.cases]
        if s.other:
            out.append(s.other)
    elif s.k == "iguala":
        out += [a.body for a in s.x.arms if a.k == "armb" and not
                (a.body and a.body[-1].k == "produz")]
    return [list(b) for b in out if b]


def statement_edits(s):
    out = []

    def drop_other():
        old = s.other
        s.other = None

        def undo():
            s.other = old
        return undo

    if getattr(s, "other", None):
        out.append(drop_other)
    for attr in ("conds", "cases", "arms"):
        lst = getattr(s.x if s.k == "iguala" else s, attr, None)
        if lst:
            for i in reversed(range(len(lst))):
                def edit(lst=lst, i=i):
                    if i >= len(lst) or len(lst) == 1:
                        return None
                    old = lst[i]
                    del lst[i]
                    return lambda: lst.insert(i, old)
                out.append(edit)
    if s.k == "func":
        def params():
            return None
        out.append(params)
    return out
