"""Programs that are nearly well typed: whether the checker accepts one is not known, but what it accepts has to run."""
import re

from .rules import PRELUDE, WRONG

TAIL = """mostra zg + 0
mostra zd + 0.5
mostra zb ou falso
mostra tam(zs)
mostra zr.zx + 0
mostra tam(zr.zt)
mostra zq.zx + 0
mostra zo.valor_ou(0) + 0
mostra tam(zto.valor_ou(''))
para zi de 0..tam(zl) faca
    mostra zl[zi] + 0
fim
para zi de 0..tam(zm2) faca
    para zj de 0..tam(zm2[zi]) faca
        mostra zm2[zi][zj] + 0
    fim
fim
iguala zu
    Zu::ZA(zk) => zk + 0
    Zu::ZB => 0
fim
mostra zro.valor_ou(zr).zx + 0
mostra tam(zlo.valor_ou(zl))
"""
INT = r"-?\d+"
SHOWN = {"int": INT, "real": r"-?\d+(\.\d+)?([eE][-+]?\d+)?|-?inf|-?NaN", "bool": "verdadeiro|falso"}
BASE = {
    "int": ["zg", "1", "2", "0"], "real": ["zd", "2.5"], "bool": ["zb", "verdadeiro", "falso"], "texto": ["zs", "'ab'"],
    "[int]": ["zl"], "[[int]]": ["zm2"], "Zr": ["zr"], "Zq": ["zq"], "Zu": ["zu", "Zu::ZB"], "int?": ["zo"],
    "texto?": ["zto"], "[int]?": ["zlo"], "Zr?": ["zro"], "nulo": ["nulo"], "vazio": ["zv(1)"],
}
TYPES = [t for t in BASE if t not in ("nulo", "vazio")]
EXTRA = ["real?", "bool?", "Zu?", "[real]", "[texto]", "[int?]", "[Zr]", "indef", "[bool]", "[Zu]", "[[int]]?", "[Zr?]"]
PRIMS = ("int", "real", "bool", "texto")
OTHER = ["Zr", "Zu", "zf", "zr.zm", "int", "Zu::ZA", "zx", "Opcao", "alvo"]


class Wild:
    def __init__(self, s, loose):
        self.s = s
        self.loose = loose      # per cent of the operands of any type
        self.k = 0
        self.names = {}         # extra names -> type

    def atom(self, t):
        own = [n for n, x in self.names.items() if x == t]
        if t in BASE:
            return self.s.pick(BASE[t] + own * 2)
        return self.s.pick(own) if own else self.made(t)

    def made(self, t):
        """A value of a type that no name has."""
        if t.endswith("?"):
            return f"({self.ex(t[:-1], 0)} :> {t})" if t[:-1] in PRIMS and self.s.p(50) else f"[{t}: {self.s.pick(['nulo', self.ex(t[:-1], 0)])}][0]"
        if t.startswith("["):
            return f"[{t}: {self.ex(t[1:-1], 0)}]".replace(f"[{t}:", f"[{t[1:-1]}:", 1)
        return f"[indef: {self.ex(self.s.pick(TYPES), 0)}][0]" if t == "indef" else self.s.pick(OTHER)

    def ex(self, t, d):
        s = self.s
        if s.p(self.loose):
            s.label("loose")
            if s.p(6):
                return s.pick(OTHER)
            if s.p(20):
                w = s.pick(WRONG)
                return w if w != "alvo" and ":>" not in w else f"({w})"
            near = [u for u in list(BASE) + EXTRA if u in (t + "?", t[:-1], f"[{t}]", t[1:-1]) or {u, t} == {"int", "real"}
                    or t.endswith("?") and u.endswith("?")]
            t = s.pick(near) if near and s.p(60) else s.pick(list(BASE) + EXTRA)
        if d <= 0 or s.p(15):
            return self.atom(t)
        d -= 1
        e = lambda u: self.ex(u, d)
        any_ = s.pick(TYPES)
        k = s.n(10)
        if k == 0:
            return f"(iguala {self.match(d)}\n{self.arms(t, d)}fim)"
        if k == 1:
            return f"[{t}: {e(t)}, {e(t)}][{s.pick(['0', '1']) if s.p(70) else e('int')}]"
        if k == 2 and not t.endswith("?") and t not in ("nulo", "vazio"):
            return f"{e(t + '?')}.valor_ou({e(t)})" if s.p(60) else f"{e(t + '?')}.valor"
        if k == 3 and t.rstrip("?") in PRIMS:
            return f"({e(s.pick([t, 'indef', 'indef']))} :> {t})"
        if t in ("int", "real"):
            o = {"int": "int", "real": s.pick(["int", "real"])}[t]
            return s.pick([
                lambda: f"({e(o)} {s.pick('+-*')} {e(t)})", lambda: f"({e(t)} {s.pick(['//', '%', '-'])} {e(t)})", lambda: f"(-{e(t)})",
                lambda: f"zf({e('int')}, {e('texto')})", lambda: f"{e('Zr')}.zx", lambda: f"{e('[int]')}[{e('int')}]",
                lambda: f"tam({e(s.pick(['texto', '[int]', '[[int]]']))})", lambda: f"{e('Zr')}.zm({e('int')})",
                lambda: f"({e('int')} / {e('int')})" if t == "real" else f"{e('[[int]]')}[{e('int')}][{e('int')}]",
                lambda: f"({e(s.pick(PRIMS))} :> {t})"])()
        if t == "bool":
            return s.pick([
                lambda: f"({e('bool')} {s.pick(['e', 'ou'])} {e('bool')})", lambda: f"(nao {e('bool')})",
                lambda: f"({e(s.pick(['int', 'real']))} {s.pick(['<', '>', '<=', '>='])} {e('int')})",
                lambda: f"({e(any_)} {s.pick(['==', '!='])} {e(any_)})", lambda: f"({e(s.pick(['int?', 'Zr?']))} == nulo)",
                lambda: f"txt_contem({e('texto')}, {e('texto')})"])()
        if t == "texto":
            return s.pick([lambda: f"{e('texto')}[{e('int')}]", lambda: f"{e('Zr')}.zt", lambda: "f'{" + self.plain(s.pick(["int", "real", "bool", "texto", "Zr", "Zu"])) + "}x'",
                           lambda: f"({e(s.pick(['int', 'real', 'bool']))} :> texto)"])()
        if t.endswith("?"):
            return f"({e(s.pick([t[:-1], 'nulo']))} :> {t})" if t[:-1] in PRIMS and s.p(60) else f"[{t}: {e(t[:-1])}, {e('nulo')}][{e('int')}]"
        if t.startswith("["):
            i = t[1:-1]
            return s.pick([lambda: f"[{i}: {e(i)}, {e(i)}]", lambda: f"vec({i if i in PRIMS or s.p(10) else 'int'}, {self.atom('int')})" if i in PRIMS else f"[{i}: {e(i)}]", 
                           lambda: f"{e('[' + t + ']')}[{e('int')}]"])()
        if t == "Zr":
            return f"Zr(zx: {e('int')}, zt: {e('texto')})"
        if t == "Zq":
            return f"Zq(zx: {e('int')})"
        if t == "Zu":
            return f"Zu::ZA({e('int')})"
        return self.atom(t)

    def plain(self, t):
        x = self.ex(t, 1)
        return self.atom(t) if set(x) & set("{}'\"\n") else x

    def match(self, d):
        self.kind = self.s.pick(["int", "texto", "Zu", "Zu", "bool", "Zr"])
        return self.ex(self.kind, d)

    def arms(self, t, d):
        s = self.s
        k = self.kind
        pats = {"int": ["1", "0", "-1"], "texto": ["'ab'", "'t'"], "Zu": ["Zu::ZA(zk)", "Zu::ZA(0)", "Zu::ZA(zk2)"]}.get(k, [])
        if k == "Zu" and s.p(60):
            pats = ["Zu::ZA(zk)"]
            last = "Zu::ZB"
        else:
            pats = s.sub(pats, s.rint(0, len(pats)))
            last = s.pick(["_", "zw"])
        if s.p(8):
            last = s.pick(["Zu::ZB", "1", "Zu::ZA(_)"])
        out = ""
        for p in [x for x in pats if x != "-1"] + [last]:
            b = {"zk": "int", "zk2": "int", "zw": k}
            m = re.search(r"zk2?|zw", p)
            if m:
                old = self.names.get(m[0])
                self.names[m[0]] = b[m[0]]
            if s.p(70):
                out += f"    {p} => {self.ex(t, d)}\n"
            else:
                out += f"    {p} => faca\n{self.stmt(0)}        produz {self.ex(t, d)}\n    fim\n"
            if m:
                del self.names[m[0]]
                if old is not None:
                    self.names[m[0]] = old
        return out

    def stmt(self, d=2):
        s = self.s
        e = lambda t: self.ex(t, d)
        t = s.pick(TYPES)
        b = lambda: self.stmt(d - 1) if d > 0 and s.p(50) else f"mostra {self.ex(t, max(0, d - 1))}\n"
        n = "zz%d" % self.k
        self.k += 1

        def decl():
            u = s.pick(TYPES + EXTRA)
            x = f"{n}: {u} = {e(u)}\n" if s.p(80) else f"{n}: {s.pick(PRIMS) if s.p(90) else u}\n"
            if d == 2:
                self.names[n] = u
            return x
        lv = lambda: s.pick([("zg", "int"), ("zd", "real"), ("zb", "bool"), ("zs", "texto"), ("zl", "[int]"), ("zr", "Zr"), ("zu", "Zu"), ("zo", "int?"),
                             ("zto", "texto?"), ("zro", "Zr?"), ("zlo", "[int]?"), ("zm2", "[[int]]"), ("zl[0]", "int"), ("zm2[0]", "[int]"), ("zm2[0][0]", "int"),
                             ("zr.zx", "int"), ("zr.zt", "texto"), ("zq.zx", "int"), (f"{self.ex('[int]', 1)}[0]", "int"), (f"{self.ex('Zr', 1)}.zx", "int")])

        def assign():
            v, u = lv()
            k = s.n(10)
            if k == 0 and u in ("int", "real"):
                return f"{v} {s.pick(['+=', '-=', '*=', '/='])} {e(u)}\n"
            if k == 1:
                w, x = lv()
                return f"{v} = {w} = {e(u)}\n"
            return f"{v} = {e(u)}\n"

        def func():
            a, r = s.pick(TYPES + EXTRA), s.pick(TYPES + EXTRA)
            self.names["za"] = a
            old = self.names.copy()
            body = "".join(self.stmt(0) for _ in range(s.n(2))) + f"    retorna {self.ex(r, d)}\n"
            if s.p(30):
                body = f"    se {self.ex('bool', 1)} entao\n        retorna {self.ex(r, 1)}\n    fim\n" + body
            self.names = old
            del self.names["za"]
            return f"func {n}(za: {a}): {r}\n{body}fim\nmostra {n}({e(a)})\n"

        def met():
            u, r = s.pick(["int", "real", "bool", "texto", "Zr", "Zq", "Zu", "Zr"]), s.pick(TYPES + EXTRA)
            old = self.names.copy()
            self.names["alvo"] = u
            body = "".join(self.stmt(0) for _ in range(s.n(2))) + f"    retorna {self.ex(r, d)}\n"
            self.names = old
            return f"met {u}::{n}(alvo): {r}\n{body}fim\nmostra {self.ex(u, 1)}.{n}()\n"
        def escolha():
            u = s.pick(TYPES) if s.p(6) else s.pick(["int", "texto"])
            v = lambda: s.pick(["0", "1", "2"] if u == "int" else ["'ab'", "'t'"]) if s.p(80) else e(u)
            return f"escolha {e(u)}:\n    caso {v()}:\n{b()}    senao:\n{b()}fim\n"
        ways = [lambda: f"mostra {e(t)}\n", decl, decl, assign, assign, lambda: f"se {e('bool')} entao\n{b()}senao\n{b()}fim\n",
                lambda: f"para zi de {e('int')}..{e('int')} faca\n{b()}    quebra\nfim\n",
                lambda: f"enquanto {e('bool')} faca\n{b()}    quebra\nfim\n",
                lambda: escolha(),
                lambda: f"iguala {self.match(d)}\n{self.arms(t, d)}fim\n",
                lambda: f"se iguala {e('Zu')} => {s.pick(['Zu::ZA(zy)', 'Zu::ZB', 'Zu::ZA(1)'])} entao\n{b()}fim\n",
                lambda: f"anexa({e('[int]')}, {e('int')})\n", lambda: f"remova({e('[int]')}, {e('int')})\n",
                lambda: f"{e(t)}\n"]
        if d == 2:
            ways += [func, func, met, met]
        return s.pick(ways)()


def program(s):
    """-> source, [pattern of each line that the end of the program prints]"""
    if s.p(25):
        # one fault that the rules name
        x = s.pick(WRONG)
        form = s.pick(["mostra %s\n", "mostra %s\n", "%s\n", "zz0: indef = %s\n", "func zz0()\n    mostra %s\nfim\nzz0()\n"])
        return PRELUDE + form % (f"({x})" if ":>" in x else x) + TAIL
    w = Wild(s, s.pick([0, 4, 8, 12]))
    t = PRELUDE + "".join(w.stmt() for _ in range(s.rint(1, 3)))
    mark = "zfim"
    t += f"mostra '{mark}'\n" + TAIL
    for n, u in w.names.items():
        if u in SHOWN and n.startswith("zz"):
            t += f"mostra '{n}'\nmostra {n}\n"
    return t


def badly_shown(t, out):
    """A variable that prints as something else than its type's values."""
    lines = out.split("\n")
    for m in re.finditer(r"^mostra '(zz\d+)'\nmostra (zz\d+)$", t, re.M):
        n = m[1]
        u = re.search(rf"^{n}: (\S+)", t, re.M)
        for i in range(len(lines) - 1):
            if lines[i] == n and u and u[1] in SHOWN and not re.fullmatch(SHOWN[u[1]], lines[i + 1]):
                return f"{n}, of type {u[1]}, prints {lines[i + 1]!r}"
    return None
