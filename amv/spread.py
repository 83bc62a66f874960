"""Faults inside constructs that span several lines, each with the lines of the faulty part itself (between \\x01 and \\x02)."""

# {i} {t} {d} {r} {l} {b}: an int, texto, real, record, vector, bool over some lines; {n}: perhaps a line break
FAULTS = [
    "zg = {i} \x01+\x02 {t}", "zd = {t} \x01*\x02 {d}", "zb = {i} \x01==\x02 {t}", "zb = {b} \x01e\x02 {i}", "zb = {t} \x01ou\x02 {b}",
    "zb = {l} \x01<\x02 {i}", "zg = {i} + {i} \x01*\x02 {t}", "zg = {i} * {i} \x01-\x02 {t} + {i}", "zg = {i} + {i} \x01%\x02 {b} * {i}",
    "zd = {d} \x01//\x02 {t}", "zd = {i} \x01/\x02 {r}", "zb = {r} \x01!=\x02 {i}", "zb = {i} \x01>=\x02 {b}",
    "mostra {i} + ({i} \x01-\x02 {t})", "zf({i},{n} {t} \x01+\x02 {i})", "zl[{i} \x01+\x02 {t}] = {i}", "mostra zl[{i}] \x01+\x02 {t}",
    "mostra [int: {i},{n} {i} \x01*\x02 {b},{n} {i}]", "zb = \x01nao\x02 {i}", "zg = \x01-\x02{t}", "zb = {b} e \x01nao\x02 {t}",
    "zg = {i} + \x01-\x02{b}", "\x01zg\x02 = {t}", "\x01zs\x02 = {i}", "\x01zl\x02[{n}0] = {t}".replace("{n}", ""), "\x01zn8\x02: int = {t}",
    "\x01zn8\x02: [real] = {l}", "\x01zr\x02 = {l}", "\x01zr\x02.zx = {t}", "\x01zg\x02 += {t}", "zg = zf(\x01{t}\x02,{n} {t})",
    "zg = zf({i},{n} \x01{i}\x02)", "zg = zf(\x01{l}\x02,{n} {t}) + {i}", "zg = {i} + zf({i},{n} \x01{b}\x02)", "mostra zr.zm({n}\x01{t}\x02)",
    "mostra zo.valor_ou({n}\x01{t}\x02)", "mostra txt_contem({n}\x01{i}\x02,{n} {t})", "mostra txt_contem({t},{n} \x01{l}\x02)",
    "zr = Zr(zx: \x01{t}\x02,{n} zt: {t})", "zr = Zr(zx: {i},{n} zt: \x01{i}\x02)", "zr = Zr({n}zt: {t},{n} zx: \x01{l}\x02)",
    "zr = Zr(zx: {i},{n} \x01zk: {t}\x02)", "zr = Zr(zx: {i},{n} \x01zx: {i}\x02)", "zu = Zu::ZA({n}\x01{t}\x02)",
    "zl = [int: \x01{t}\x02,{n} {i}]", "zl = [int: {i},{n} {i},{n} \x01{b}\x02,{n} {i}]", "anexa(zl,{n} \x01{t}\x02)",
    "anexa(\x01{i}\x02,{n} {i})", "remova(\x01{t}\x02,{n} {i})", "remova(zl,{n} \x01{t}\x02)", "mostra tam({n}\x01{i}\x02)",
    "mostra vec(int,{n} \x01{t}\x02)", "mostra vec(int,{n} \x01{b}\x02,{n} {i})", "mostra vec(int,{n} {i},{n} \x01{l}\x02)",
    "mostra vec({n}\x01Nada9\x02,{n} {i})", "se \x01{i}\x02 entao\nmostra {i}\nfim", "se {b} entao\nmostra {i}\nsenaose \x01{t}\x02 entao\nmostra {t}\nfim",
    "enquanto \x01{l}\x02 faca\nmostra {i}\nfim", "para zi9 de \x01{t}\x02..{i} faca\nmostra {i}\nfim", "para zi9 de {i}..\x01{b}\x02 faca\nmostra {i}\nfim",
    "para zi9 de {i}..{i} inc \x01{t}\x02 faca\nmostra {i}\nfim", "escolha {i}:\ncaso {i}:\nmostra {i}\ncaso \x01{t}\x02:\nmostra {t}\nfim",
    "escolha \x01{l}\x02:\ncaso {i}:\nmostra {i}\nfim", "escolha \x01{b}\x02:\ncaso {i}:\nmostra {i}\nfim",
    "mostra iguala {t}\n'a' => {i}\n\x011\x02 => {i}\n_ => {i}\nfim", "mostra iguala {i}\n1 => {t}\n\x01'a'\x02 => {t}\n_ => {t}\nfim",
    "mostra iguala {i}\n1 => {t}\n\x01Zu::ZB\x02 => {t}\n_ => {t}\nfim", "mostra iguala zu\nZu::ZB => {i}\n\x01Zu::ZK\x02 => {i}\n_ => {i}\nfim",
    "mostra iguala zu\nZu::ZB => {i}\n\x01Zu::ZA(1, k)\x02 => {i}\n_ => {i}\nfim", "mostra iguala zu\nZu::ZB => {i}\n\x01Zu::ZA('a')\x02 => {i}\n_ => {i}\nfim",
    "mostra iguala {i}\n2 => {i}\n\x0199999999999999999999\x02 => {i}\n_ => {i}\nfim", "mostra iguala zu\nZu::ZB => {i}\n\x01Zu::ZB(k)\x02 => {i}\n_ => {i}\nfim",
    "mostra iguala {i}\n1 => {i}\n2 => {i}\n_ => \x01{t}\x02\nfim", "mostra iguala {i}\n1 => {i}\n2 => faca\nmostra {t}\nproduz \x01{t}\x02\nfim\n_ => {i}\nfim",
    "mostra \x01iguala\x02 {i}\n1 => {i}\n2 => {i}\nfim", "mostra \x01iguala\x02 zu\nZu::ZA(k) => {i}\nfim",
    "mostra {i} + {i} + \x01nada9\x02 + {i}", "zf({i},{n} \x01nada9\x02)", "\x01nada9\x02({n}{i},{n} {t})", "mostra [int: {i},{n} \x01nada9\x02,{n} {i}]",
    "mostra {i} + \x01zr.zk9\x02 + {i}", "mostra zf({i},{n} \x01zr.zm9(1)\x02)", "mostra [\x01Nada9\x02: {i},{n} {i}]", "mostra [{n}[\x01Nada9\x02]: {l}]".replace("{n}", ""),
    "mostra zf({i},{n} f'a{{\x01nada9\x02}}')", "mostra {i} + \x01{i} :> [int]\x02", "mostra zf({i},{n} \x01{l} :> texto\x02)",
    "zr = Zr(zx: {i},{n} \x01{t}\x02)", "zr = Zr({n}\x01{i}\x02,{n} zt: {t})", "zr = Zr(zt: {t},{n} \x01zg\x02)", "zr = Zr(\x01zk: {t}\x02,{n} zt: {t})",
    "zg = zf({i},{n} \x01b: {t}\x02)", "zg = zf(\x01a: {i}\x02,{n} {t})", "zu = Zu::ZA({n}\x01a: {i}\x02)", "mostra zr.zm({n}\x01k: {i}\x02)",
    "mostra tam({n}\x01a: {t}\x02)", "anexa(zl,{n} \x01a: {i}\x02)", "mostra vec(int,{n} \x01a: {i}\x02)", "mostra zf({i},{n} \x01'a'.zk9\x02)",
    "mostra zf(\x01zg.zk9\x02,{n} {t})", "mostra zf({i},{n} \x01zl.zk9\x02)", "mostra {i} + \x01zl\x02({i},{n} {t})", "mostra {i} + {i} + \x01zg[{i}]\x02 + {i}",
    "mostra zf({i},{n} \x01zl[{t}]\x02)", "mostra [int: {i},{n} \x01zl['a']\x02,{n} {i}]",
]
# only at the global level
GLOBAL = [
    "func zn9(a: int,{n} b: \x01Nada9\x02,{n} c: int): int\nretorna {i}\nfim", "func zn9(a: int,{n} b: int,{n} \x01a\x02: int): int\nretorna {i}\nfim",
    "func zn9(\x01a: Nada9\x02,{n} c: int)\nmostra {i}\nfim", "func zn9(a: int,{n} b: int\n): \x01Nada9\x02\nretorna {i}\nfim",
    "func zn9(a: int,{n} b: texto): [\x01Nada9\x02]\nretorna {l}\nfim", "func zn9(a: int,{n} b: texto): int\nmostra {i}\nretorna \x01{t}\x02\nfim",
    "func zn9(a: int,{n} b: texto): int\nse a == {i} entao\nretorna \x01{t}\x02\nfim\nretorna {i}\nfim", "func zn9(a: int,{n} b: texto)\nmostra {i}\nretorna \x01{t}\x02\nfim",
    "registo Zn9\na: int\n\nb: \x01Nada9\x02\nc: int\nfim", "registo Zn9\na: int\nb: [\x01Nada9\x02]\nfim", "registo Zn9\na: int\nb: int\n\x01a: texto\x02\nc: int\nfim",
    "uniao Zn9\nA(int),{n} B(int,{n} \x01Nada9\x02),{n} C\nfim".replace("B(int,{n} ", "B(int, "), "uniao Zn9\nA(int),{n} B,{n} \x01A\x02,{n} C\nfim",
    "met Zr::zn9(alvo, a: int,{n} b: \x01Nada9\x02)\nmostra {i}\nfim", "met Zr::zn9(alvo, a: int,{n} \x01a\x02: int)\nmostra {i}\nfim",
    "met Zr::zn9(alvo, a: int,{n} b: int): \x01Nada9\x02\nretorna {i}\nfim", "met \x01Nada9\x02::zn9(alvo, a: int,{n} b: int)\nmostra {i}\nfim",
    "met Zr::\x01zm\x02(alvo, a: int,{n} b: int): int\nretorna {i}\nfim", "func \x01zf\x02(a: int,{n} b: int): int\nretorna {i}\nfim",
    "func zn9(a: int,{n} b: int): int\nzn8: int = {i}\nmostra zf({i},{n} \x01a\x02)\nretorna {i}\nfim",
]


def value(k, s):
    n = lambda: s.pick(["\n", "\n", " ", "", "\n\n", "  # 'a\n", "\n    "])
    if k == "i":
        return s.pick([f"zf(1,{n()}'x')", f"[int: 1,{n()}2][0]", f"tam('a\nb')", f"zr.zm({n()}1)", "1", "zg", f"(zf(2,{n()}'x') + 1)",
                       f"(iguala 1\n1 => 2\n_ => 3\nfim)", f"-zf(1,{n()}'x')", f"tam([int: 1,{n()}2])", f"zf(\n1,\n'x'\n)"])
    if k == "t":
        return s.pick(["'a\nb'", f"[texto: 'a',{n()}'b'][0]", "f'a\n{zg}'", "'t'", "zs", "'\n'", f"[texto: 'a'][0]", f"([texto: zs,{n()}'b',{n()}'c'][1])"])
    if k == "d":
        return s.pick([f"[real: 1.5,{n()}2][0]", "2.5", "zd"])
    if k == "b":
        return s.pick([f"txt_contem('a\n',{n()}'b')", "verdadeiro", f"[bool: zb,{n()}zb][0]", f"(zf(1,{n()}'a') == 1)"])
    if k == "r":
        return s.pick([f"Zr(zx: 1,{n()}zt: 'a\n')", "zr", f"[Zr: zr,{n()}zr][0]"])
    if k == "l":
        return s.pick([f"[int: 1,{n()}2]", "zl", f"[[int]: zl,{n()}zl][0]", f"vec(int,{n()}2)"])
    return n()


def spread(t, s):
    """A template filled in -> text, first and last line of the fault."""
    import re
    t = re.sub(r"\{([itdbrln])\}", lambda m: value(m.group(1), s), t).replace("{{", "{").replace("}}", "}")
    a = t.replace("\x02", "").index("\x01")
    b = t.replace("\x01", "").index("\x02")
    u = t.replace("\x01", "").replace("\x02", "")
    return u, u[:a].count("\n") + 1, u[:b].count("\n") + 1
