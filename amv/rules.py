"""What breaks the static rules of the language: statements, each with the line of its fault, and
expressions.  The names they use are declared by PRELUDE."""

PRELUDE = """registo Zr
    zx: int
    zt: texto
fim
registo Zq
    zx: int
fim
uniao Zu
    ZA(int),
    ZB
fim
func zf(a: int, b: texto): int
    retorna a
fim
func zv(a: int)
    a = 2
fim
met Zr::zm(alvo, k: int): int
    retorna k
fim
zg: int = 1
zd: real = 1.5
zb: bool = falso
zs: texto = 't'
zo: int? = nulo
zl: [int] = [int: 1]
zm2: [[int]] = [[int]: [int: 1]]
zr: Zr = Zr(zx: 1, zt: 'a')
zq: Zq = Zq(zx: 1)
zu: Zu = Zu::ZB
zto: texto? = nulo
zlo: [int]? = nulo
zro: Zr? = nulo
"""

# wrong wherever it stands
ANYWHERE = [
    ('nada9 = 1', 1),
    ('nada9 += 1', 1),
    ("zg = 'a'", 1),
    ('zg = zd', 1),
    ('zg = zo', 1),
    ('zg = nulo', 1),
    ("zd = 'a'", 1),
    ('zs = 1', 1),
    ('zb = 1', 1),
    ('zl = [real: 1.5]', 1),
    ('zl = [indef: 1]', 1),
    ('zl = zm2', 1),
    ("zl[0] = 'a'", 1),
    ('zl[0] = 1.5', 1),
    ("zl['a'] = 1", 1),
    ("zs[0] = 'a'", 1),
    ("zr.zx = 'a'", 1),
    ('zr.zx = 1.5', 1),
    ('zr.zk = 1', 1),
    ('zf = zf', 1),
    ("zf(1,'a') = 2", 1),
    ('Zr = zr', 1),
    ('int = 1', 1),
    ("zo = 'a'", 1),
    ('zo = 1.5', 1),
    ('zu = zr', 1),
    ('zu = Zu', 1),
    ('zr = zq', 1),
    ('zr.zm = 1', 1),
    ('Zu::ZB = zu', 1),
    ('alvo = 1', 1),
    ('nulo = 1', 1),
    ('1 = 2', 1),
    ("'a' = 's'", 1),
    ('(zg + 1) = 2', 1),
    ("zg += 'a'", 1),
    ("zs += 'a'", 1),
    ('zb += verdadeiro', 1),
    ('zl += 1', 1),
    ('zr += 1', 1),
    ('zo += 1', 1),
    ('zg += 1.5', 1),
    ('zg /= 2', 1),
    ("zl[0] += 'a'", 1),
    ('zl[0] += 1.5', 1),
    ('zl[0] /= 1', 1),
    ('zr.zt += 1', 1),
    ("zn1: int = 'a'", 1),
    ('zn1: int = 1.5', 1),
    ('zn1: int = zv(1)', 1),
    ('zn1: indef = zv(1)', 1),
    ('zn1: int? = zv(1)', 1),
    ('zn1: int? = 1.5', 1),
    ('zn1: Nada9 = 1', 1),
    ('zn1: Nada9', 1),
    ('zn1: [Nada9] = [int: 1]', 1),
    ('zn1: zg = 1', 1),
    ('zn1: zf = 1', 1),
    ('zn1: Zr', 1),
    ('zn1: [int]', 1),
    ('zn1: int?', 1),
    ('zn1: Zu', 1),
    ('zn1: int = zn1', 1),
    ('zn1: int\nzn1: real', 2),
    ('zn1, zn2: Zr', 1),
    ('zn1, zn1: int', 1),
    ('zn1: vazio', 1),
    ('zn1: nulo = nulo', 1),
    ('zn1: vazio = nulo', 1),
    ('se 1 entao\nfim', 1),
    ('se zo entao\nfim', 1),
    ('se nulo entao\nfim', 1),
    ("se verdadeiro entao\nsenaose 'a' entao\nfim", 2),
    ('enquanto zs faca\nfim', 1),
    ('enquanto zg faca\nfim', 1),
    ('enquanto zo faca\nfim', 1),
    ("para zi de 'a'..2 faca\nfim", 1),
    ('para zi de 0..1.5 faca\nfim', 1),
    ('para zi de zd..2 faca\nfim', 1),
    ("para zi de 0..2 inc 'a' faca\nfim", 1),
    ('para zi de 0..2 inc 1.5 faca\nfim', 1),
    ('para zi de 0..2 faca\nfim\nmostra zi', 3),
    ('para zi de 0..2 faca\nzi: int = 1\nfim', 2),
    ('se verdadeiro entao\nzn1: int = 1\nfim\nmostra zn1', 4),
    ('se verdadeiro entao\nzn1: int = 1\nsenao\nmostra zn1\nfim', 4),
    ('enquanto falso faca\nzn1: int = 1\nfim\nmostra zn1', 4),
    ('mostra zn1\nzn1: int = 1', 1),
    ("escolha zg:\ncaso 'a':\nmostra 1\nfim", 2),
    ('escolha zs:\ncaso 1:\nmostra 1\nfim', 2),
    ('escolha zr:\ncaso 1:\nmostra 1\nfim', 1),
    ('escolha zg:\ncaso zr:\nmostra 1\nfim', 2),
    ('escolha zg:\ncaso 1:\nzn1: int = 1\ncaso 2:\nmostra zn1\nfim', 5),
    ('escolha nada9:\ncaso 1:\nmostra 1\nfim', 1),
    ('escolha zb:\ncaso 1:\nmostra 1\nfim', 1),
    ('escolha zv(1):\ncaso 1:\nmostra 1\nfim', 1),
    ("escolha zd:\ncaso 'a':\nmostra 1\nfim", 1),
    ('iguala zu\nZu::ZA(zpx) => faca\nmostra zpx\nfim\nfim', 1),
    ('iguala zu\nZu::ZA(zpx, zpy) => faca\nfim\n_ => faca\nfim\nfim', 2),
    ('iguala zu\nZu::ZA => faca\nfim\n_ => faca\nfim\nfim', 2),
    ('iguala zu\nZu::ZB(zpx) => faca\nfim\n_ => faca\nfim\nfim', 2),
    ('iguala zu\nZu::Nada => faca\nfim\n_ => faca\nfim\nfim', 2),
    ('iguala zu\nNada9::A => faca\nfim\n_ => faca\nfim\nfim', 2),
    ('iguala zu\n1 => faca\nfim\n_ => faca\nfim\nfim', 2),
    ("iguala zu\nZu::ZA('a') => faca\nfim\n_ => faca\nfim\nfim", 2),
    ("iguala zg\n'a' => faca\nfim\n_ => faca\nfim\nfim", 2),
    ('iguala zg\nZu::ZB => faca\nfim\n_ => faca\nfim\nfim', 2),
    ('iguala zs\n1 => faca\nfim\n_ => faca\nfim\nfim', 2),
    ('iguala zg\n1 => faca\nfim\nfim', 1),
    ('iguala zu\nZu::ZA(zpx) => faca\nfim\nZu::ZB => faca\nmostra zpx\nfim\nfim', 5),
    ('iguala zu\nZu::ZA(zpx) => faca\nfim\nZu::ZB => faca\nfim\nfim\nmostra zpx', 7),
    ("mostra iguala zg\n1 => 'a'\n_ => 2\nfim", 3),
    ("mostra iguala zg\n1 => 'a'\n_ => faca\nproduz 1\nfim\nfim", 4),
    # the types of the arms have to be the same, a value is not converted to the type of the first arm
    ("mostra iguala zg\n1 => 1.5\n_ => 2\nfim", 3),
    ("mostra iguala zg\n1 => 2\n_ => 1.5\nfim", 3),
    ("zd = iguala zg\n1 => zd\n_ => zg\nfim", 3),
    ("mostra (iguala zg\n1 => zo\n_ => 2\nfim) == nulo", 3),
    ("mostra (iguala zg\n1 => zo\n_ => nulo\nfim) == nulo", 3),
    ("mostra (iguala zg\n1 => zr\n_ => zro\nfim).zx", 3),
    ("mostra tam(iguala zg\n1 => zl\n_ => faca\nproduz zlo\nfim\nfim)", 4),
    ("mostra iguala zg\n1 => 'a'\n_ => faca\nmostra 1\nfim\nfim", 4),
    ("mostra iguala zg\n1 => 'a'\n_ => zv(1)\nfim", 3),
    ("zi: int = iguala zg\n1 => 'a'\n_ => 'b'\nfim", 1),
    ("se iguala zg => 'a' entao\nfim", 1),
    ('se iguala zg => Zu::ZB entao\nfim', 1),
    ('se iguala zu => Zu::ZA(zpx) entao\nsenao\nmostra zpx\nfim', 3),
    ('se iguala zu => Zu::ZA(zpx) entao\nfim\nmostra zpx', 3),
    ('produz 1', 1),
    ('quebra', 1),
    ('continua', 1),
    ('retorna 1', 1),
    ('se verdadeiro entao\nquebra\nfim', 2),
    ('se verdadeiro entao\nretorna 1\nfim', 2),
    ('escolha zg:\ncaso 1:\nquebra\nfim', 3),
    ('mostra iguala zg\n1 => 1\n_ => faca\nquebra\nfim\nfim', 4),
    ('se verdadeiro entao\nfunc zfn()\nfim\nfim', 2),
    ('se verdadeiro entao\nmet Zr::n(alvo)\nfim\nfim', 2),
    ('usa "nada9"', 1),
    ('se verdadeiro entao\nusa "mat"\nfim', 2),
    # types that only a block has
    ('se zb entao\nregisto Zr\nzx: int\nzt: texto\nfim\nzn1: Zr = zr\nfim', 6),
    ('enquanto zb faca\nregisto Zr\nzx: int\nfim\nzr = Zr(zx: 1)\nfim', 5),
    ("se zb entao\nregisto Zr\nzx: int\nzt: texto\nfim\nmostra Zr(zx: 1, zt: 'a').zm(1)\nfim", 6),
    ('se zb entao\nregisto Zq\nzx: int\nfim\nzn1: [Zq] = [Zq: zq]\nfim', 5),
    ('se zb entao\nregisto Zq\nzx: int\nfim\nzn1: Zq? = zq\nfim', 5),
    ("se zb entao\nregisto Zr\nzx: int\nfim\nzn1: Zr = Zr(zx: 1, zt: 'a')\nfim", 5),
    ('para zi de 0..2 faca\nuniao Zu\nZA(int),\nZB\nfim\nzn1: Zu = zu\nfim', 6),
    ('para zi de 0..2 faca\nuniao Zu\nZA(int),\nZB\nfim\nzu = Zu::ZB\nfim', 6),
    ('se zb entao\nuniao Zu\nZC,\nZB\nfim\niguala zu\nZu::ZB => faca\nfim\n_ => faca\nfim\nfim\nfim', 7),
    ('se zb entao\nuniao Zu\nZA(texto),\nZB\nfim\nzn1: Zu = Zu::ZA(1)\nfim', 6),
    ('se zb entao\nregisto Zn\nzx: int\nfim\nfim\nzn1: Zn? = nulo', 6),
    ('se zb entao\nregisto Zn\nzx: int\nfim\nsenao\nmostra Zn(zx: 1).zx\nfim', 6),
    ('se zb entao\nuniao Zn\nZN\nfim\nfim\nzn1: Zn = Zn::ZN', 6),
    ('se zb entao\nregisto Zn\nzx: int\nfim\nregisto Zn\nzx: int\nfim\nfim', 5),
    ('se zb entao\nuniao Zn\nZN\nfim\nregisto Zn\nzx: int\nfim\nfim', 5),
    ('se zb entao\nregisto Zn\nzx: Zm9\nfim\nfim', 3),
    ('se zb entao\nregisto Zn\nzx: int\nfim\nzn1: Zn = Zq(zx: 1)\nfim', 5),
    ('se zb entao\nregisto Zn\nzx: int\nfim\nregisto Zo\nzx: int\nfim\nzn1: Zo = Zn(zx: 1)\nfim', 8),
]

# wrong in the outermost scope
TOP = [
    ('func zf()\nfim', 1),
    ('func zg()\nfim', 1),
    ('func Zr()\nfim', 1),
    ('func int()\nfim', 1),
    ('func tam()\nfim', 1),
    ('func zn()\nfim\nfunc zn(a: int)\nfim', 3),
    ('registo zf\na: int\nfim', 1),
    ('registo zg\na: int\nfim', 1),
    ('registo Zr\na: int\nfim', 1),
    ('registo int\na: int\nfim', 1),
    ('uniao Zu\nA\nfim', 1),
    ('uniao Zr\nA\nfim', 1),
    ('zf: int = 1', 1),
    ('Zr: int = 1', 1),
    ('Zu: int = 1', 1),
    ('int: int = 1', 1),
    ('tam: int = 1', 1),
    ('zg: real = 1.0', 1),
    ('zg: int', 1),
    ('func zn(a: int, a: int)\nfim', 1),
    ('func zn(a: int, b: int, a: texto)\nfim', 1),
    ('func zn(a: int)\na: int = 2\nfim', 2),
    ('registo Zn\na: int\na: real\nfim', 3),
    ('registo Zn\na: int\nb: real\na: int\nfim', 4),
    ('uniao Zn\nA,\nA\nfim', 3),
    ('uniao Zn\nA(int),\nB,\nA(real)\nfim', 4),
    ('func zn(): int\nfim', 1),
    ('func zn(): int\nse zb entao\nretorna 1\nfim\nfim', 1),
    ('func zn(): Nada9\nretorna 1\nfim', 1),
    ('func zn(a: Nada9)\nfim', 1),
    ('func zn(a: zg)\nfim', 1),
    ('func zn()\nretorna 1\nfim', 2),
    ('func zn()\nretorna zv(1)\nfim', 2),
    ("func zn(): int\nretorna 'a'\nfim", 2),
    ('func zn(): int\nretorna 1.5\nfim', 2),
    ('func zn(): int\nretorna nulo\nfim', 2),
    ('func zn(): int\nretorna zv(1)\nfim', 2),
    ('func zn(): int\nretorna\nfim', 2),
    ('func zn(): int\nmostra 1\nretorna\nfim', 3),
    ('func zn(): Zr\nretorna zq\nfim', 2),
    ("func zn(): int?\nretorna 'a'\nfim", 2),
    ('func zn()\nquebra\nfim', 2),
    ("func zn(): int\nretorna zn('a')\nfim", 2),
    ('func zn(): int\nretorna zn2()\nfim\nfunc zn2(): int\nretorna 1\nfim', 2),
    ('func zn()\nmostra alvo\nfim', 2),
    ('func zn()\nx: int = 1\nfim\nmostra zpx', 4),
    ('met Zr::zm(alvo)\nfim', 1),
    ('met Zr::zm(alvo, k: int): int\nretorna 1\nfim', 1),
    ('met Nada9::m(alvo)\nfim', 1),
    ('met zg::m(alvo)\nfim', 1),
    ('met Zr::zx(alvo)\nfim', 1),
    ('met Zr::n(alvo, a: int, a: int)\nfim', 1),
    ('met Zr::n(alvo): int\nfim', 1),
    ('met Zr::n(alvo)\nmostra alvo.nada\nfim', 2),
    ('met Zr::n(alvo)\nalvo = zr\nfim', 2),
    ('met Zr::n(alvo)\nmostra zx\nfim', 2),
    ('met Zr::n(alvo)\nzm(1)\nfim', 2),
    ('met Zr::n(a: int)\nfim', 1),
    ('met Zr::n()\nfim', 1),
    ('registo Zn\na: Nada9\nfim', 2),
    ('registo Zn\na: zg\nfim', 2),
    ('uniao Zn\nA(Nada9)\nfim', 2),
    ('func zn<T>(a: int)\nfim', 1),
]

# expressions that are wrong in any place
WRONG = [
    'nada9',
    'zf(1)',
    "zf('a', 'b')",
    "zf(1, 'b', 3)",
    'zf()',
    'zr.nada',
    "zr.zm('a')",
    'zr.zm()',
    'zr.zm(1, 2)',
    'zr.zk(1)',
    "zl['a']",
    'zl[1.5]',
    'zl[verdadeiro]',
    "zs['a']",
    'zs.x',
    'zs.zm(1)',
    'zg.zm(1)',
    "(1 + 'a')",
    "('a' + 'b')",
    "('a' - 'b')",
    '(nao 1)',
    "(nao 'a')",
    "(-'a')",
    '(-verdadeiro)',
    '(+zl)',
    '(verdadeiro + 1)',
    '(1 e verdadeiro)',
    "(verdadeiro ou 'a')",
    "('a' < 1)",
    "('a' < 'b')",
    '(verdadeiro < falso)',
    '(zl < zl)',
    '(1.5 % verdadeiro)',
    "(1 // 'a')",
    'Zr(zx: 1)',
    "Zr(zx: 'a', zt: 'b')",
    "Zr(zx: 1, zt: 'b', zq: 1)",
    "Zr(zx: 1, zx: 2, zt: 'b')",
    "Zr(1, 'a')",
    'Zr()',
    "zr(zx: 1, zt: 'a')",
    "zf(a: 1, b: 'x')",
    "Zu::ZA('a')",
    'Zu::ZA',
    'Zu::ZA(1, 2)',
    'Zu::ZA()',
    'Zu::ZB(1)',
    'Zu::ZB()',
    'Zu::Nada',
    'Zr::zm',
    'zu::ZB',
    'Nada9::X',
    "[int: 'a']",
    '[int: 1, 2.5]',
    '[Nada9: 1]',
    '[[int]: 1]',
    'zg()',
    'zg[0]',
    'zg.x',
    'zr[0]',
    'zr()',
    'zu.x',
    'zu[0]',
    'zl.x',
    'zl()',
    "'a'()",
    'tam(1)',
    'tam()',
    'tam(zs, zs)',
    'tam(zr)',
    "vec(int, 'a')",
    'vec(int)',
    'vec(1, 2)',
    'vec(Zr, 2)',
    'vec(Nada9, 2)',
    'vec(int, 1.5)',
    'remova(zs, 0)',
    "remova(zl, 'a')",
    'remova(zl)',
    'remova(1, 2)',
    "anexa(zl, 'a')",
    'anexa(zl)',
    "anexa(zs, 'a')",
    'anexa(1, 2)',
    '(zo + 1)',
    '(zo < 1)',
    "zo.valor_ou('a')",
    'zo.valor_ou()',
    'zo.nada',
    'zg.valor',
    'zg.valor_ou(1)',
    'zl :> int',
    'zr :> int',
    'zs :> Nada9',
    'zu :> int',
    'zr :> Zq',
    'zg :> [int]',
    'zv(1) :> int',
    'alvo',
    "(1 == 'a')",
    '(1 != verdadeiro)',
    "('a' == verdadeiro)",
    '(zl == 1)',
    '(zr == 1)',
    '(zu == 1)',
    '(1 == zr)',
    '(nulo == 1)',
    '(zg == nulo)',
    '(zs != nulo)',
    "f'{nada9}'",
    "f'{1 + verdadeiro}'",
    "f'{zf(1)}'",
    'int',
    'Zr',
    'Zu',
    'zf',
    'tam',
    'zv',
    'nulo.valor',
    'nulo()',
    '(nulo + 1)',
    "zv('a')",
    '(zv(1) + 1)',
    '(zv(1) == 1)',
    'zv(1)[0]',
    'zv(1).x',
    '[int: zv(1)]',
    "zf(zv(1), 'a')",
    "zf(zr, 'a')",
    "zf(zd, 'a')",
    "zf(nulo, 'a')",
    "zf(zo, 'a')",
    'zl[zo]',
    'leia(1)',
    'leia()',
    'leia_int(1)',
    'escreva()',
    "txt_contem(1, 'a')",
    "txt_contem('a')",
    "txt_contem('a', 2)",
    'zl[0][0]',
    'zm2[0][0][0]',
    'zr.zx.y',
    'zr.zx()',
    'zr.zm',
    'zr.zm[0]',
    'Zr.zx',
    'int.x',
    '1.x',
]

# operators on types that do not have them
_ONE = {"int": "zg", "real": "zd", "bool": "zb", "texto": "zs", "nulo": "nulo", "vec": "zl", "rec": "zr", "uni": "zu",
        "opt": "zo", "topt": "zto", "void": "zv(1)"}
for _a, _x in _ONE.items():
    for _b, _y in _ONE.items():
        if not {_a, _b} <= {"int", "real"}:
            WRONG += [f"({_x} {_o} {_y})" for _o in ("+", "-", "*", "/", "//", "%", "<", ">", "<=", ">=")]
        if not {_a, _b} <= {"bool"}:
            WRONG += [f"({_x} {_o} {_y})" for _o in ("e", "ou")]
    if _a not in ("int", "real"):
        WRONG += [f"(-{_x})", f"(+{_x})"]
    if _a != "bool":
        WRONG += [f"(nao {_x})"]
    if _a != "texto" and _a != "vec":
        WRONG += [f"tam({_x})", f"{_x}[0]", f"{_x}[0][0]"]
    if _a not in ("rec", "nulo"):
        WRONG += [f"{_x}.zx", f"{_x}.zm(1)"]
    if _a != "nulo":
        WRONG += [f"{_x}(1)", f"{_x}()"]
    if _a != "vec":
        WRONG += [f"anexa({_x}, 1)", f"remova({_x}, 0)"]
    if _a not in ("int", "real"):
        WRONG += [f"[int: {_x}]", f"zl[{_x}]", f"zf({_x}, 't')", f"Zr(zx: {_x}, zt: 't')", f"Zu::ZA({_x})", f"zr.zm({_x})",
                  f"vec(int, {_x})", f"remova(zl, {_x})", f"anexa(zl, {_x})"]
    if _a not in ("texto",):
        WRONG += [f"zf(1, {_x})", f"Zr(zx: 1, zt: {_x})", f"txt_contem({_x}, 'a')", f"[texto: {_x}]"]
for _x in ("zlo", "zro", "zto"):
    WRONG += [f"tam({_x})", f"{_x}[0]", f"{_x}.zx", f"{_x}.zm(1)", f"{_x}()", f"({_x} + {_x})", f"(nao {_x})", f"(-{_x})",
              f"({_x} e verdadeiro)", f"anexa({_x}, 1)", f"remova({_x}, 0)", f"[int: {_x}]", f"zf({_x}, 't')", f"zf(1, {_x})",
              f"zl[{_x}]", f"({_x} < {_x})", f"{_x} :> int", f"{_x}.nada"]
WRONG = sorted(set(WRONG))

# expressions by type
VALUES = {
    "int": ["zg", "1", "zf(1, 'x')", "(zg + 2)", "zr.zx", "zl[0]", "zr.zm(3)", "tam(zs)", "zo.valor_ou(2)"],
    "real": ["zd", "2.5", "(zg / 2)", "(zd + 1)"],
    "bool": ["zb", "verdadeiro", "(1 < 2)", "(nao zb)", "(zo == nulo)"],
    "texto": ["zs", "'t'", "zr.zt", "zs[0]", "f'{zg}'"],
    "nulo": ["nulo"],
    "vec": ["zl", "[int: 1, 2]", "vec(int, 2)", "zm2[0]"],
    "vec2": ["zm2", "[[int]: zl]"],
    "rec": ["zr", "Zr(zx: 1, zt: 'a')"],
    "rec2": ["zq"],
    "uni": ["zu", "Zu::ZA(1)", "Zu::ZB"],
    "opt": ["zo", "(zg :> int?)"],
    "void": ["zv(1)"],
}
