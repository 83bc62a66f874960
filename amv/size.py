"""Families of programs that scale one construct; each one knows what it prints.

A family is a function (n, k, s) -> Part.  k is a number that keeps the names and values of the parts of one program apart."""

M = 1000003


class Part:
    def __init__(self, decl, main, out, files=None, uses=()):
        self.decl = decl      # definitions
        self.main = main      # statements (may stand in a function)
        self.out = out        # what the statements print
        self.files = files or {}
        self.uses = list(uses)
        self.err = False      # it ends with a run-time error


def fold(vs, a=7):
    for v in vs:
        a = (a * 31 + v) % M
    return a


def step(e, a):
    return f"{a} = ({a} * 31 + {e}) % {M}\n"


def consts(n, k, s):
    """n different constants"""
    base = s.rint(2, 9) * 100000 + k * 1000000
    a = f"a{k}"
    kind = s.pick(["int", "real", "texto"])
    if kind == "int":
        vs = [base + i for i in range(n)]
        return Part("", f"{a}: int = 7\n" + "".join(step(v, a) for v in vs) + f"mostra {a}\n", f"{fold(vs)}\n")
    t = f"u{k}"
    if kind == "real":
        return Part("", f"{a}: real = 0\n" + "".join(f"{a} += {base + i}.5\n" for i in range(n)) + f"mostra {a} :> int\n",
                    f"{int(sum(base + i + 0.5 for i in range(n)))}\n")
    lines = [f"'k{base + i}'" for i in range(n)]
    return Part("", f"{a}: int = 0\n{t}: texto = ''\n" + "".join(f"{t} = {x}\nse {t} == {x} entao\n{a} += tam({t})\nfim\n" for x in lines)
                + f"mostra {t}\nmostra {a}\n", (lines[-1][1:-1] if n else "") + f"\n{sum(len(x) - 2 for x in lines)}\n")


def names(n, k, s):
    """n variables"""
    a = f"a{k}"
    typ = s.pick(["int", "int", "indef"])
    d = "".join(f"g{k}_{i}: {typ} = {(i * 7 + 1) % 1000}\n" for i in range(n))
    e = (lambda i: f"g{k}_{i}") if typ == "int" else (lambda i: f"g{k}_{i} :> int")
    chk = "".join(step(e(i) if typ == "int" else f"({e(i)})", a) for i in range(n))
    return Part("", d + f"{a}: int = 7\n" + chk + f"mostra {a}\n", f"{fold((i * 7 + 1) % 1000 for i in range(n))}\n")


def block_locals(n, k, s):
    """n local variables of blocks that follow each other, and of nested ones"""
    a = f"a{k}"
    t = f"{a}: int = 7\n"
    vs = []
    for i in range(n):
        v = (i * 13 + 5) % 1000
        vs.append(v)
        t += f"se verdadeiro entao\nb{k}: int = {v}\n" + step(f"b{k}", a) + "fim\n"
    return Part("", t + f"mostra {a}\n", f"{fold(vs)}\n")


def functions(n, k, s):
    a = f"a{k}"
    d = "".join(f"func f{k}_{i}(): int\nretorna {(i * 11 + 3) % 1000}\nfim\n" for i in range(n))
    return Part(d, f"{a}: int = 7\n" + "".join(step(f"f{k}_{i}()", a) for i in range(n)) + f"mostra {a}\n",
                f"{fold((i * 11 + 3) % 1000 for i in range(n))}\n")


def methods(n, k, s):
    a = f"a{k}"
    d = f"registo P{k}\nx: int\nfim\n" + "".join(
        f"met P{k}::m{i}(alvo, y: int): int\nretorna alvo.x + y + {i % 100}\nfim\n" for i in range(n))
    return Part(d, f"{a}: int = 7\np{k}: P{k} = P{k}(x: 5)\n" + "".join(step(f"p{k}.m{i}({i % 10})", a) for i in range(n)) + f"mostra {a}\n",
                f"{fold(5 + i % 10 + i % 100 for i in range(n))}\n")


def records(n, k, s):
    a = f"a{k}"
    d = "".join(f"registo P{k}_{i}\nx{i}: int\ny: int\nfim\n" for i in range(n))
    m = f"{a}: int = 7\n"
    for i in range(n):
        m += f"p{k}_{i}: P{k}_{i} = P{k}_{i}(y: 2, x{i}: {i % 500})\n" + step(f"p{k}_{i}.x{i}", a) + step(f"p{k}_{i}.y", a)
    return Part(d, m + f"mostra {a}\n", f"{fold(x for i in range(n) for x in (i % 500, 2))}\n")


def params(n, k, s):
    a = f"a{k}"
    met = s.p(40)
    ps = ", ".join(f"p{i}: int" for i in range(n))
    body = f"{a}: int = 7\n" + "".join(step(f"p{i}", a) for i in range(n)) + f"retorna {a}\nfim\n"
    vs = [(i * 17 + 2) % 1000 for i in range(n)]
    args = ", ".join(map(str, vs))
    if met:
        return Part(f"met int::f{k}(alvo{', ' + ps if ps else ''}): int\n" + body, f"mostra 3.f{k}({args})\n".replace("3.", "(3)."), f"{fold(vs)}\n")
    return Part(f"func f{k}({ps}): int\n" + body, f"mostra f{k}({args})\n", f"{fold(vs)}\n")


def fields(n, k, s):
    a = f"a{k}"
    n = max(n, 1)
    vs = [(i * 19 + 4) % 1000 for i in range(n)]
    d = f"registo P{k}\n" + "".join(f"x{i}: int\n" for i in range(n)) + "fim\n"
    order = s.shuffle(list(range(n))) if n < 600 else list(range(n))
    m = f"p{k}: P{k} = P{k}(" + ", ".join(f"x{i}: {vs[i]}" for i in order) + ")\n"
    j = s.n(n)
    m += f"p{k}.x{j} = 77\n"
    vs[j] = 77
    m += f"{a}: int = 7\n" + "".join(step(f"p{k}.x{i}", a) for i in range(n)) + f"mostra {a}\n"
    return Part(d, m, f"{fold(vs)}\n")


def variant_args(n, k, s):
    a = f"a{k}"
    n = max(n, 1)
    vs = [(i * 23 + 6) % 1000 for i in range(n)]
    d = f"uniao U{k}\nN,\nA({', '.join(['int'] * n)})\nfim\n"
    m = f"{a}: int = 7\nu{k}: U{k} = U{k}::A({', '.join(map(str, vs))})\n"
    pat = f"U{k}::A({', '.join(f'x{i}' for i in range(n))})"
    body = "".join(step(f"x{i}", a) for i in range(n))
    if s.p(50):
        m += f"iguala u{k}\nU{k}::N => faca\n{a} = 0\nfim\n{pat} => faca\n{body}fim\nfim\n"
    else:
        m += f"se iguala u{k} => {pat} entao\n{body}fim\n"
    return Part(d, m + f"mostra {a}\n", f"{fold(vs)}\n")


def variants(n, k, s):
    n = max(n, 2)
    d = f"uniao U{k}\n" + ",\n".join(f"V{i}" + ("(int)" if i % 2 else "") for i in range(n)) + "\nfim\n"
    d += f"func f{k}(u: U{k}): int\nretorna iguala u\n" + "".join(
        f"U{k}::V{i}" + (f"(x) => x + {i}" if i % 2 else f" => {i}") + "\n" for i in range(n)) + "fim\nfim\n"
    picks = sorted({0, 1, n - 1, n - 2, s.n(n), s.n(n)})
    m = "".join(f"mostra f{k}(U{k}::V{i}" + ("(1000000)" if i % 2 else "") + ")\n" for i in picks)
    return Part(d, m, "".join(f"{i + (1000000 if i % 2 else 0)}\n" for i in picks))


def elements(n, k, s):
    a = f"a{k}"
    vs = [(i * 29 + 8) % 1000 for i in range(n)]
    t = s.pick(["int", "real", "texto"])
    lit = {"int": str, "real": lambda v: f"{v}.5", "texto": lambda v: f"'{v}'"}[t]
    m = f"l{k}: [{t}] = [{t}: {', '.join(map(lit, vs))}]\nmostra tam(l{k})\n{a}: int = 7\npara i{k} de 0..{n} faca\n"
    if n == 0:
        return Part("", f"l{k}: [{t}] = [{t}: ]\nmostra tam(l{k})\n", "0\n")
    conv = f"l{k}[i{k}]" if t == "int" else f"(l{k}[i{k}] :> int)"
    m += step(conv, a) + f"fim\nmostra {a}\n"
    return Part("", m, f"{n}\n{fold(vs)}\n")


def text_parts(n, k, s):
    m = f"x{k}: int = 3\ny{k}: texto = 'z'\n"
    src, out = "", ""
    for i in range(n):
        j = s.n(4) if n < 600 else i % 4
        if j == 0:
            src += f"{{x{k}}}"
            out += "3"
        elif j == 1:
            src += f"t{i};"
            out += f"t{i};"
        elif j == 2:
            src += f"{{y{k}}}"
            out += "z"
        else:
            src += f"{{{i} + x{k}}}"
            out += str(i + 3)
    return Part("", m + f"mostra f'{src}'\n", out + "\n")


def text_len(n, k, s):
    c = s.pick(["a", "é", "日", "ab"])
    t = (c * n)[:n]
    end = s.pick(["X", "\U0001f600", "y"])
    t += end
    return Part("", f"t{k}: texto = '{t}'\nmostra tam(t{k})\nmostra t{k}[{n}]\nmostra t{k} == f'{{t{k}}}'\n",
                f"{len(t)}\n{end}\nverdadeiro\n")


def name_len(n, k, s):
    x = f"n{k}_" + "a" * n
    return Part(f"func {x}f(): int\nretorna {k}\nfim\n", f"{x}: int = 5\n{x}b: int = 6\nmostra {x}\nmostra {x}b\nmostra {x}f()\n", f"5\n6\n{k}\n")


def arms(n, k, s):
    n = max(n, 1)
    f = s.pick(["iguala", "escolha", "senaose", "texto"])
    vals = sorted({0, n - 1, n, s.n(n)})
    d = f"func f{k}(x: int): int\n"
    if f == "iguala":
        d += "retorna iguala x\n" + "".join(f"{i} => {i * 2 + 1}\n" for i in range(n)) + "_ => -1\nfim\n"
    elif f == "texto":
        d += "retorna iguala f'{x}'\n" + "".join(f"'{i}' => {i * 2 + 1}\n" for i in range(n)) + "_ => -1\nfim\n"
    elif f == "escolha":
        d += "escolha x:\n" + "".join(f"caso {i}:\nretorna {i * 2 + 1}\n" for i in range(n)) + "senao:\nretorna -1\nfim\n"
    else:
        d += "".join(f"{'senaose' if i else 'se'} x == {i} entao\nretorna {i * 2 + 1}\n" for i in range(n)) + "senao\nretorna -1\nfim\n"
    d += "fim\n"
    return Part(d, "".join(f"mostra f{k}({i})\n" for i in vals), "".join(f"{i * 2 + 1 if i < n else -1}\n" for i in vals))


def far(n, k, s):
    """Jumps over n statements"""
    a = f"a{k}"
    fat = "".join(f"{a} = {a} + 1\n" for _ in range(n))
    f = s.pick(["se", "senao", "enquanto", "para", "quebra", "continua", "iguala", "escolha", "seiguala", "expr", "func"])
    m = f"{a}: int = 0\n"
    d = ""
    if f == "se":
        m += f"se falso entao\n{fat}senao\n{a} = {a} + 5\nfim\nse verdadeiro entao\n{fat}fim\n"
        out = n + 5
    elif f == "senao":
        m += f"se verdadeiro entao\n{a} = {a} + 3\nsenao\n{fat}fim\n"
        out = 3
    elif f == "enquanto":
        m += f"c{k}: int = 0\nenquanto c{k} < 3 faca\n{fat}c{k} += 1\nfim\n"
        out = 3 * n
    elif f == "para":
        m += f"para i{k} de 0..3 faca\n{fat}fim\n"
        out = 3 * n
    elif f == "quebra":
        m += f"para i{k} de 0..3 faca\nse i{k} == 1 entao\nquebra\nfim\n{fat}fim\n"
        out = n
    elif f == "continua":
        m += f"para i{k} de 0..3 faca\nse i{k} == 1 entao\ncontinua\nfim\n{fat}fim\n"
        out = 2 * n
    elif f == "iguala":
        m += f"iguala 2\n1 => faca\n{fat}fim\n2 => faca\n{fat}{a} = {a} + 2\nfim\n_ => faca\n{fat}fim\nfim\n"
        out = n + 2
    elif f == "escolha":
        m += f"escolha 2:\ncaso 1:\n{fat}caso 2:\n{fat}{a} = {a} + 2\nsenao:\n{fat}fim\n"
        out = n + 2
    elif f == "seiguala":
        m += f"se iguala 1 => 2 entao\n{fat}senao\n{fat}{a} = {a} + 1\nfim\n"
        out = n + 1
    elif f == "expr":
        m += f"{a} = {a} + iguala 3\n1 => 1\n_ => faca\n{fat.replace(a, 'b%d' % k, 0)}produz 4\nfim\nfim\n"
        out = 4
    else:
        d = f"func f{k}(x: int): int\n{a}: int = x\n{fat}retorna {a}\nfim\n"
        return Part(d, f"mostra f{k}(2)\n", f"{n + 2}\n")
    return Part(d, m + f"mostra {a}\n", f"{out}\n")


def chain(n, k, s):
    """An expression of n operators"""
    f = s.pick(["+", "e", "-", "paren", "neg", "nao", "==", "call", "assign", "index", "method", "list"])
    m = ""
    d = ""
    if f == "+":
        m, out = "mostra " + " + ".join(str(i % 50) for i in range(n + 1)), sum(i % 50 for i in range(n + 1))
    elif f == "-":
        m, out = "mostra 1000" + " - 1" * n, 1000 - n
    elif f == "e":
        m, out = "mostra verdadeiro" + " e (1 == 1)" * n, "verdadeiro"
    elif f == "paren":
        m, out = "mostra " + "(" * n + "42" + ")" * n, 42
    elif f == "neg":
        m, out = "mostra " + "-" * n + "42", 42 if n % 2 == 0 else -42
    elif f == "nao":
        m, out = "mostra " + "nao " * n + "verdadeiro", "verdadeiro" if n % 2 == 0 else "falso"
    elif f == "==":
        m, out = "mostra 1 == 1" + " == verdadeiro" * n, "verdadeiro"
    elif f == "call":
        d = f"func f{k}(x: int): int\nretorna x + 1\nfim\n"
        m, out = "mostra " + f"f{k}(" * n + "0" + ")" * n, n
    elif f == "assign":
        m = "".join(f"v{k}_{i}: int\n" for i in range(n + 1)) + " = ".join(f"v{k}_{i}" for i in range(n + 1)) + f" = 9\nmostra v{k}_0 + v{k}_{n}"
        out = 18
    elif f == "index":
        n = min(n, 150)
        t = "[" * (n + 1) + "int" + "]" * (n + 1)
        m = f"x{k}: {t} = "
        for i in range(n, -1, -1):
            m += "[" + "[" * i + "int" + "]" * i + ": "
        m += "8" + "]" * (n + 1) + f"\nmostra x{k}" + "[0]" * (n + 1)
        out = 8
    elif f == "method":
        d = f"met int::s{k}(alvo): int\nretorna alvo + 1\nfim\n"
        m, out = "mostra (0)" + f".s{k}()" * n, n
    else:
        m = "mostra " + "tam([[int]: [int: 1], " * 0 + f"tam([int: {', '.join('1' * (n + 1))}])"
        out = n + 1
    return Part(d, m + "\n", f"{out}\n")


def nested(n, k, s):
    """n blocks inside each other"""
    a = f"a{k}"
    f = s.pick(["se", "senao", "para", "enquanto", "iguala", "escolha", "arm", "mix"])
    one = {"se": "se {a} >= {i} entao\n", "senao": "se {a} < 0 entao\n{a} = 0\nsenao\n", "para": "para i{k}_{i} de 0..1 faca\n",
           "enquanto": "enquanto verdadeiro faca\n", "iguala": "iguala {a} + {i}\n_ => faca\n", "escolha": "escolha 1:\ncaso 1:\n"}
    kinds = sorted(one)
    if f == "arm":
        return Part("", "mostra " + "iguala 1\n2 => 0\n_ => " * n + "5\n" + "fim\n" * n, "5\n")
    m = f"{a}: int = 0\n"
    end = ""
    for i in range(n):
        x = kinds[(i * 7 + k) % len(kinds)] if f == "mix" else f
        m += one[x].format(a=a, i=i, k=k) + f"{a} += 1\n"
        end = {"enquanto": "quebra\nfim\n", "iguala": "fim\nfim\n"}.get(x, "fim\n") + end
    return Part("", m + end + f"mostra {a}\n", f"{n}\n")


def nested_patterns(n, k, s):
    n = max(n, 1)
    d = f"uniao U{k}\nF,\nN(U{k})\nfim\n"
    v = f"U{k}::N(" * n + f"U{k}::F" + ")" * n
    p = f"U{k}::N(" * n + "x" + ")" * n
    return Part(d, f"u{k}: U{k} = {v}\nse iguala u{k} => {p} entao\nmostra iguala x\nU{k}::F => 1\n_ => 2\nfim\nsenao\nmostra 'nao'\nfim\n", "1\n")


def dims(n, k, s):
    n = max(n, 1)
    return Part("", f"v{k}: {'[' * n}int{']' * n} = vec(int, {', '.join('1' * n)})\nv{k}{'[0]' * n} = 6\nmostra v{k}{'[0]' * n}\n", "6\n")


def many_dims(n, k, s):
    """The dimensions of vec, without its type"""
    n = max(n, 1)
    return Part("", f"mostra tam(vec(int, {', '.join('1' * n)}))\n", "1\n")


def modules(n, k, s):
    form = s.pick(["alias", "items", "global"])
    fs, uses, m, vs = {}, [], f"a{k}: int = 7\n", []
    for i in range(n):
        fs[f"k{k}m{i}.ama"] = f"w{k}_{i}: int = {i + 10}\nfunc h{k}_{i}(x: int): int\nretorna x + w{k}_{i}\nfim\n"
        if form == "alias":
            uses.append(f'usa "k{k}m{i}" => z{k}_{i}')
            m += step(f"z{k}_{i}.h{k}_{i}(1)", f"a{k}")
        else:
            uses.append(f'usa "k{k}m{i}"' + (f" => [h{k}_{i}]" if form == "items" else ""))
            m += step(f"h{k}_{i}(1)", f"a{k}")
        vs.append(i + 11)
    return Part("", m + f"mostra a{k}\n", f"{fold(vs)}\n", fs, uses)


def recursion(n, k, s):
    return Part(f"func r{k}(x: int): int\nse x == 0 entao\nretorna 0\nfim\nretorna 1 + r{k}(x - 1)\nfim\n",
                f"mostra r{k}({n})\n", f"{n}\n")


def live(n, k, s):
    """Many values alive at once"""
    m = f"l{k}: [[int]] = [[int]: ]\n".replace(": ]", ": [int: 0]]") + f"para i{k} de 1..{n + 1} faca\nanexa(l{k}, [int: i{k}, i{k} * 2])\nfim\n"
    return Part("", m + f"mostra tam(l{k})\nmostra l{k}[{n}][0]\n", f"{n + 1}\n{n}\n")


def lines(n, k, s):
    blank = s.pick(["\n", "# x\n", "  \n"])
    return Part("", blank * n + f"mostra {k}\n" + blank * (n // 2), f"{k}\n")


def digits(n, k, s):
    z = "0" * n
    return Part("", f"mostra {z}12\nmostra {z}1.5\nmostra 1.5{z}\n", "12\n1.5\n1.5\n")


def many_consts(n, k, s):
    """n constants in vectors"""
    a, base = f"a{k}", 1000000 * (k + 2)
    d, vs = f"{a}: int = 7\nl{k}: [int] = [int: 0]\n", []
    step_ = s.pick([250, 1000, 20000])
    for i in range(0, n, step_):
        part = list(range(base + i, base + min(n, i + step_)))
        d += f"l{k} = [int: {', '.join(map(str, part))}]\npara i{k} de 0..{len(part)} faca\n" + step(f"l{k}[i{k}]", a) + "fim\n"
        vs += part
    return Part("", d + f"mostra {a}\nmostra {base + n + 5}\n", f"{fold(vs)}\n{base + n + 5}\n")


def many_names(n, k, s):
    """n variables declared together"""
    n = max(n, 2)
    j = sorted({0, n - 1, s.n(n), s.n(n)})
    d = f"{', '.join(f'g{k}_{i}' for i in range(n))}: int\n"
    d += "".join(f"g{k}_{i} = {i + 7}\n" for i in j)
    return Part("", d + "".join(f"mostra g{k}_{i}\n" for i in j) + f"mostra g{k}_{(j[0] + j[-1]) // 2}\n",
                "".join(f"{i + 7}\n" for i in j) + f"{(j[0] + j[-1]) // 2 + 7 if (j[0] + j[-1]) // 2 in j else 0}\n")


def linked(n, k, s):
    """Values nested n deep: built, walked, dropped"""
    f = s.pick(["record", "union", "vector", "mixed"])
    a = f"a{k}"
    drop = s.n(3)
    i = f"i{k}"
    if f == "record":
        d = f"registo No{k}\nx: int\np: No{k}?\nfim\n"
        m = f"n{k}: No{k}? = nulo\npara {i} de 0..{n} faca\nn{k} = No{k}(x: {i}, p: n{k})\nfim\n{a}: int = 0\nc{k}: No{k}? = n{k}\n"
        m += f"enquanto c{k} != nulo faca\n{a} += c{k}.valor.x\nc{k} = c{k}.valor.p\nfim\nmostra {a}\n"
        out = f"{n * (n - 1) // 2}\n"
        clear = f"n{k} = nulo\n"
    elif f == "union":
        d = f"uniao L{k}\nF,\nC(int, L{k})\nfim\n"
        m = f"n{k}: L{k} = L{k}::F\npara {i} de 0..{n} faca\nn{k} = L{k}::C({i}, n{k})\nfim\n{a}: int = 0\nc{k}: L{k} = n{k}\nd{k}: bool = verdadeiro\n"
        m += f"enquanto d{k} faca\niguala c{k}\nL{k}::F => faca\nd{k} = falso\nfim\nL{k}::C(x, y) => faca\n{a} += x\nc{k} = y\nfim\nfim\nfim\nmostra {a}\n"
        out = f"{n * (n - 1) // 2}\n"
        clear = f"n{k} = L{k}::F\n"
    elif f == "vector":
        d = ""
        m = f"n{k}: [indef] = [indef: 1]\npara {i} de 0..{n} faca\nn{k} = [indef: n{k}]\nfim\nmostra tam(n{k})\nmostra n{k}\n"
        out = "1\n" + "[" * (n + 1) + "1" + "]" * (n + 1) + "\n"
        clear = f"n{k} = [indef: 2]\n"
    else:
        d = f"registo No{k}\nx: [No{k}]\nfim\nregisto Ra{k}\ny: [[No{k}]]\nfim\n"
        m = f"n{k}: [No{k}] = [No{k}: ]\n".replace(": ]", f": No{k}(x: nada)]") if False else ""
        d = f"uniao T{k}\nF(int),\nN([T{k}])\nfim\n"
        m = f"n{k}: T{k} = T{k}::F(3)\npara {i} de 0..{n} faca\nn{k} = T{k}::N([T{k}: T{k}::F({i}), n{k}])\nfim\n{a}: int = 0\nc{k}: T{k} = n{k}\nd{k}: bool = verdadeiro\n"
        m += f"enquanto d{k} faca\niguala c{k}\nT{k}::F(x) => faca\n{a} += x\nd{k} = falso\nfim\nT{k}::N(l) => faca\nc{k} = l[1]\n{a} += 1\nfim\nfim\nfim\nmostra {a}\n"
        out = f"{n + 3}\n"
        clear = f"n{k} = T{k}::F(1)\n"
    if drop == 1:
        m += clear + "mostra 'x'\n"
        out += "x\n"
    return Part(d, m, out)


def huge(n, k, s):
    """A vector that no memory holds"""
    big = s.pick([2 ** 45, 2 ** 58, 2 ** 59, 2 ** 60, 2 ** 62, 2 ** 63 - 1])
    t = s.pick(["int", "real", "bool", "texto"])
    dim = s.pick([str(big), f"{n + 1}, {big}", f"1, 2, {big}", f"{big}, 2"])
    p = Part("", f"mostra {k}\nmostra tam(vec({t}, {dim}))\n", f"{k}\n")
    p.err = True
    return p


SMALL = {f.__name__: f for f in (consts, names, block_locals, functions, methods, records, params, fields, variant_args, variants,
                                 elements, text_parts, text_len, name_len, arms, far, chain, nested, nested_patterns, dims, many_dims,
                                 modules, recursion, live, lines, digits, many_consts, many_names, linked, huge)}
# those that can be scaled to tens of thousands in a second or two
BIG = {f.__name__: f for f in (many_consts, many_names, elements, text_len, name_len, lines, live, text_parts, linked)}
# and in half a minute
SLOW = {f.__name__: f for f in (consts, names, functions, block_locals, methods)}
