"""Reference interpreter: what a program of lang.py must do."""
import math
from decimal import Decimal
from fractions import Fraction
import unicodedata

from .lang import N, is_opt, is_rec, is_uni, is_vec

MAX = 2 ** 63 - 1
MIN = -2 ** 63

E_OVER = "Erro ao realizar operação aritmética. Resultado fora do intervalo de inteiros representáveis"
E_DIV = "não pode dividir um número por zero"
E_REM = "não pode calcular o resto da divisão de um número por zero"
E_NULL = "Não pode aceder uma referência nula"
E_DEPTH = "Limite máximo de recursão atingido"
E_DIM = "Dimensões de um vector devem ser especificidas por números inteiros positivos"


class RtError(Exception):
    def __init__(self, msg):
        self.msg = msg


class StepLimit(Exception):
    pass


class Quebra(Exception):
    pass


class Continua(Exception):
    pass


class Retorna(Exception):
    def __init__(self, v):
        self.v = v


class Produz(Exception):
    def __init__(self, v):
        self.v = v


class Rec:
    __slots__ = ("sym", "f")

    def __init__(self, sym, f):
        self.sym = sym
        self.f = f


class Var:
    __slots__ = ("sym", "args")

    def __init__(self, sym, args):
        self.sym = sym
        self.args = args


def is_num(v):
    return type(v) is int or type(v) is float


def show_real(f):
    if math.isnan(f):
        return "NaN"
    if math.isinf(f):
        return "inf" if f > 0 else "-inf"
    s = repr(f)
    d = Decimal(s)
    # of two shortest forms that are equally near, Rust takes the greater one
    up = d.copy_abs() + Decimal((0, (1,), d.as_tuple().exponent))
    exact = abs(Fraction(f))
    if up.as_tuple().exponent == d.as_tuple().exponent and \
            exact - Fraction(d.copy_abs()) == Fraction(up) - exact and float(up) == abs(f):
        d = up.copy_sign(d)
    s = format(d, "f")
    if s.endswith(".0"):
        s = s[:-2]
    if "." not in s:
        s += ".0"
    return s


def show(v, seen=()):
    t = type(v)
    if v is None:
        return "nulo"
    if t is bool:
        return "verdadeiro" if v else "falso"
    if t is int:
        return str(v)
    if t is float:
        return show_real(v)
    if t is str:
        return v
    if t is list:
        if any(v is x for x in seen):
            return "[...]"
        return "[" + ", ".join(show(x, (*seen, v)) for x in v) + "]"
    if t is Rec:
        return f"<Instância do tipo {v.sym.name}>"
    if t is Var:
        return f"<Variante({v.sym.idx})>"
    raise AssertionError(v)


def kind(v):
    t = type(v)
    if v is None:
        return "nulo"
    if t is Rec:
        return "Registo"
    if t is Var:
        return "Uniao"
    return {bool: "bool", int: "int", float: "real", str: "texto", list: "Vector"}[t]


def graphemes(s):
    """User-visible characters of texts made from this framework's palette."""
    out = []
    ri = 0
    for ch in s:
        o = ord(ch)
        glue = False
        if out:
            prev = out[-1][-1]
            po = ord(prev)
            ctrl = unicodedata.category(prev) in ("Cc", "Zl", "Zp")
            if not ctrl:
                cat = unicodedata.category(ch)
                if cat in ("Mn", "Me", "Mc") or o == 0x200D or 0x1F3FB <= o <= 0x1F3FF:
                    glue = True
                elif po == 0x200D and o >= 0x2190 and len(out[-1]) > 1 and ord(out[-1][0]) >= 0x2190:
                    glue = True
                elif 0x1F1E6 <= o <= 0x1F1FF and 0x1F1E6 <= po <= 0x1F1FF and ri % 2 == 1:
                    glue = True
        if 0x1F1E6 <= o <= 0x1F1FF:
            ri += 1
        else:
            ri = 0
        if glue:
            out[-1] += ch
        else:
            out.append(ch)
    return out


def to_i64(f):
    if math.isnan(f):
        return 0
    if f >= 2.0 ** 63:
        return MAX
    if f <= -2.0 ** 63:
        return MIN
    return int(f)


def tdiv(a, b):
    q = abs(a) // abs(b)
    return q if (a < 0) == (b < 0) else -q


def chk(v):
    if not MIN <= v <= MAX:
        raise RtError(E_OVER)
    return v


def arith(op, a, b):
    if op in ("/", "//") and b == 0:
        raise RtError(E_DIV)
    if op == "%" and b == 0:
        raise RtError(E_REM)
    if op == "/":
        return fdiv(float(a), float(b))
    if op == "//":
        if type(a) is not type(b):  # the int is promoted like anywhere else, then both become int
            a, b = float(a), float(b)
        a, b = (to_i64(a) if type(a) is float else a), (to_i64(b) if type(b) is float else b)
        if b == 0:
            raise RtError(E_DIV)
        return chk(tdiv(a, b))
    if type(a) is int and type(b) is int:
        if op == "+":
            return chk(a + b)
        if op == "-":
            return chk(a - b)
        if op == "*":
            return chk(a * b)
        if a == MIN and b == -1:
            raise RtError(E_OVER)
        return a - tdiv(a, b) * b
    a, b = float(a), float(b)
    if op == "+":
        return a + b
    if op == "-":
        return a - b
    if op == "*":
        return a * b
    if math.isinf(a) or math.isnan(a) or math.isnan(b):
        return math.nan
    return math.fmod(a, b)


def fdiv(a, b):
    try:
        return a / b
    except OverflowError:
        return math.inf


def compare(op, a, b):
    if type(a) is not type(b):
        a, b = float(a), float(b)
    return {"<": a < b, ">": a > b, "<=": a <= b, ">=": a >= b}[op]


def equal(a, b):
    if is_num(a) and is_num(b):
        if type(a) is not type(b):
            a, b = float(a), float(b)
        return a == b
    if type(a) is not type(b):
        return False
    if type(a) in (list, Rec):
        return a is b
    if type(a) is Var:
        return a.sym is b.sym and all(equal(x, y) for x, y in zip(a.args, b.args))
    return a == b


def parse_int(s):
    t = s[1:] if s[:1] in ("+", "-") else s
    if t and all(c in "0123456789" for c in t):
        v = int(s)
        if MIN <= v <= MAX:
            return v
    return None


def parse_real(s):
    t = s[1:] if s[:1] in ("+", "-") else s
    if t.lower() in ("inf", "infinity", "nan"):
        return float(s)
    if t and all(c in "0123456789.eE+-" for c in t):
        try:
            return float(s)
        except ValueError:
            return None
    return None


def cast(v, src, dst):
    """The conversion v :> dst, for a v of static type src."""
    if src == dst:
        return v
    if is_opt(dst):
        if src == "indef":
            if v is None or kind(v) == dst[1] or dst[1] == "indef":
                return v
            raise RtError(bad_cast(v, dst[1]))
        if v is None or src == "nulo":
            return None
        return promote(v, dst) if src != dst[1] else v
    if dst == "indef":
        return v
    if src == "indef":
        if kind(v) == dst:
            return v
        raise RtError(bad_cast(v, dst))
    if dst == "texto":
        return show(v)
    if dst == "bool":
        return len(v) > 0 if type(v) is str else v != 0
    if dst == "int":
        if type(v) is str:
            r = parse_int(v)
            if r is None:
                raise RtError(f"A sequência de caracteres '{v}' não é um inteiro válido")
            return r
        return to_i64(v) if type(v) is float else v
    if dst == "real":
        if type(v) is str:
            r = parse_real(v)
            if r is None:
                raise RtError(f"A sequência de caracteres '{v}' não é um número real válido")
            return r
        return float(v)
    raise AssertionError((src, dst))


def bad_cast(v, dst):
    return (f"Conversão inválida. O tipo original do valor é '{kind(v)}', mas tentou "
            f"converter o valor para o tipo '{dst}'")


def promote(v, dst):
    if type(v) is int and (dst == "real" or dst == ("opt", "real")):
        return float(v)
    return v


def default(t):
    return {"int": 0, "real": 0.0, "bool": False, "texto": ""}[t]


def e_index(n, i):
    return f"Erro de índice inválido. O tamanho do vector é {n}, mas tentou aceder o índice {i}"


E_NEG = "Erro de índice inválido. Vectores só podem ser indexados com inteiros positivos"
E_TNEG = "Erro de índice inválido. Strings só podem ser indexadas com inteiros positivos"


class Frame:
    __slots__ = ("name", "vars", "alvo", "line", "file")

    def __init__(self, name, alvo=None):
        self.name = name
        self.vars = {}
        self.alvo = alvo
        self.line = (0, 0)


def number_variants(items):
    """Numbers the variants of the unions, in the order of their text."""
    n = 0

    def go(x):
        nonlocal n
        if isinstance(x, (list, tuple)):
            for y in x:
                if not isinstance(y, str):
                    go(y)
        elif isinstance(x, N):
            if x.k == "uni":
                for v in x.sym.variants:
                    v.idx = n
                    n += 1
            elif x.k == "func":
                go(x.sym.body)
            elif x.k in BODIED:
                for y in list(x.__dict__.values()):
                    if isinstance(y, (list, tuple, N)):
                        go(y)

    go(items)


# statements, and parts of them, with other statements inside
BODIED = {"se", "enquanto", "para", "escolha"}


class Ref:
    """Runs the top-level items of a program, in order."""

    def __init__(self, steps=6000, depth=1000, stdin=()):
        self.out = []
        self.size = 0
        self.globals = {}
        self.steps = steps
        self.depth = depth
        self.frames = [Frame(None)]
        self.stats = {}
        self.stdin = list(stdin)
        self.error = None
        self.trace = None

    def text(self):
        return "".join(self.out)

    def tick(self):
        self.steps -= 1
        if self.steps < 0:
            raise StepLimit()

    def emit(self, s):
        self.size += len(s)
        if self.size > 200000:
            raise StepLimit()
        self.out.append(s)

    def hit(self, name):
        self.stats[name] = self.stats.get(name, 0) + 1

    def run(self, items):
        """-> index of the item that stopped the program, or None"""
        number_variants(items)
        for i, s in enumerate(items):
            self.at = i
            try:
                self.stmt(s)
            except RtError as e:
                self.error = e.msg
                self.trace = [(f.name, f.line) for f in reversed(self.frames)]
                return i
        return None

    # --- variables
    def get(self, sym):
        if sym.glob:
            return self.globals[sym]
        return self.frames[-1].vars[sym]

    def put(self, sym, v):
        if sym.glob:
            self.globals[sym] = v
        else:
            self.frames[-1].vars[sym] = v

    # --- statements
    def block(self, body):
        for s in body:
            self.stmt(s)

    def at_line(self, s, i=None):
        """The lines of s (of its i-th condition): first, last."""
        if i is None:
            self.frames[-1].line = (s.line, getattr(s, "hi", s.line))
        else:
            c = getattr(s, "clines", None)
            self.frames[-1].line = c[i] if c else (s.line, s.line)

    def stmt(self, s):
        self.tick()
        self.at_line(s)
        getattr(self, "s_" + s.k)(s)

    def s_rec(self, s):
        pass

    s_uni = s_func = s_raw = s_rec

    def s_decl(self, s):
        self.put(s.sym, default(s.sym.ty) if s.e is None else self.e(s.e))

    def s_multi(self, s):
        for y in s.syms:
            self.put(y, default(y.ty))

    def s_mostra(self, s):
        v = self.e(s.e)
        self.emit(show(v) + "\n")

    def s_expr(self, s):
        self.e(s.e)

    def s_assign(self, s):
        places = [self.place(t) for t in s.targets]
        v = self.e(s.e)
        for t, p in zip(reversed(s.targets), reversed(places)):
            v = promote(v, t.ty)
            self.store(t, p, v)

    def place(self, t):
        if t.k == "var":
            return None
        if t.k == "idx":
            return (self.e(t.e), self.e(t.i))
        return self.e(t.e)

    def store(self, t, p, v):
        if t.k == "var":
            self.put(t.sym, v)
        elif t.k == "idx":
            seq, i = p
            self.index_check(seq, i)
            self.hit("elem-assign")
            seq[i] = v
        else:
            if p is None:
                raise RtError(E_NULL)
            self.hit("field-assign")
            p.f[t.name] = v

    def s_compound(self, s):
        t = s.target
        p = self.place(t)
        old = self.e(t)
        new = self.e(s.e)
        self.store(t, p, promote(arith(s.op, old, new), t.ty))

    def s_se(self, s):
        for i, (c, b) in enumerate(s.conds):
            self.at_line(s, i)
            if self.e(c):
                return self.block(b)
        if s.other is not None:
            self.block(s.other)

    def s_enquanto(self, s):
        while True:
            self.tick()
            self.at_line(s)
            if not self.e(s.cond):
                return
            try:
                self.block(s.body)
            except Quebra:
                self.hit("quebra")
                return
            except Continua:
                self.hit("continua")

    def s_para(self, s):
        self.put(s.sym, self.e(s.a))
        while True:
            self.tick()
            self.at_line(s)
            if not compare("<", self.get(s.sym), self.e(s.b)):
                return
            try:
                self.block(s.body)
            except Quebra:
                self.hit("quebra")
                return
            except Continua:
                self.hit("continua")
            self.at_line(s)
            self.put(s.sym, arith("+", self.get(s.sym), self.e(s.inc) if s.inc else 1))

    def s_escolha(self, s):
        v = self.e(s.e)
        for i, (c, b) in enumerate(s.cases):
            self.at_line(s, i)
            if equal(v, self.e(c)):
                return self.block(b)
        if s.other is not None:
            self.block(s.other)

    def s_iguala(self, s):
        self.iguala(s.x, True)

    def s_seiguala(self, s):
        v = self.e(s.e)
        b = {}
        if self.match(s.pat, v, b):
            for k, x in b.items():
                self.put(k, x)
            try:
                self.block(s.body)
            except Produz:
                pass
        elif s.other is not None:
            self.block(s.other)

    def s_retorna(self, s):
        v = None if s.e is None else self.e(s.e)
        raise Retorna(v)

    def s_produz(self, s):
        raise Produz(self.e(s.e))

    def s_quebra(self, s):
        raise Quebra()

    def s_continua(self, s):
        raise Continua()

    # --- expressions
    def e(self, x):
        self.tick()
        return getattr(self, "x_" + x.k)(x)

    def x_int(self, x):
        return x.v

    x_bool = x_text = x_real = x_int

    def x_nulo(self, x):
        return None

    def x_var(self, x):
        return self.get(x.sym)

    def x_alvo(self, x):
        return self.frames[-1].alvo

    def x_prom(self, x):
        return promote(self.e(x.e), x.ty)

    def x_un(self, x):
        v = self.e(x.e)
        if x.op == "nao":
            return not v
        if x.op == "+":
            return v
        return chk(-v) if type(v) is int else -v

    def x_bin(self, x):
        a = self.e(x.l)
        b = self.e(x.r)
        op = x.op
        if op in ("==", "!="):
            return equal(a, b) == (op == "==")
        if op in ("<", ">", "<=", ">="):
            return compare(op, a, b)
        if op == "e":
            return a and b
        if op == "ou":
            return a or b
        return arith(op, a, b)

    def x_cast(self, x):
        self.hit("cast")
        return cast(self.e(x.e), x.e.ty, x.ty)

    def x_fstr(self, x):
        return "".join(p if isinstance(p, str) else show(self.e(p)) for p in x.parts)

    def x_list(self, x):
        return [self.e(a) for a in x.args]

    def x_vecn(self, x):
        dims = [self.e(a) for a in x.args]
        return self.mkvec(x.elem, dims)

    def mkvec(self, elem, dims):
        n = dims[0]
        if n < 0:
            raise RtError(E_DIM)
        if n > 2000:
            raise StepLimit()
        if len(dims) == 1:
            return [default(elem)] * n
        return [self.mkvec(elem, dims[1:]) for _ in range(n)]

    def x_idx(self, x):
        s = self.e(x.e)
        i = self.e(x.i)
        if type(s) is str:
            if i < 0:
                raise RtError(E_TNEG)
            g = graphemes(s)
            if i >= len(g):
                raise RtError(f"Erro de índice inválido. O tamanho da string é {len(g)}, mas o índice é {i}")
            return g[i]
        self.index_check(s, i)
        return s[i]

    def index_check(self, s, i):
        if i < 0:
            raise RtError(E_NEG)
        if i >= len(s):
            raise RtError(e_index(len(s), i))

    def x_field(self, x):
        r = self.e(x.e)
        if r is None:
            raise RtError(E_NULL)
        return r.f[x.name]

    def x_valor(self, x):
        v = self.e(x.e)
        if v is None:
            raise RtError(E_NULL)
        self.hit("valor")
        return v

    def x_valor_ou(self, x):
        v = self.e(x.e)
        d = self.e(x.d)
        self.hit("valor_ou")
        return d if v is None else v

    def x_rec(self, x):
        return Rec(x.sym, {n: self.e(v) for n, v in x.args})

    def x_variant(self, x):
        return Var(x.sym, [self.e(a) for a in x.args])

    def x_bi(self, x):
        a = [self.e(y) for y in x.args]
        n = x.name
        if n == "tam":
            return len(graphemes(a[0])) if type(a[0]) is str else len(a[0])
        if n == "anexa":
            a[0].append(promote(a[1], x.args[0].ty[1]))
            self.hit("anexa")
            return None
        if n == "remova":
            self.index_check(a[0], a[1])
            self.hit("remova")
            return a[0].pop(a[1])
        if n == "txt_contem":
            return a[1] in a[0]
        if n == "escreva":
            self.emit(show(a[0]))
            return None
        if n == "escrevaln":
            self.emit(show(a[0]) + "\n")
            return None
        raise AssertionError(n)

    def x_call(self, x):
        args = [self.e(a) for a in x.args]
        return self.call(x.fn, args, None)

    def x_meth(self, x):
        alvo = self.e(x.e)
        args = [self.e(a) for a in x.args]
        return self.call(x.fn, args, alvo)

    def call(self, f, args, alvo):
        if len(self.frames) >= self.depth:
            raise RtError(E_DEPTH)
        name = f.name
        if f.kind == "met":
            name = (f.target if isinstance(f.target, str) else f.target[1].name) + "::" + name
        fr = Frame(name, alvo)
        for p, a in zip(f.params, args):
            fr.vars[p] = a
        self.frames.append(fr)
        try:
            self.block(f.body)
            v = None
        except Retorna as r:
            v = r.v
        self.frames.pop()
        return v

    def x_iguala(self, x):
        return self.iguala(x)

    def iguala(self, x, stmt=False):
        if stmt:
            self.at_line(x)
        v = self.e(x.e)
        for i, a in enumerate(x.arms):
            b = {}
            if self.match(a.pat, v, b):
                self.hit("arm%d" % min(i, 4))
                for k, y in b.items():
                    self.put(k, y)
                if a.k == "armx":
                    if stmt:
                        self.at_line(a)
                    return self.e(a.e)
                try:
                    self.block(a.body)
                except Produz as p:
                    return p.v
                return None
        raise AssertionError("no arm")

    def match(self, p, v, b):
        if p.k == "pvar":
            b[p.sym] = v
            return True
        if p.k in ("pint", "ptext"):
            return type(v) is type(p.v) and v == p.v
        if v.sym is not p.sym:
            return False
        return all([self.match(q, y, b) for q, y in zip(p.args, v.args)])
