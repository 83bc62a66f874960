"""Small damages to a source text."""
import re

TOKEN = re.compile(r"""f?'(?:\\.|[^'\\])*'|f?"(?:\\.|[^"\\])*"|\d+(?:\.\d+)?|\w+|#[^\n]*|::|:>|=>|==|!=|<=|>=|//=?|[-+*/]=|\.\.|\n|[^\S\n]+|.""", re.S)
SOUP = ["fim", "se", "entao", "senao", "senaose", "func", "f", "(", ")", "[", "]", ":", ",", "=>", "=", "==", "+", "-",
        "mostra", "retorna", "iguala", "escolha", "caso", "para", "de", "..", "enquanto", "faca", "uniao", "registo",
        "met", "::", "alvo", "usa", "'a'", "1", "2.5", "x", "nulo", "verdadeiro", "produz", "quebra", "continua",
        "?", ".", ":>", "int", "texto", "\n", ";", "//", "%", "!", "@", "@@", "f'{x}'", "{", "}", "$", "é", "\"", "'",
        "+=", "*", "e", "ou", "nao", "_", "nativa", "\t", "#", "vec", "valor", "::", "<", ">", "inc"]


def tokens(text):
    return TOKEN.findall(text)


def mutate(text, s, n=None):
    """One to three damages."""
    t = tokens(text)
    for _ in range(n or s.rint(1, 3)):
        if not t:
            t = ["x"]
        i = s.n(len(t))
        k = s.weighted([(4, "drop"), (3, "swap"), (3, "put"), (3, "change"), (2, "copy"), (1, "cut"),
                        (1, "join"), (1, "char"), (1, "line")])
        if k == "drop":
            del t[i:i + s.weighted([(5, 1), (1, 3), (1, 8)])]
        elif k == "swap":
            j = s.n(len(t))
            t[i], t[j] = t[j], t[i]
        elif k == "put":
            t.insert(i, s.pick([" ", ""]) + s.pick(SOUP) + s.pick([" ", ""]))
        elif k == "change":
            t[i] = s.pick(SOUP)
        elif k == "copy":
            j = s.n(len(t))
            t[i:i] = t[j:j + s.rint(1, 12)]
        elif k == "cut":
            t = t[:i]
        elif k == "join":
            t = [x for j, x in enumerate(t) if j < i or not x.isspace() or j > i + 6]
        elif k == "char":
            x = t[i]
            c = s.n(len(x))
            t[i] = x[:c] + s.pick(["", "'", "\\", "\x00", "é", "{", "9", "_", "\n"]) + x[c + 1:]
        else:
            lines = "".join(t).split("\n")
            a, b = s.n(len(lines)), s.n(len(lines))
            lines[a], lines[b] = lines[b], lines[a]
            t = tokens("\n".join(lines))
    return "".join(t)
