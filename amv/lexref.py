"""A reference lexer, written from the language's description."""

WORDS = {k: k.upper() for k in (
    "mostra e ou nao verdadeiro falso caso retorna produz se senao senaose escolha entao enquanto para faca de "
    "continua quebra usa como alvo registo iguala inc fim func met nulo vazio nativa uniao classe").split()}
OPS = {
    "(": "LPAR", ")": "RPAR", ".": "DOT", "..": "DDOT", ";": "SEMI", ",": "COMMA", "{": "LBRACE", "}": "RBRACE",
    "[": "LBRACKET", "]": "RBRACKET", "@": "AT", "@@": "DOUBLEAT", ":": "COLON", "?": "QMARK", "::": "DOUBLECOLON",
    ":>": "CAST", "=>": "ARROW", "+": "PLUS", "-": "MINUS", "*": "STAR", "/": "SLASH", "//": "DOUBLESLASH",
    "%": "MODULO", "+=": "PLUSEQ", "-=": "MINUSEQ", "*=": "STAREQ", "/=": "SLASHEQ", "<": "LESS", ">": "GREATER",
    "<=": "LESSEQ", ">=": "GREATEREQ", "!=": "NOTEQUAL", "=": "EQUAL", "==": "DOUBLEEQUAL",
}
NO_SYMBOL = "O símbolo '%s' não foi reconhecido"
NO_END = "A sequência de caracteres não foi delimitada"
TOO_BIG = "O número inteiro é demasiado grande"


def starts(c):
    return c.isalpha() or c == "_"


def goes_on(c):
    return c.isalnum() or c == "_"


def lex(text, spans=None):
    """-> [[kind, value, line]...], the last one EOF or ERROR
    spans: a list that receives the (start, end) of every token but the last"""
    out = []
    i, n, line = 0, len(text), 1
    start = 0
    while True:
        if spans is not None and out:
            spans.append((start, i))
        while i < n and text[i] != "\n" and (text[i].isspace() or text[i] == "#"):
            if text[i] == "#":
                while i < n and text[i] != "\n":
                    i += 1
            else:
                i += 1
        if i >= n or (text[i] == "\n" and i == n - 1):
            out.append(["EOF", None, line])
            return out
        c = text[i]
        start = i
        if c == "\n":
            out.append(["NEWLINE", "\\n", line])
            line += 1
            i += 1
        elif c in "'\"" or (c == "f" and i + 1 < n and text[i + 1] in "'\""):
            kind = "STRING"
            if c == "f":
                kind = "FORMAT_STR"
                i += 1
            quote, at, v = text[i], line, []
            i += 1
            while i < n and text[i] != quote:
                if text[i] == "\\" and text[i + 1:i + 2] in ("n", "'", '"'):
                    v.append("\n" if text[i + 1] == "n" else text[i + 1])
                    i += 2
                    continue
                if text[i] == "\n":
                    line += 1
                v.append(text[i])
                i += 1
            if i >= n:
                out.append(["ERROR", NO_END, at])
                return out
            i += 1
            out.append([kind, "".join(v), at])
        elif starts(c):
            j = i
            while j < n and goes_on(text[j]):
                j += 1
            w = text[i:j]
            out.append([WORDS.get(w, "IDENTIFIER"), w, line])
            i = j
        elif c.isdecimal():
            j = i
            while j < n and text[j].isdecimal():
                j += 1
            if j + 1 < n and text[j] == "." and text[j + 1].isdecimal():
                j += 1
                while j < n and text[j].isdecimal():
                    j += 1
                out.append(["REAL", float(text[i:j]), line])
            else:
                if j - i > 4300:
                    out.append(["ERROR", TOO_BIG, line])
                    return out
                out.append(["INTEGER", int(text[i:j]), line])
            i = j
        else:
            for k in (2, 1):
                w = text[i:i + k]
                if w in OPS:
                    out.append([OPS[w], w, line])
                    i += k
                    break
            else:
                out.append(["ERROR", NO_SYMBOL % c, line])
                return out
