"""Functions that run inside the process of the code under test."""


def bson(doc):
    """Writes a document (see props/c17.py for its form)."""
    from amanda.compiler import bindump

    def build(x):
        k, v = x
        if k == "d":
            return {a: build(b) for a, b in v}
        if k == "l":
            return [build(b) for b in v]
        if k == "f":
            return float.fromhex(v)
        if k == "b":
            return bytes.fromhex(v)
        return v

    return bindump.dumps(build(doc))



def lex(texts):
    """The tokens of each text: [kind, value, line], up to the end or an error."""
    from io import StringIO

    from amanda.compiler.error import AmandaError
    from amanda.compiler.parse import Lexer

    out = []
    for text in texts:
        toks = []
        try:
            lexer = Lexer("prog.ama", StringIO(text))
            while len(toks) <= 4 * len(text) + 4:
                t = lexer.get_token()
                kind = t.token if isinstance(t.token, str) else t.token.name
                if kind in (Lexer.EOF, "EOF"):
                    toks.append(["EOF", None, t.line])
                    break
                v = t.lexeme
                if kind in ("STRING", "FORMAT_STR"):
                    v = v[1:-1]
                toks.append([kind, v, t.line])
            else:
                toks.append(["ENDLESS", None, 0])
        except AmandaError as e:
            toks.append(["ERROR", e.message, e.line])
        out.append(toks)
    return out


def trees(texts):
    """The syntax tree of each text in the form of amv/tree.py, or the error."""
    from io import StringIO

    from amanda.compiler.error import AmandaError
    from amanda.compiler.parse import Parser

    out = []
    for text in texts:
        try:
            tree = Parser("prog.ama", StringIO(text)).parse()
        except AmandaError as e:
            out.append(["error", e.message, e.line])
            continue
        except RecursionError:
            out.append(["deep"])
            continue
        out.append(_module(tree))
    return out


def _tok(t):
    return t.lexeme


def _module(m):
    return ["module", [_annotation(a) for a in m.annotations], [_node(c) for c in m.children]]


def _annotation(a):
    return [a.name, {k: v[1:-1] for k, v in a.attrs.items()}]


def _block(b):
    return None if b is None else [_node(c) for c in b.children]


def _type(t):
    if t is None:
        return None
    n = type(t).__name__
    if n == "ArrayType":
        return ["arr", _type(t.element_type), bool(t.maybe_ty)]
    args = None if t.generic_args is None else [_type(a.arg) for a in t.generic_args]
    if n == "TypePath":
        return ["t", list(t.components), bool(t.maybe_ty), args]
    return ["t", [t.name.lexeme], bool(t.maybe_ty), args]


def _pattern(p):
    n = type(p).__name__
    if n == "IntPattern":
        return ["int", p.val.lexeme]
    if n == "StrPattern":
        return ["text", p.val.lexeme[1:-1]]
    if n == "BindingPattern":
        return ["var", p.var.token.lexeme]
    return ["adt", _node(p.adt), [_pattern(a) for a in p.args]]


def _annos(x):
    return [_annotation(a) for a in (x.annotations or [])]


def _generics(x):
    return [g.name.lexeme for g in (x.generic_params or [])]


def _node(x):
    n = type(x).__name__
    f = _NODES.get(n)
    if f is None:
        raise TypeError("no form for " + n)
    return f(x)


_CONST = {"INTEGER": "int", "REAL": "real", "STRING": "text", "NULO": "nulo", "VERDADEIRO": "true", "FALSO": "false"}


def _constant(x):
    k = _CONST[x.token.token.name]
    if k in ("int", "real"):
        return [k, x.token.lexeme]
    return [k, x.token.lexeme[1:-1]] if k == "text" else [k]


_NODES = {
    "Constant": _constant,
    "Variable": lambda x: ["var", x.token.lexeme],
    "Alvo": lambda x: ["alvo"],
    "Path": lambda x: ["path", [c.token.lexeme for c in x.components]],
    "BinOp": lambda x: ["bin", x.token.lexeme, _node(x.left), _node(x.right)],
    "UnaryOp": lambda x: ["un", x.token.lexeme, _node(x.operand)],
    "Call": lambda x: ["call", _node(x.callee), [_node(a) for a in x.fargs]],
    "NamedArg": lambda x: ["named", x.name.lexeme, _node(x.arg)],
    "Get": lambda x: ["get", _node(x.target), x.member.lexeme],
    "IndexGet": lambda x: ["idx", _node(x.target), _node(x.index)],
    "Converta": lambda x: ["cast", _node(x.target), _type(x.new_type)],
    "ListLiteral": lambda x: ["list", _type(x.list_type), [_node(e) for e in x.elements]],
    "FmtStr": lambda x: ["fstr", [_node(p) for p in x.parts]],
    "Iguala": lambda x: ["iguala", _node(x.target), [[_pattern(a.pattern), _block(a.body)] for a in x.arms]],
    "Produz": lambda x: ["produz", _node(x.exp)],
    "Retorna": lambda x: ["retorna", None if x.exp is None else _node(x.exp)],
    "Mostra": lambda x: ["mostra", _node(x.exp)],
    "LoopCtlStmt": lambda x: ["ctl", x.token.lexeme],
    "Assign": lambda x: ["assign", _node(x.left), _node(x.right)],
    "Set": lambda x: ["assign", _node(x.target), _node(x.expr)],
    "IndexSet": lambda x: ["assign", _node(x.index), _node(x.value)],
    "VarDecl": lambda x: ["decl", x.name.lexeme, _type(x.var_type),
                          None if x.assign is None else _node(x.assign.right)],
    "Se": lambda x: ["se", _node(x.condition), _block(x.then_branch),
                     [[_node(b.condition), _block(b.then_branch)] for b in x.elsif_branches or []],
                     _block(x.else_branch)],
    "Enquanto": lambda x: ["enquanto", _node(x.condition), _block(x.statement)],
    "Para": lambda x: ["para", x.expression.name.lexeme, _node(x.expression.range_expr.start),
                       _node(x.expression.range_expr.end),
                       None if x.expression.range_expr.inc is None else _node(x.expression.range_expr.inc),
                       _block(x.statement)],
    "Escolha": lambda x: ["escolha", _node(x.expression),
                          [[_node(c.expression), _block(c.block)] for c in x.cases], _block(x.default_case)],
    "FunctionDecl": lambda x: ["func", _annos(x), bool(x.is_native), x.name.lexeme,
                               [[p.name.lexeme, _type(p.param_type)] for p in x.params], _type(x.func_type),
                               _block(x.block)],
    "MethodDecl": lambda x: ["met", _annos(x), _generics(x), _type(x.target_ty), x.name.lexeme,
                             [[p.name.lexeme, _type(p.param_type)] for p in x.params], _type(x.func_type),
                             _block(x.block)],
    "Registo": lambda x: ["registo", _annos(x), _generics(x), x.name.lexeme, [_node(f) for f in x.fields]],
    "Uniao": lambda x: ["uniao", _annos(x), _generics(x), x.name.lexeme,
                        [[v.name.lexeme, [_type(p) for p in v.params]] for v in x.variants]],
    "Usa": lambda x: ["usa", x.module.lexeme[1:-1], x.usa_mode.name, x.alias.lexeme if x.alias else None,
                      list(x.items)],
}
