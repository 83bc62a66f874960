"""Decoder and verifier of the module images handed to the virtual machine,
written from the BSON specification and the VM's opcode table."""
import struct


class Bad(Exception):
    pass


OPS = ("MOSTRA LOAD_CONST LOAD_NAME OP_ADD OP_MINUS OP_MUL OP_DIV OP_FLOORDIV OP_MODULO OP_INVERT "
       "OP_AND OP_OR OP_NOT OP_EQ OP_NOTEQ OP_GREATER OP_GREATEREQ OP_LESS OP_LESSEQ OP_INDEX_GET "
       "OP_INDEX_SET GET_GLOBAL SET_GLOBAL JUMP JUMP_IF_FALSE GET_LOCAL SET_LOCAL CALL_FUNCTION "
       "RETURN CAST BUILD_STR BUILD_VEC LOAD_REGISTO BUILD_OBJ GET_PROP SET_PROP OP_UNWRAP "
       "OP_ISNULL LOAD_MODULE_DEF BUILD_VARIANT BIND_MATCH_ARGS MATCH_VARIANT POP").split()
NAME = dict(enumerate(OPS))
NAME[255] = "HALT"
ARG = {}
for _o in "CALL_FUNCTION CAST BUILD_OBJ OP_UNWRAP BUILD_VARIANT BIND_MATCH_ARGS".split():
    ARG[_o] = (1,)
for _o in "LOAD_CONST LOAD_NAME GET_LOCAL SET_LOCAL GET_GLOBAL SET_GLOBAL BUILD_STR BUILD_VEC LOAD_REGISTO".split():
    ARG[_o] = (2,)
for _o in "JUMP JUMP_IF_FALSE MATCH_VARIANT".split():
    ARG[_o] = (8,)
ARG["LOAD_MODULE_DEF"] = (8, 8)

KEYS = ["name", "builtin", "entry_locals", "constants", "names", "ops", "functions", "registos",
        "src_map", "imports"]


# ---------------------------------------------------------------- documents
class Bson:
    def __init__(self, data, lens="list"):
        self.b = data
        self.i = 0

    def take(self, n):
        if n < 0 or self.i + n > len(self.b):
            raise Bad(f"truncated at {self.i}")
        r = self.b[self.i:self.i + n]
        self.i += n
        return r

    def int32(self):
        return struct.unpack("<i", self.take(4))[0]

    def cstr(self):
        j = self.b.find(b"\0", self.i)
        if j < 0:
            raise Bad("key without end")
        r = self.b[self.i:j]
        self.i = j + 1
        return r.decode("utf-8")

    def doc(self):
        """-> list of (key, value).  The length field of this writer counts the
        bytes between itself and the final zero."""
        start = self.i
        size = self.int32()
        out = []
        while True:
            t = self.take(1)[0]
            if t == 0:
                break
            key = self.cstr()
            out.append((key, self.value(t)))
        if self.i - start - 5 != size:
            raise Bad(f"document of {self.i - start - 5} bytes has the length field {size}")
        return out

    def value(self, t):
        if t == 1:
            return struct.unpack("<d", self.take(8))[0]
        if t == 2:
            n = self.int32()
            s = self.take(n)
            if self.take(1) != b"\0":
                raise Bad("text without its final zero")
            return s.decode("utf-8")
        if t == 3:
            return dict_of(self.doc())
        if t == 4:
            d = self.doc()
            if [k for k, _ in d] != [str(i) for i in range(len(d))]:
                raise Bad("the keys of an array are not its indices")
            return [v for _, v in d]
        if t == 5:
            n = self.int32()
            if self.take(1) != b"\x80":
                raise Bad("subtype of bytes")
            return self.take(n)
        if t == 8:
            return self.take(1) != b"\0"
        if t == 0x12:
            return struct.unpack("<q", self.take(8))[0]
        raise Bad(f"unknown value type {t}")


def dict_of(pairs):
    d = {}
    for k, v in pairs:
        if k in d:
            raise Bad(f"the key {k!r} appears twice")
        d[k] = v
    return d


def decode(blob):
    r = Bson(blob)
    d = dict_of(r.doc())
    if r.i != len(blob):
        raise Bad(f"{len(blob) - r.i} bytes after the document")
    return d


# --------------------------------------------------------------- bytecode
def sweep(code):
    """-> {address: (op, args, next)} by linear decoding"""
    out = {}
    i = 0
    while i < len(code):
        op = NAME.get(code[i])
        if op is None:
            raise Bad(f"unknown opcode {code[i]} at {i}")
        j = i + 1
        args = []
        for n in ARG.get(op, ()):
            if j + n > len(code):
                raise Bad(f"{op} at {i} is cut")
            args.append(int.from_bytes(code[j:j + n], "big"))
            j += n
        out[i] = (op, tuple(args), j)
        i = j
    return out


def effect(op, a):
    """-> (pops, pushes)"""
    if op in ("MOSTRA", "SET_GLOBAL", "SET_LOCAL", "POP", "JUMP_IF_FALSE"):
        return 1, 0
    if op in ("LOAD_CONST", "LOAD_NAME", "GET_GLOBAL", "GET_LOCAL", "LOAD_REGISTO", "LOAD_MODULE_DEF"):
        return 0, 1
    if op in ("OP_INVERT", "OP_NOT", "OP_ISNULL", "MATCH_VARIANT"):
        return 1, 1
    if op in ("OP_INDEX_SET", "SET_PROP"):
        return 3, 0
    if op == "CALL_FUNCTION":
        return a[0] + 1, 1
    if op == "BUILD_OBJ":
        return 2 * a[0] + 1, 1
    if op == "BUILD_VARIANT":
        return a[0] + 1, 1
    if op == "BIND_MATCH_ARGS":
        return a[0] + 1, 0
    if op in ("BUILD_STR", "BUILD_VEC"):
        return a[0], 1
    if op == "CAST":
        return 2, 1
    if op == "OP_UNWRAP":
        return (2, 1) if a[0] == 1 else (1, 1)
    if op in ("JUMP", "HALT"):
        return 0, 0
    if op == "RETURN":
        return 1, 0
    return 2, 1  # binary operators, OP_INDEX_GET, GET_PROP


def verify_module(m, imports, arity=None, lines=None, variants=None, where="main"):
    """Raises Bad when the code of a module is not well formed.
    arity: {function name: parameters}; lines: lines of its source file."""
    stats = {"instructions": 0, "functions": 0, "jumps": 0}
    if m["builtin"]:
        return stats
    code = m["ops"]
    ins = sweep(code)
    stats["instructions"] = len(ins)
    consts, names, regs = m["constants"], m["names"], m["registos"]
    entries = [("_inicio_", 0, m["entry_locals"], 0)]
    for f in m["functions"]:
        n = (arity or {}).get(f["name"], None)
        entries.append((f["name"], f["start_ip"], f["locals"], n))
        if not 0 <= f["start_ip"] < len(code):
            raise Bad(f"{where}: function {f['name']} starts at {f['start_ip']}, outside the code")
    starts = [e[1] for e in entries]
    if len(set(starts)) != len(starts):
        raise Bad(f"{where}: two functions start at the same address")
    # source map
    sm = m["src_map"]
    if len(sm) % 3:
        raise Bad(f"{where}: the source map has {len(sm)} numbers")
    ranges = [tuple(sm[i:i + 3]) for i in range(0, len(sm), 3)]
    for a, b, ln in ranges:
        if a > b or a not in ins or b not in ins:
            raise Bad(f"{where}: the source map range {a}-{b} does not go from instruction to instruction")
        if ln < 1 or lines is not None and ln > lines:
            raise Bad(f"{where}: the source map names line {ln} of {lines}")
    cover = {}
    for a, b, ln in ranges:
        for p in range(a, b + 1):
            if p in ins:
                if p in cover:
                    raise Bad(f"{where}: two ranges of the source map contain {p}")
                cover[p] = ln
    owner = {}
    maxargs = {}
    for name, start, nlocals, params in entries:
        stats["functions"] += 1
        if start not in ins:
            raise Bad(f"{where}: function {name} starts inside an instruction")
        state = {start: 0}
        inited = {start: frozenset(range(params)) if params is not None else None}
        consts_at = {start: ()}
        work = [start]
        while work:
            p = work.pop()
            if owner.setdefault(p, name) != name:
                raise Bad(f"{where}: the instruction at {p} is reached by {owner[p]} and by {name}")
            op, a, nxt = ins[p]
            h = state[p]
            done = inited[p]
            top = consts_at[p]
            at = f"{where}: {name}, {op} {' '.join(map(str, a))} at {p}"
            if p not in cover and op not in ("HALT",):
                raise Bad(f"{at}: not in the source map")
            pops, pushes = effect(op, a)
            if h < pops:
                raise Bad(f"{at}: takes {pops} values from a stack of {h}")
            if op == "LOAD_CONST" and a[0] >= len(consts):
                raise Bad(f"{at}: there are {len(consts)} constants")
            if op in ("LOAD_NAME", "GET_GLOBAL", "SET_GLOBAL") and a[0] >= len(names):
                raise Bad(f"{at}: there are {len(names)} names")
            if op == "LOAD_REGISTO" and a[0] >= len(regs):
                raise Bad(f"{at}: there are {len(regs)} records")
            if op == "LOAD_MODULE_DEF":
                if a[0] >= len(imports):
                    raise Bad(f"{at}: there are {len(imports)} modules")
                if a[1] >= len(names):
                    raise Bad(f"{at}: there are {len(names)} names")
                if not imports[a[0]]["builtin"] and names[a[1]] not in imports[a[0]]["names"]:
                    raise Bad(f"{at}: the module {imports[a[0]]['name']} has no {names[a[1]]}")
            if op in ("GET_LOCAL", "SET_LOCAL") and a[0] >= nlocals:
                raise Bad(f"{at}: the function has {nlocals} locals")
            if op == "GET_LOCAL" and done is not None and a[0] not in done:
                raise Bad(f"{at}: the local is read before it has a value")
            if op == "MATCH_VARIANT" and variants is not None and a[0] >= variants:
                raise Bad(f"{at}: there are {variants} variants")
            if op == "BUILD_VARIANT":
                tag = top[-1] if top else None
                if isinstance(tag, str):
                    if not tag.isdigit():
                        raise Bad(f"{at}: the tag is the constant {tag}")
                    if variants is not None and int(tag) >= variants:
                        raise Bad(f"{at}: there are {variants} variants")
            if op == "BUILD_OBJ" and top and isinstance(top[-1], tuple) and top[-1][0] == "reg":
                fields = regs[top[-1][1]]["fields"]
                given = [v[1] for v in top[:-1] if isinstance(v, tuple) and v[0] == "name"]
                if a[0] != len(fields):
                    raise Bad(f"{at}: the record has {len(fields)} fields")
                del given
            if op == "CAST" and a[0] not in (0, 1, 2) or op == "OP_UNWRAP" and a[0] not in (0, 1):
                raise Bad(f"{at}: unknown mode")
            done2 = done
            if op == "SET_LOCAL" and done is not None:
                done2 = done | {a[0]}
            if op == "BIND_MATCH_ARGS":
                for s in top[len(top) - a[0]:] if len(top) >= a[0] else ():
                    if not isinstance(s, str) or not s.isdigit() or int(s) >= nlocals:
                        raise Bad(f"{at}: binds the local {s} of {nlocals}")
                    if done2 is not None:
                        done2 = done2 | {int(s)}
            if op == "GET_GLOBAL":
                val = ("glob", names[a[0]])
            elif op == "LOAD_CONST":
                val = str(consts[a[0]])
            elif op == "LOAD_REGISTO":
                val = ("reg", a[0])
            elif op == "LOAD_NAME":
                val = ("name", a[0])
            else:
                val = None
            if op == "CALL_FUNCTION" and top and isinstance(top[-1], tuple) and top[-1][0] == "glob" \
                    and arity is not None and arity.get(top[-1][1]) is not None:
                if arity[top[-1][1]] != a[0]:
                    raise Bad(f"{at}: {top[-1][1]} takes {arity[top[-1][1]]} arguments")
            keep = top[:len(top) - pops] if pops else top
            if pops > len(top):
                keep = ()
            top2 = (keep + (val,) * pushes)[-300:]
            h2 = h - pops + pushes
            if op in ("RETURN", "HALT"):
                if op == "HALT" and start != 0:
                    raise Bad(f"{at}: a function halts")
                if op == "RETURN" and start == 0:
                    raise Bad(f"{at}: return outside a function")
                continue
            succ = []
            if op in ("JUMP", "JUMP_IF_FALSE"):
                stats["jumps"] += 1
                if a[0] not in ins:
                    raise Bad(f"{at}: the target is not an instruction")
                succ.append(a[0])
            if op != "JUMP":
                if nxt not in ins:
                    raise Bad(f"{at}: the code ends here")
                succ.append(nxt)
            for q in succ:
                if q in starts and q != start:
                    raise Bad(f"{at}: goes on into another function")
                if q not in state:
                    state[q], inited[q], consts_at[q] = h2, done2, top2
                    work.append(q)
                    continue
                if state[q] != h2:
                    raise Bad(f"{at}: leaves {h2} values on the stack for {q}, another path leaves {state[q]}")
                h3 = h2
                d3 = inited[q] if done2 is None else (inited[q] & done2 if inited[q] is not None else None)
                c3 = consts_at[q]
                if c3 != top2:
                    k = min(len(c3), len(top2))
                    c3 = tuple(x if x == y else None for x, y in zip(c3[len(c3) - k:], top2[len(top2) - k:]))
                if (h3, d3, c3) != (state[q], inited[q], consts_at[q]):
                    state[q], inited[q], consts_at[q] = h3, d3, c3
                    work.append(q)
    return stats


def verify(image, arity=None, lines=None, variants=None):
    """lines, arity: {module name: ...} for the modules with a source"""
    for d in [image, *image["imports"]]:
        if list(d) != KEYS:
            raise Bad(f"the keys of the image are {list(d)}")
    total = {}
    for d in [*image["imports"], image]:
        w = d["name"]
        s = verify_module(d, image["imports"], (arity or {}).get(w), (lines or {}).get(w), variants, w)
        for k, v in s.items():
            total[k] = total.get(k, 0) + v
    return total
