"""Serialisation."""
import re

from ..diff import compare
from ..engine import Property
from ..gen import REALS
from ..image import Bad, decode
from ..ref import show_real

KEYS = ["a", "name", "k\u00e9y", "0", "valor", "", "x y", "日本", "len", "ops", "\u200d", "a.b"]
TEXTS = ["", "a", "é", "日本", "\U0001f44d", "\x01", "\n", "'", '"', "\\", "\x7f", "\u0000", "\ufeff", "\uffff",
         "\u2028", "ab" * 40, "\x85", "{", "}", "%s", "0", "nulo", "\r", "\t"]


def text(s):
    if s.p(8):
        return s.pick(["a", "é", "日"]) * s.pick([100, 127, 128, 255, 256, 257, 300])
    return "".join(s.pick(TEXTS) if s.p(60) else chr(rnd_cp(s)) for _ in range(s.rint(0, 5)))


def rnd_cp(s):
    k = s.n(4)
    if k == 0:
        return s.rint(32, 126)
    if k == 1:
        return s.rint(0xA0, 0x24F)
    if k == 2:
        return s.rint(0x370, 0xD7FF)
    return s.rint(0xE000, 0x1FFFF)


def integer(s):
    if s.p(50):
        return s.rint(-10, 300)
    b = s.pick([0, 7, 8, 15, 16, 31, 32, 52, 53, 62, 63])
    v = (1 << b) + s.rint(-2, 2)
    v = -v if s.p(50) else v
    return max(min(v, 2 ** 63 - 1), -2 ** 63)


def real(s):
    import struct
    k = s.n(3)
    if k == 0:
        return float(s.pick(REALS))
    if k == 1:
        return float(s.rint(-1000, 1000)) / s.pick([1, 2, 3, 7, 10])
    bits = 0
    for _ in range(8):
        bits = bits << 8 | s.n(256)
    f = struct.unpack("<d", struct.pack("<Q", bits))[0]
    return 0.5 if f != f else f


class C17(Property):
    id = "C17"
    quick = 7000
    thorough = 150000
    technique = ("property-based testing: round trip of generated documents through an independent "
                 "decoder, and of generated constants through compiler, image, loader and display")
    level_note = "Random documents and constant tables."
    assumptions = ("The document format is BSON's, with a length field that counts the elements.",)
    rule = ("Half of the cases are documents (nested maps and lists of text, integers, reals, bytes) "
            "that bindump writes and an independent decoder has to read back equal, in the same "
            "order; the others are programs whose constants, names, record fields and functions "
            "are chosen to be hard to store (any Unicode, look-alikes, boundary numbers): the "
            "image must hold exactly them and the program must display them. Non-trivial: four "
            "values or more.")

    def gen(self, s, tier):
        if s.p(50):
            s.label("document")
            return {"doc": self.doc(s, s.rint(1, 4))}
        s.label("program")
        return self.program(s)

    # JSON form of a document: ["d", [[k, v]...]] ["l", [...]] ["b", hex] ["s", text] ["i", n] ["f", hex]
    def doc(self, s, d):
        out, used = [], set()
        for _ in range(s.rint(0, 6)):
            k = s.pick(KEYS) if s.p(70) else "".join(chr(max(1, rnd_cp(s))) for _ in range(s.rint(1, 3)))
            if k in used:
                continue
            used.add(k)
            out.append([k, self.value(s, d - 1)])
        return ["d", out]

    def value(self, s, d):
        k = s.weighted([(3, "s"), (3, "i"), (2, "f"), (2, "b")] + ([(2, "l"), (2, "d")] if d > 0 else []))
        if k == "s":
            return ["s", text(s)]
        if k == "i":
            return ["i", integer(s)]
        if k == "f":
            return ["f", real(s).hex()]
        if k == "b":
            return ["b", "".join("%02x" % s.n(256) for _ in range(s.pick([0, 1, 3, 127, 128, 255, 256, 300])))]
        if k == "l":
            return ["l", [self.value(s, d - 1) for _ in range(s.pick([0, 1, 2, 3, 11, 101]) if s.p(40) else s.n(4))]]
        return self.doc(s, d)

    def program(self, s):
        lines, want, consts = [], [], []
        for i in range(s.rint(2, 14)):
            k = s.weighted([(5, "text"), (3, "int"), (3, "real"), (1, "glob"), (1, "rec"), (1, "fstr"), (1, "list")])
            if k == "text":
                v = self.spell(text(s))
                q = s.pick("'\"")
                lit = q + v.replace(q, "\\" + q) + q
                lines.append(f"mostra {lit}")
                want.append(v)
                consts.append(("s", v))
            elif k == "int":
                v = abs(integer(s)) % 2 ** 63
                z = "0" * s.pick([0, 0, 0, 1, 3])
                lines.append(f"mostra {z}{v}")
                want.append(str(v))
            elif k == "real":
                t = self.real_text(s)
                v = float(t)
                lines.append(f"mostra {t}")
                want.append(show_real(v))
            elif k == "glob":
                n = s.pick(["verdadeiro_", "nulo1", "texto_", "int1", "_", "x_0", "a" * 40]) + str(i)
                v = integer(s) % 1000
                lines.append(f"{n}: texto = '{n}'")
                lines.append(f"mostra {n}")
                want.append(n)
            elif k == "rec":
                fs = s.sub(["a", "b", "nome", "fields", "name", "len", "nulo_", "x1"], s.rint(1, 4))
                lines.append(f"registo R{i}\n  " + "\n  ".join(f"{f}: texto" for f in fs) + "\nfim")
                lines.append(f"r{i}: R{i} = R{i}(" + ", ".join(f"{f}: '{f}{i}'" for f in s.shuffle(fs)) + ")")
                for f in fs:
                    lines.append(f"mostra r{i}.{f}")
                    want.append(f + str(i))
                lines.append(f"mostra r{i}")
                want.append(f"<Instância do tipo R{i}>")
            elif k == "fstr":
                v = self.spell(text(s)).replace("\\", "/")
                q = s.pick("'\"")
                w = v.replace("{", "{{").replace(q, "\\" + q)
                lines.append(f"mostra f{q}{w}{q}")
                want.append(v)
            else:
                vs = [integer(s) % 2 ** 62 for _ in range(s.rint(1, 5))]
                lines.append("mostra [int: " + ", ".join(map(str, vs)) + "]")
                want.append("[" + ", ".join(map(str, vs)) + "]")
        err = None
        if s.p(25):
            v = self.spell(text(s)) + "x"
            q = s.pick("'\"")
            lines.append(f"mostra {q}{v.replace(q, chr(92) + q)}{q} :> int")
            err = f"A sequência de caracteres '{v}' não é um inteiro válido"
        return {"src": "\n".join(lines) + "\n", "expect": {"out": "\n".join(want) + "\n", "error": err}}

    def spell(self, v):
        # what the source can spell, in a file whose line ends are not rewritten
        v = v.replace("\r", "r").replace("\u0000", "0")
        v = re.sub(r"\\(?=[n'\"\\]|$)", "/", v)
        while v.endswith("\\"):
            v = v[:-1]
        return re.sub(r"\\(?=[n'\"]|$)", "/", v)

    def real_text(self, s):
        k = s.n(4)
        if k == 0:
            return s.pick(REALS)
        if k == 1:
            return str(s.rint(0, 999)) + "." + "".join(str(s.n(10)) for _ in range(s.rint(1, 22)))
        if k == 2:
            f = abs(real(s))
            if f == float("inf"):
                f = 1.5
            from decimal import Decimal
            t = format(Decimal(repr(f)), "f")
            return t if "." in t else t + ".0"
        return "".join(str(s.n(10)) for _ in range(s.rint(1, 25))) + "." + "".join(str(s.n(10)) for _ in range(s.rint(1, 8)))

    def check(self, case, env):
        if "doc" in case:
            r = env.w.call("bson", case["doc"])
            if r.timeout or r.value is None:
                return "writing the document did not end\n" + r.show()
            if r.value[0] != "ok":
                return "writing the document failed: " + r.value[3] + "\n" + str(case["doc"])[:1500]
            try:
                got = decode(r.value[1])
            except (Bad, UnicodeDecodeError, ValueError) as e:
                return f"the document cannot be decoded: {e}\n{str(case['doc'])[:1500]}"
            return self.same(case["doc"], got, "")
        r = env.w.run(case["src"])
        w = compare(r, case["expect"], case["src"])
        if w is None:
            try:
                decode(r.blob)
            except (Bad, UnicodeDecodeError) as e:
                w = f"the image cannot be decoded: {e}\n" + case["src"]
        return w

    def same(self, want, got, at):
        k, v = want
        if k == "d":
            if not isinstance(got, dict) or list(got) != [x for x, _ in v]:
                return f"at {at or 'top'}: keys {list(got) if isinstance(got, dict) else got!r}, expected {[x for x, _ in v]}"
            for a, b in v:
                w = self.same(b, got[a], f"{at}/{a}")
                if w:
                    return w
            return None
        if k == "l":
            if not isinstance(got, list) or len(got) != len(v):
                return f"at {at}: {got!r}, expected a list of {len(v)}"
            for i, b in enumerate(v):
                w = self.same(b, got[i], f"{at}/{i}")
                if w:
                    return w
            return None
        if k == "f":
            v = float.fromhex(v)
        if k == "b":
            v = bytes.fromhex(v)
        if type(v) is not type(got) or v != got:
            return f"at {at}: {got!r}, expected {v!r}"
        return None

    def nontrivial(self, case):
        if "doc" in case:
            return str(case["doc"]) if str(case["doc"]).count("[") > 5 else None
        return case["src"] if case["src"].count("mostra") > 3 else None

    def sample(self, case):
        return {"document": case["doc"]} if "doc" in case and len(str(case)) < 800 else (
            {"program": case["src"][:800]} if "src" in case else "a document of %d characters" % len(str(case)))


PROP = C17()
