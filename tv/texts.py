"""Random schema texts, valid and nearly valid. Only used to produce inputs: nothing here judges a result."""
import random

KEYWORDS = ["as", "asymmetric", "Bool", "Bytes", "choice", "deleted", "F64", "import", "optional", "S64", "String", "struct", "U64", "Unit"]
BUILTIN = ["Bool", "Bytes", "F64", "S64", "String", "U64", "Unit"]
NAMES = ["foo", "bar", "baz", "qux", "Foo", "Bar", "fooBar", "FooBar", "foo_bar", "foo_1", "foo1", "x", "X", "a_b_c", "aBC", "id", "type", "self",
         "value_", "v2", "\u00e9t\u00e9", "\u042fx", "\u65e5\u672c", "\u03a9mega", "x\u00b2", "n\u0663", "HTTPServer", "foo__bar", "a\u00c9a", "a_\u00e9a", "\u00dfa", "SSa", "\u017fa", "\u0130x", "\u2126mega", "\u0131d", "\ufb01x", "\u01c5x", "\u01f0a", "\u0149a", "\u01c6y"]
LONG = ["a_long_name" * 9, "aVeryLongNameOfAField" * 6, "x" * 85]
ESCAPED = ["$" + k for k in KEYWORDS] + ["$foo", "$Bar"]
SPACE = [" ", " ", " ", "\n", "\n", "\n\n", "\t", "  ", "\r\n", "\u00a0", "\u3000", "\u2028", "\x0b", "\n    "]
WORDS = ["the", "a", "field", "of", "some", "value", "`code`", "'quoted'", "x" * 30, "longer-word", "caf\u00e9", "#hash", "import", "struct {", "\u65e5\u672c\u8a9e", "1.", "*", "$"]
OTHER = ["!", "@", "%", "&", "(", ")", ",", ";", "-", "+", "\"", "\\", "/", "<", "\u20ac", "\u0301", "\U0001f600", "\u200b", "\x00", "\x7f", "'", "#", "$", "_", "\u00bd", "\ufeff"]


class Gen:
    def __init__(self, rng, imports=(), names=None, max_fields=5, comments=0.25, free=False):
        """imports: (path, stem or None) that may be imported. free: indices and names need not be valid."""
        self.rng, self.imports, self.names, self.max_fields, self.pc, self.free = rng, list(imports), names or NAMES, max_fields, comments, free

    def name(self):
        return self.rng.choice(self.names) if self.rng.random() < 0.93 else self.rng.choice(ESCAPED)

    def comment(self):
        rng = self.rng
        lines = []
        for _ in range(rng.choice([1, 1, 1, 2, 3])):
            n = rng.choice([0, 1, 2, 3, 5, 8, 30])
            lines.append("#" + rng.choice(["", " ", "  ", "\t"]) + rng.choice([" ", "  "]).join(rng.choice(WORDS) for _ in range(n)))
        return ("comment", lines)

    def type(self, depth=0):
        rng = self.rng
        if depth < 4 and rng.random() < 0.25:
            return ["["] + self.type(depth + 1) + ["]"]
        r = rng.random()
        if r < 0.6:
            return [rng.choice(BUILTIN)]
        if r < 0.85:
            return [self.name()]
        return [self.name(), ".", self.name()]

    def tokens(self):
        rng, out = self.rng, []
        if rng.random() < self.pc:
            out.append(self.comment())
        for path in rng.sample(self.imports, min(len(self.imports), rng.choice([0, 0, 1, 2, 3]))):
            out += ["import", "'" + path + "'"]
            if rng.random() < 0.4:
                out += ["as", self.name()]
        for _ in range(rng.choice([0, 1, 1, 2, 3])):
            if rng.random() < self.pc:
                out.append(self.comment())
            out += [rng.choice(["struct", "struct", "choice"]), self.name(), "{"]
            n = rng.randrange(self.max_fields + 1)
            idx = list(range(n + rng.randrange(3) + (rng.randrange(15, 60) if rng.random() < 0.04 else 0)))
            rng.shuffle(idx)
            for i in range(n):
                if rng.random() < self.pc:
                    out.append(self.comment())
                if rng.random() < 0.4:
                    out.append(rng.choice(["optional", "asymmetric"]))
                out.append(self.name())
                if rng.random() < 0.75:
                    out += [":"] + self.type()
                out += ["=", self.index(idx[i])]
            if len(idx) > n or rng.random() < 0.1:
                out += ["deleted"] + [self.index(i) for i in idx[n:]]
            out.append("}")
        return out

    def index(self, i):
        r = self.rng.random()
        if r < 0.02:
            return self.rng.choice(["18446744073709551615", "18446744073709551616", "4611686018427387903", "4611686018427387904", "99999999999999999999999"])
        if r < 0.08:
            return "0" * self.rng.randrange(1, 3) + str(i)
        return str(i)


def wordy(t):
    return isinstance(t, str) and t and (t[0].isalnum() or t[0] in "$_")


def join(rng, toks, tidy=0.3):
    """Renders tokens with random white space."""
    if rng.random() < tidy:
        return pretty(toks)
    out, prev = [], None
    calm = rng.random() < 0.5
    for t in toks:
        sp = rng.choice(["", " ", "\n"]) if calm else "".join(rng.choice(SPACE) for _ in range(rng.choice([0, 0, 1, 1, 2])))
        if wordy(prev) and (wordy(t)) and not sp:
            sp = " "
        if isinstance(prev, tuple):
            if "\n" not in sp:
                sp = "\n" + sp
            if isinstance(t, tuple):
                pass
        out.append(sp)
        if isinstance(t, tuple):
            ind = rng.choice(["", "  ", "    "])
            out.append(("\n" + ind).join(t[1]))
        else:
            out.append(t)
        prev = t
    out.append(rng.choice(["", "\n", " ", "\n\n"]))
    return "".join(out)


def pretty(toks):
    out, ind, line = [], 0, ""
    for t in toks:
        if isinstance(t, tuple):
            if line.strip():
                out.append(line)
            out += ["  " * ind + x for x in t[1]]
            line = ""
        elif t == "{":
            out.append(line + " {")
            line, ind = "", 1
        elif t == "}":
            if line.strip():
                out.append(line)
            out.append("}")
            out.append("")
            line, ind = "", 0
        elif t in ("import", "struct", "choice") and ind == 0:
            if line.strip():
                out.append(line)
            line = t
        elif t in ("[", "]", ".", ":") or line.endswith(("[", ".")):
            line += t if t != ":" else ":"
        else:
            line += (" " if line.strip() else "  " * ind) + t
            if ind and len(line.split("=")) == 2 and t[0].isdigit() and not line.strip().startswith("deleted"):
                out.append(line)
                line = ""
    if line.strip():
        out.append(line)
    return "\n".join(out) + "\n"


STRAY = ["{", "}", "[", "]", ":", "=", ".", "import", "as", "struct", "choice", "optional", "asymmetric", "deleted", "foo", "Bool", "7", "'x.t'",
         ("comment", ["# stray"]), "Unit", "'"]


def mutate_tokens(rng, toks):
    toks = list(toks)
    for _ in range(rng.choice([1, 1, 1, 2])):
        if not toks:
            toks = [rng.choice(STRAY)]
            continue
        k = rng.randrange(len(toks))
        r = rng.random()
        if r < 0.3:
            del toks[k]
        elif r < 0.55:
            toks.insert(k, rng.choice(STRAY))
        elif r < 0.75:
            toks[k] = rng.choice(STRAY)
        elif r < 0.85:
            toks.insert(k, toks[k])
        elif r < 0.93:
            j = rng.randrange(len(toks))
            toks[k], toks[j] = toks[j], toks[k]
        else:
            toks = toks[:k]
    return toks


def mutate_text(rng, text):
    for _ in range(rng.choice([1, 1, 2])):
        k = rng.randrange(len(text) + 1)
        r = rng.random()
        if r < 0.5:
            text = text[:k] + rng.choice(OTHER) + text[k:]
        elif r < 0.7:
            text = text[:k] + text[k + 1:]
        elif r < 0.85:
            text = text[:k] + rng.choice(SPACE) + text[k:]
        else:
            text = text[:k]
    return text

STRAY_TEXT = [t for t in STRAY if isinstance(t, str)] + ["# c", "\n", "12", "999999999999999999999", "'a", "b'"]
