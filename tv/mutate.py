"""Byte strings near valid messages. Only used to produce inputs: nothing here judges a result."""
from .schema import VAR_EDGES


def varint(n):
    for k in range(9):
        if n < VAR_EDGES[k + 1]:
            m = n - VAR_EDGES[k]
            if k == 8:
                return bytes([0]) + m.to_bytes(8, "little")
            total = (m << (k + 1)) | (1 << k)
            return total.to_bytes(k + 1, "little")
    raise ValueError(n)


def long_varint(n, size):
    """The encoding of n with exactly that many bytes, if there is one (they wrap around for 9 bytes)."""
    k = size - 1
    m = (n - VAR_EDGES[k]) % 2 ** 64
    if k == 8:
        return bytes([0]) + m.to_bytes(8, "little")
    total = (m << (k + 1)) | (1 << k)
    return total.to_bytes(k + 1, "little") if total < 1 << (8 * size) and n >= VAR_EDGES[k] else None


def read_varint(b, p):
    if p >= len(b):
        return None
    f = b[p]
    k = (f & -f).bit_length() - 1 if f else 8
    if p + 1 + k > len(b):
        return None
    if k == 8:
        return (VAR_EDGES[8] + int.from_bytes(b[p + 1:p + 9], "little")) % 2 ** 64, p + 9
    return (int.from_bytes(b[p:p + k + 1], "little") >> (k + 1)) + VAR_EDGES[k], p + 1 + k


def parse_fields(b):
    """[(index, mode, payload)] of a well-formed message; stops where it is not."""
    out, p = [], 0
    while p < len(b):
        r = read_varint(b, p)
        if not r:
            break
        tag, p = r
        mode = tag & 3
        if mode == 0:
            size = 0
        elif mode == 1:
            size = 8
        elif mode == 2:
            if p >= len(b):
                break
            f = b[p]
            size = ((f & -f).bit_length() if f else 9)
        else:
            r = read_varint(b, p)
            if not r:
                break
            size, p = r
        out.append((tag >> 2, mode, bytes(b[p:p + size])))
        p += size
    return out


def field(index, payload, mode=None, claim=None):
    n = len(payload) if claim is None else claim
    if mode is None:
        mode = 0 if n == 0 else 1 if n == 8 else 3
    h = varint((index << 2 | mode) % 2 ** 64)
    return h + (varint(n) if mode == 3 else b"") + payload


def render(fields):
    return b"".join(field(i, p, m) for i, m, p in fields)


class Mutator:
    def __init__(self, rng, env, wild=0.15):
        self.rng, self.env, self.wild = rng, env, wild

    def size_claim(self, n):
        rng = self.rng
        r = rng.random()
        if r < 0.5:
            return max(0, n + rng.choice([-2, -1, 1, 2, 3]))
        if r < 0.75:
            return n + rng.randrange(1, 40)
        return rng.choice([127, 128, 1000, 2 ** 16, 2 ** 24, 2 ** 26, 2 ** 31 - 1, 2 ** 31, 2 ** 32, 2 ** 53, 2 ** 63, 2 ** 64 - 1])

    def unknown_index(self, known):
        rng = self.rng
        while True:
            i = rng.choice([0, 1, 2, 5, 30, 31, 32, 33, 4127, 4128, 528415, 528416, 2 ** 31, 2 ** 40, 2 ** 62 - 1, rng.randrange(64)])
            if i not in known:
                return i

    def unknown_field(self, known):
        rng = self.rng
        i = self.unknown_index(known)
        mode = rng.randrange(4)
        if mode == 0:
            return field(i, b"", 0)
        if mode == 1:
            return field(i, rng.randbytes(8), 1)
        if mode == 2:
            return varint(i << 2 | 2) + varint(rng.choice([0, 5, 127, 128, 2 ** 20, 2 ** 50, 2 ** 64 - 1]))
        n = rng.choice([0, 1, 2, 7, 8, 9, 127, 128, 200])
        return varint(i << 2 | 3) + varint(n) + rng.randbytes(n)

    def int_payload(self, kind):
        """Another way of writing some integer: (mode, payload)."""
        rng = self.rng
        n = rng.choice([0, 1, 2, 127, 128, 16511, 16512, 2 ** 32, 2 ** 64 - 1, rng.getrandbits(64)])
        r = rng.random()
        if r < 0.2:
            return 0, b""
        if r < 0.45:
            return 1, n.to_bytes(8, "little")
        sz = rng.randrange(1, 10)
        v = long_varint(n, sz) or varint(n)
        if r < 0.7:
            return 2, v
        return 3, v + (rng.randbytes(rng.randrange(3)) if rng.random() < 0.3 else b"")

    def message(self, n, b, depth=0):
        """A mutation of b, a message of declaration n."""
        rng = self.rng
        d = self.env[n - 1]
        known = {int.from_bytes(bytes(f["i"]), "little"): f for f in d["f"]}
        fs = parse_fields(b)
        r = rng.random()
        inner = [k for k, (i, m, p) in enumerate(fs) if i in known and known[i]["t"][0] in ("Ref", "Array")]
        if inner and depth < 6 and r < 0.45:
            k = rng.choice(inner)
            i, m, p = fs[k]
            q = self.payload(known[i]["t"], p, depth + 1)
            parts = [field(*x[:1], x[2], x[1]) for x in fs]
            claim = None
            if rng.random() < 0.12:
                claim = self.size_claim(len(q))
            parts[k] = field(i, q, 3 if claim is not None else None, claim)
            return b"".join(parts)
        if r < 0.45 + 0.55 * self.wild:
            return self.raw(b)
        parts = [field(i, p, m) for i, m, p in fs]
        op = rng.randrange(8)
        if op == 0:  # unknown fields
            for _ in range(rng.randrange(1, 4)):
                parts.insert(rng.randrange(len(parts) + 1), self.unknown_field(known))
        elif op == 1:
            rng.shuffle(parts)
        elif op == 2 and parts:
            parts.insert(rng.randrange(len(parts) + 1), rng.choice(parts))
        elif op == 3 and parts:
            parts.pop(rng.randrange(len(parts)))
        elif op == 4 and fs:
            k = rng.randrange(len(fs))
            i, m, p = fs[k]
            parts[k] = field(i, p, 3)
        elif op == 5 and fs:
            k = rng.randrange(len(fs))
            i, m, p = fs[k]
            parts[k] = field(i, p, 3, self.size_claim(len(p)))
        elif op == 6 and d["f"]:
            f = rng.choice(d["f"])
            i = int.from_bytes(bytes(f["i"]), "little")
            if f["t"][0] in ("Bool", "U64", "S64") or f["t"] == ("Array", ("Unit",)):
                m, p = self.int_payload(f["t"][0])
            else:
                n2 = rng.choice([0, 1, 3, 7, 8, 9, 16])
                p = rng.randbytes(n2) if rng.random() < 0.5 else bytes(rng.choice([b"a", b"\xc3\xa9", b"\xff", b"\xef\xbb\xbf", b"\xed\xa0\x80", b"\xf4\x90\x80\x80", b"\xc0\x80"]) * rng.randrange(1, 4))
                m = None
            new = field(i, p, m) if m is not None else field(i, p)
            if rng.random() < 0.5:
                parts.insert(0, new)
            else:
                ks = [k for k, x in enumerate(fs) if x[0] == i]
                if ks:
                    parts[ks[0]] = new
                else:
                    parts.append(new)
        else:
            out = b"".join(parts)
            return out[:rng.randrange(len(out) + 1)]
        return b"".join(parts)

    def payload(self, t, p, depth):
        rng = self.rng
        if t[0] == "Ref":
            return self.message(t[1], p, depth)
        if t[0] == "Array" and t[1][0] in ("Array", "Bytes", "String", "Ref"):
            parts, q = [], 0
            while q < len(p):
                r = read_varint(p, q)
                if not r:
                    break
                s, q = r
                parts.append(p[q:q + s])
                q += s
            claims = [len(x) for x in parts]
            op = rng.randrange(6)
            if op < 3 and parts:
                k = rng.randrange(len(parts))
                parts[k] = self.payload(t[1], parts[k], depth + 1)
                claims[k] = len(parts[k])
            elif op == 3 and parts:
                k = rng.randrange(len(parts))
                claims[k] = self.size_claim(claims[k])
            elif op == 4:
                k = rng.randrange(len(parts) + 1)
                parts.insert(k, b"")
                claims.insert(k, 0)
            else:
                out = b"".join(varint(c) + x for c, x in zip(claims, parts))
                return out[:rng.randrange(len(out) + 1)]
            return b"".join(varint(c) + x for c, x in zip(claims, parts))
        return self.raw(p)

    def raw(self, b):
        rng = self.rng
        b = bytearray(b)
        op = rng.randrange(5)
        if op == 0 and b:
            return bytes(b[:rng.randrange(len(b))])
        if op == 1 and b:
            b[rng.randrange(len(b))] = rng.choice([0, 1, 2, 3, 7, 127, 128, 255, rng.randrange(256)])
        elif op == 2:
            b.insert(rng.randrange(len(b) + 1), rng.choice([0, 1, 2, 255, rng.randrange(256)]))
        elif op == 3 and b:
            del b[rng.randrange(len(b))]
        elif op == 4:
            return rng.randbytes(rng.choice([0, 1, 2, 3, 5, 9, 12]))
        return bytes(b)
