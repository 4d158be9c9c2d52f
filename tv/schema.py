"""Abstract schema projects: generation, rendering to .t files, the environment given to TLA+."""
import os, posixpath, random

SCALARS = ["Bool", "U64", "S64", "F64"]
LEAVES = ["Unit", "Bool", "U64", "S64", "F64", "Bytes", "String"]


class Field:
    def __init__(self, name, rule, index, type):
        self.name, self.rule, self.index, self.type = name, rule, index, type


class Decl:
    def __init__(self, id, file, name, kind, fields, deleted=()):
        self.id, self.file, self.name, self.kind, self.fields, self.deleted = id, file, name, kind, fields, list(deleted)


class Project:
    """decls[i].id == i + 1; files maps a path to its list of (relative import path, name or None)."""

    def __init__(self, main, files, decls):
        self.main, self.files, self.decls = main, files, decls
        self.order = {}  # file -> order of declaration ids, if not by id

    def decl(self, id):
        return self.decls[id - 1]

    def env(self):
        return [{"k": d.kind, "f": [{"r": f.rule, "i": le8(f.index), "t": f.type} for f in d.fields]} for d in self.decls]

    def import_name(self, file, target):
        for rel, alias in self.files[file]:
            if posixpath.normpath(posixpath.join(posixpath.dirname(file), rel)) == target:
                return alias or posixpath.basename(rel)[:-2]
        raise KeyError((file, target))

    def type_text(self, file, t):
        if t[0] == "Array":
            return "[" + self.type_text(file, t[1]) + "]"
        if t[0] == "Ref":
            d = self.decl(t[1])
            if d.file == file:
                return esc(d.name)
            return esc(self.import_name(file, d.file)) + "." + esc(d.name)
        return t[0]

    def render_decl(self, d):
        out = [f"{d.kind} {esc(d.name)} {{"]
        for f in d.fields:
            rule = {"req": "", "opt": "optional ", "asym": "asymmetric "}[f.rule]
            ty = "" if f.type == ("Unit",) and getattr(f, "implicit", True) else ": " + self.type_text(d.file, f.type)
            out.append(f"    {rule}{esc(f.name)}{ty} = {f.index}")
        if d.deleted:
            out.append("    deleted " + " ".join(map(str, d.deleted)))
        return "\n".join(out + ["}"])

    def render(self):
        out = {}
        for file, imports in self.files.items():
            parts = []
            for rel, alias in imports:
                parts.append(f"import '{rel}'" + (f" as {esc(alias)}" if alias else ""))
            ds = [d for d in self.decls if d.file == file]
            if file in self.order:
                ds = [self.decl(i) for i in self.order[file]]
            out[file] = "\n".join(parts) + "\n\n" + "\n\n".join(self.render_decl(d) for d in ds) + "\n"
        return out

    def write(self, directory):
        for file, text in self.render().items():
            p = os.path.join(directory, file)
            os.makedirs(os.path.dirname(p), exist_ok=True)
            with open(p, "w") as fh:
                fh.write(text)
        return os.path.join(directory, self.main)


SCHEMA_KEYWORDS = {"as", "asymmetric", "Bool", "Bytes", "choice", "deleted", "F64", "import", "optional", "S64", "String",
                   "struct", "U64", "Unit"}


def esc(name):
    return "$" + name if name in SCHEMA_KEYWORDS else name


def le8(n):
    return list((n & (2 ** 64 - 1)).to_bytes(8, "little"))


# --------------------------------------------------------------------------------------------------------------------
# Casing, as documented by the generated code's conventions (written independently of src/identifier.rs).

def words(name):
    out, cur = [], ""
    for c in name:
        if c in "_-":
            if cur:
                out.append(cur)
            cur = ""
        elif c.isupper():
            if cur:
                out.append(cur)
            cur = c
        else:
            cur += c
    if cur:
        out.append(cur)
    return out


def _case(c, changed):
    return changed if all(d.isalpha() or d.isnumeric() for d in changed) else c


def lower(w):
    return "".join(_case(c, c.lower()) for c in w)


def capital(w):
    w = lower(w)
    return _case(w[0], w[0].upper()) + w[1:]


def snake(name):
    return "_".join(map(lower, words(name)))


def pascal(name):
    return "".join(map(capital, words(name)))


def camel(name):
    p = words(name)
    return lower(p[0]) + "".join(map(capital, p[1:])) if p else ""


def namespace(file):
    return file[:-2].split("/")


# --------------------------------------------------------------------------------------------------------------------
# Random projects

NOUNS = ("alpha bravo cargo delta echo forest garden harbor island jungle kernel ladder meadow needle orbit pepper "
         "quartz river signal timber umbrella velvet window xylem yellow zephyr anchor basin canyon dune ember fjord").split()


# Names that mean something to a language, or to the generated code.
AWKWARD = ("abstract any arguments array array_buffer as assert async atlas auto await become big_int boolean box break buf buffer case catch choice "
           "class clone const constructor continue copy crate data_view debugger declare default delete deleted deserialize do drop dyn else "
           "enum err error eval export exports extends extern fallback false field final finally fn for from function get global has_own_property "
           "if implements import impl in index infer infinity instanceof interface is iterator keyof len length let loop macro map match matches "
           "math mod module move mut name namespace never new none null number object of offset ok option optional out override package panic "
           "partial payload private promise protected prototype pub public reader record ref require required result return satisfies self serialize "
           "set size some static str string struct super switch symbol tag test text_encoder then this throw to_string trait true try type "
           "typeof undefined union unique unknown unsafe unsized use using value value_of var vec void where while with write writer "
           "yield zig_zag").split()


def fresh(rng, used, style="snake", awkward=0.2):
    while True:
        n = rng.choice(NOUNS)
        r = rng.random()
        if rng.random() < awkward:
            n, r = rng.choice(AWKWARD), 1
        if r < 0.6:
            n += "_" + rng.choice(NOUNS)
        if r < 0.15:
            n += "_" + rng.choice(NOUNS)
        if r < 1 and rng.random() < 0.25:
            n += str(rng.randrange(2, 100))
        if style == "pascal":
            n = pascal(n)
        k = snake(n)
        # Names must differ in every casing.
        if k not in used and pascal(n).lower() not in used:
            used.add(k)
            used.add(pascal(n).lower())
            return n


def rand_type(rng, refs, depth=0, max_depth=4, p_array=0.35, leaves=LEAVES):
    if depth < max_depth and rng.random() < p_array:
        return ("Array", rand_type(rng, refs, depth + 1, max_depth, p_array + 0.08, leaves))
    if refs and rng.random() < 0.3:
        return ("Ref", rng.choice(refs))
    return (rng.choice(leaves),)


def rand_indices(rng, n, mode):
    """n distinct indices and the deleted indices that fill the gaps."""
    if mode == "dense":
        idx = list(range(n))
        deleted = []
    else:
        hi = {"small": n + rng.randrange(0, 6), "edge": max(n + 1, rng.choice([30, 31, 32, 33, 34, 63, 64, 65])),
              "big": rng.choice([127, 128, 1000, 4127, 4128, 4129, 4140])}[mode]
        hi = max(hi, n)
        pool = list(range(hi))
        idx = rng.sample(pool, n)
        # Boundary indices are the interesting ones.
        if n and mode in ("edge", "big"):
            if hi - 1 not in idx:
                idx[rng.randrange(n)] = hi - 1
        idx = list(dict.fromkeys(idx))
        while len(idx) < n:
            c = rng.choice(pool)
            if c not in idx:
                idx.append(c)
        deleted = sorted(set(pool) - set(idx))
    rng.shuffle(idx)
    return idx, deleted


def rand_project(rng, n_decls=24, n_files=3, max_fields=7, leaves=LEAVES, p_choice=0.45, deep_dirs=True,
                 modes=("dense", "dense", "small", "edge", "big"), max_depth=4, first="big"):
    dirs = [""] + ([d for d in ("pkg", "pkg/sub", "pkg/sub/leaf", "other", "other/sub")] if deep_dirs else [])
    files, used_ns = {}, set()
    main = "main.t"
    files[main] = []
    used_ns.add(("main",))
    while len(files) < n_files:
        p = posixpath.join(rng.choice(dirs), fresh(rng, set()) + ".t")
        if p not in files:
            files[p] = []
    paths = list(files)
    decls = []
    per_file_used = {p: set() for p in paths}
    # A type named like one of the namespaces is a listed finding of C11; keep such names out elsewhere.
    comps = {snake(c) for p in paths for c in namespace(p)}
    for p in paths:
        per_file_used[p] |= comps | {pascal(c).lower() for c in comps}
    for i in range(1, n_decls + 1):
        file = rng.choice(paths)
        kind = "choice" if rng.random() < p_choice else "struct"
        r = rng.random()
        n = 0 if r < 0.03 and kind == "struct" else rng.randrange(1, max_fields + 1) if r < 0.9 else rng.randrange(max_fields, 3 * max_fields) if r < 0.975 else rng.randrange(40, rng.choice([140, 140, 300]))
        idx, deleted = rand_indices(rng, n, rng.choice(modes) if i > 2 or first is None else first)
        used = set()
        refs = [d.id for d in decls if size_ok(d)]
        fields = []
        for j in range(n):
            rule = rng.choice(["req", "req", "opt", "asym"])
            fields.append(Field(fresh(rng, used), rule, idx[j], rand_type(rng, [] if n > 30 else refs, max_depth=1 if n > 30 else max_depth, leaves=leaves)))
        if kind == "choice" and not any(f.rule == "req" for f in fields):
            rng.choice(fields).rule = "req"
        decls.append(Decl(i, file, fresh(rng, per_file_used[file], "pascal"), kind, fields, deleted))
    proj = Project(main, files, decls)
    link(rng, proj)
    for p in paths:
        ids = [d.id for d in decls if d.file == p]
        rng.shuffle(ids)
        proj.order[p] = ids
    return proj


POOL = ["alpha", "beta", "alpha_beta", "gamma"]


def confusing_project(rng, pool=None, n_files=None, extra_leaf=LEAVES):
    """Few names, used for directories, files, imports, types and fields alike. No two types have the same indices, so
    that what a reference denotes shows in the bytes."""
    pool = pool or rng.sample(POOL, rng.choice([2, 3]))
    main = rng.choice(pool) + ".t"
    files = {main: []}
    n_files = n_files or rng.randrange(2, 6)
    seen = {tuple(pascal(c) for c in namespace(main))}
    while len(files) < n_files:
        f = "/".join(rng.choice(pool) for _ in range(rng.choice([1, 2, 2, 2, 3, 3, 4]))) + ".t"
        key = tuple(pascal(c) for c in namespace(f))
        if key not in seen:
            seen.add(key)
            files[f] = []
    paths = list(files)
    decls = []
    for n in range(rng.randrange(max(3, n_files), 12)):
        file = paths[n] if n < len(paths) else rng.choice(paths)
        have = {pascal(d.name) for d in decls if d.file == file}
        free = [x for x in pool if pascal(x) not in have]
        if not free:
            continue
        id = len(decls) + 1
        kind = rng.choice(["struct", "struct", "choice"])
        names = rng.sample(pool, rng.randrange(1, len(pool) + 1))
        refs = [d.id for d in decls]
        fields = []
        for j, x in enumerate(names):
            if refs and (j == 0 or rng.random() < 0.8):
                # Prefer types that have namesakes.
                t = ("Ref", rng.choice(refs))
                for _ in range(rng.choice([0, 0, 1, 2])):
                    t = ("Array", t)
            else:
                t = (rng.choice(extra_leaf),)
            fields.append(Field(x, "req" if j == 0 else rng.choice(["req", "opt", "asym"]), 4 * id + j, t))
        used = {f.index for f in fields}
        decls.append(Decl(id, file, pascal(rng.choice(free)), kind, fields, sorted(set(range(max(used))) - used)))
    proj = Project(main, files, decls)
    link(rng, proj, 0.5, pool + [x + "_" + y for x in pool for y in pool])
    for p in paths:
        ids = [d.id for d in decls if d.file == p]
        rng.shuffle(ids)
        proj.order[p] = ids
    return proj


def size_ok(d):
    return True


def link(rng, proj, alias_prob=0.5, names=None):
    """Adds the imports the references need, and makes every file reachable from the main one."""
    need = {p: set() for p in proj.files}
    for d in proj.decls:
        for f in d.fields:
            for r in type_refs(f.type):
                if proj.decl(r).file != d.file:
                    need[d.file].add(proj.decl(r).file)
    for p in proj.files:
        if p != proj.main:
            need[proj.main].add(p)
    for p, targets in need.items():
        used = set()
        targets = sorted(targets)
        rng.shuffle(targets)
        for t in targets:
            rel = posixpath.relpath(t, posixpath.dirname(p) or ".")
            stem = posixpath.basename(t)[:-2]
            if rng.random() < alias_prob or snake(stem) in used or stem in SCHEMA_KEYWORDS:
                if names:
                    alias = rng.choice([x for x in names if snake(x) not in used and pascal(x) not in {pascal(u) for u in used}])
                    used.add(snake(alias))
                else:
                    alias = fresh(rng, used)
            else:
                alias = None
                used.add(snake(stem))
            proj.files[p].append((rel, alias))


def type_refs(t):
    if t[0] == "Ref":
        return [t[1]]
    if t[0] == "Array":
        return type_refs(t[1])
    return []


def leaf_of(t):
    while t[0] == "Array":
        t = t[1]
    return t


# --------------------------------------------------------------------------------------------------------------------
# Values (shapes as in spec/Wire.tla)

VAR_EDGES = [0, 128, 16512, 2113664, 270549120, 34630287488, 4432676798592, 567382630219904, 72624976668147840, 2 ** 64]


def rand_u64(rng):
    r = rng.random()
    if r < 0.25:
        return rng.randrange(0, 130)
    if r < 0.6:
        e = rng.choice(VAR_EDGES)
        return min(max(e + rng.randrange(-2, 3), 0), 2 ** 64 - 1)
    if r < 0.75:
        return min(max((1 << rng.randrange(0, 65)) + rng.randrange(-2, 2), 0), 2 ** 64 - 1)
    return rng.getrandbits(rng.randrange(1, 65))


def zigzag_inverse(u):
    return (u >> 1) ^ -(u & 1)


F64_SPECIAL = [0, 1 << 63, 1, 0x7ff0000000000000, 0xfff0000000000000, 0x3ff0000000000000, 0x7fefffffffffffff,
               0x7ff8000000000000, 0x0010000000000000, 0x400921fb54442d18]


def rand_f64(rng, canonical_nan=True):
    b = rng.choice(F64_SPECIAL) if rng.random() < 0.6 else rng.getrandbits(64)
    if canonical_nan and (b >> 52) & 0x7ff == 0x7ff and b & ((1 << 52) - 1):
        b = 0x7ff8000000000000
    return b


TEXTS = ["", "a", "hello", "h\u00e9llo w\u00f6rld", "\u0000", "\u65e5\u672c\u8a9e", "\U0001f600", "\ud7ff\ue000", "\uffff\U0010ffff",
         "e\u0301", "x\ufeff", "1234567", "12345678", "\u0080\u07ff\u0800", "\r\n\t"]


def rand_len(rng, big=0.0):
    r = rng.random()
    if r < big:
        return rng.choice([126, 127, 128, 129, 130, 255, 256, 257, 300])
    return rng.choice([0, 0, 0, 1, 1, 1, 2, 3, 4, 7, 8, 9, rng.randrange(0, 14)])


def rand_text(rng, big=0.0):
    if rng.random() < 0.5:
        return rng.choice(TEXTS)
    return "".join(rng.choice("abcdefgh\u00e9\u65e5\U0001f600 ") for _ in range(rand_len(rng, big)))


class ValueGen:
    def __init__(self, rng, proj, big=0.01, canonical_nan=True, bom=False, chain=3):
        self.rng, self.proj, self.big, self.nan, self.bom, self.chain = rng, proj, big, canonical_nan, bom, chain
        self.budget = 0

    def message(self, id, budget=40):
        self.budget = budget
        return self._message(id)

    def _message(self, id, chain=0):
        d, rng = self.proj.decl(id), self.rng
        if d.kind == "struct":
            sparse = 0.35 if len(d.fields) < 30 else 0.9
            return [[] if f.rule == "opt" and rng.random() < sparse else [self.value(f.type)] for f in d.fields]
        req = [j for j, f in enumerate(d.fields) if f.rule == "req"]
        j = rng.choice(req) if chain > self.chain and req else rng.randrange(len(d.fields))
        if not req and chain > self.chain:
            raise ValueError("no finite value")
        f = d.fields[j]
        v = [j + 1, self.value(f.type)]
        if f.rule != "req":
            v.append(self._message(id, chain + 1))
        return v

    def value(self, t):
        rng = self.rng
        k = t[0]
        self.budget -= 1
        if k == "Unit":
            return []
        if k == "Bool":
            return [rng.randrange(2)]
        if k == "U64":
            return le8(rand_u64(rng))
        if k == "S64":
            return le8(zigzag_inverse(rand_u64(rng)))
        if k == "F64":
            return le8(rand_f64(rng, self.nan))
        if k == "Bytes":
            return [rng.randrange(256) for _ in range(rand_len(rng, self.big))]
        if k == "String":
            s = rand_text(rng, self.big)
            if self.bom and rng.random() < 0.1:
                s = "\ufeff" + s
            return list(s.encode("utf8", "surrogatepass"))
        if k == "Ref":
            return self._message(t[1])
        inner = t[1]
        if inner[0] == "Unit":
            return le8(rng.choice([0, 1, 2, 127, 128, 129, 300, 16511, 16512]) if rng.random() < 0.8 else rng.randrange(70000))
        n = 0 if self.budget < 0 else rand_len(rng, self.big if inner[0] in SCALARS else 0)
        if inner[0] not in SCALARS and inner[0] not in ("Bytes", "String"):
            n = min(n, 3)
        return [self.value(inner) for _ in range(n)]


def merges(p):
    """Whether a type and a directory of the same namespace share a name, and the file in it declares that name again
    (the listed finding TSMERGE)."""
    ns = {tuple(pascal(c) for c in namespace(f)): f for f in p.files}
    for d in p.decls:
        k = tuple(pascal(c) for c in namespace(d.file)) + (pascal(d.name),)
        if k in ns and any(pascal(e.name) == pascal(d.name) for e in p.decls if e.file == ns[k]):
            return True
    return False
