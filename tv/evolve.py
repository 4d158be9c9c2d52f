"""Versions of schemas: the universe of small versions, and random histories of safe changes."""
import copy
from .schema import Decl, Field, LEAVES, Project, fresh, link, pascal, rand_type, size_ok, snake, type_refs

RULES = ["none", "opt", "asym", "req"]
STEPS = {frozenset(p) for p in (("none", "opt"), ("none", "asym"), ("opt", "asym"), ("asym", "req"))}


def safe_step(r, s):
    return r == s or frozenset((r, s)) in STEPS


def gaps(fields):
    used = {f.index for f in fields}
    return sorted(set(range(max(used) + 1)) - used) if used else []


class Maker:
    def __init__(self, rng):
        self.rng, self.decls, self.used = rng, [], set()

    def add(self, kind, shape, file="main.t"):
        """shape: [(index, rule, type)]."""
        rng, used = self.rng, set()
        fields = [Field(fresh(rng, used), r, i, t) for i, r, t in shape]
        rng.shuffle(fields)
        self.decls.append(Decl(len(self.decls) + 1, file, fresh(rng, self.used, "pascal"), kind, fields, gaps(fields)))
        return len(self.decls)


def universe(rng, wide=False):
    """Every version of a struct and of a choice with three fields (or four, for the choice); versions of types that hold
    versions of types; conversions between structs and choices. Returns (project, groups)."""
    m, groups = Maker(rng), []

    def all_versions(kind, types):
        out, n = [], len(types)
        for code in range(4 ** n):
            rules = [RULES[code // 4 ** k % 4] for k in range(n)]
            shape = [(k, r, types[k]) for k, r in enumerate(rules) if r != "none"]
            if kind == "choice" and not any(r == "req" for _, r, _ in shape):
                continue
            out.append(m.add(kind, shape))
        return out
    groups.append(all_versions("struct", [("U64",), ("String",), ("Array", ("Bool",))]))
    groups.append(all_versions("choice", [("U64",), ("Unit",), ("String",)] + ([("Bytes",)] if wide else [])))
    inner = [m.add("struct", [(0, r, ("S64",))] if r != "none" else []) for r in RULES]
    pick = [m.add("choice", [(0, "req", ("Unit",))] + ([(1, r, ("Bool",))] if r != "none" else [])) for r in RULES]
    groups += [inner, pick]
    groups.append([m.add("struct", [(0, "req", ("Ref", i)), (1, "opt", ("Array", ("Ref", i))), (2, "asym", ("Array", ("Array", ("Ref", i))))]) for i in inner])
    groups.append([m.add("struct", [(0, "req", ("Array", ("Ref", i))), (1, "asym", ("Ref", i))]) for i in pick])
    groups.append([m.add("choice", [(0, "req", ("Ref", i)), (1, "opt", ("Array", ("Ref", i)))]) for i in pick])
    groups.append([m.add("choice", [(0, "req", ("Array", ("Ref", i))), (1, "asym", ("Ref", i)), (2, "opt", ("Ref", i))]) for i in inner])
    for t in [("Bytes",), ("U64",), ("Unit",), ("F64",), ("Array", ("Unit",)), ("Array", ("U64",)), ("Array", ("String",)), ("Ref", inner[3]), ("Ref", pick[3])]:
        s, c = m.add("struct", [(0, "req", t)]), m.add("choice", [(0, "req", t)])
        groups.append([s, c, m.add("choice", [(0, "req", t), (1, "opt", ("Unit",))]), m.add("struct", [(0, "req", t), (1, "asym", ("U64",))])])
        groups.append([m.add("struct", [(0, "req", ("Ref", s))]), m.add("struct", [(0, "req", ("Ref", c))])])
        groups.append([m.add("struct", [(0, "req", ("Array", ("Ref", s)))]), m.add("struct", [(0, "req", ("Array", ("Ref", c)))])])
    p = Project("main.t", {"main.t": []}, m.decls)
    ids = [d.id for d in m.decls]
    rng.shuffle(ids)
    p.order["main.t"] = ids
    return p, groups


class History:
    """Versions of the same types: type n (from 1) of version k (from 0) is declaration k * size + n of the project."""

    def __init__(self, rng, n_types, n_versions, adjacent=True, stages=None, keep_order=False, choices=False, small=False, wide=0):
        self.keep_order, self.choices, self.small, self.wide = keep_order, choices, small, wide
        self.rng, self.size, self.versions = rng, n_types, n_versions
        self.next_index = {}
        if stages is None:
            stages = self.random_stages(n_types, n_versions, adjacent)
        else:
            self.size, self.versions = len(stages[0]), len(stages)
            self.next_index = {n: 1 + max(f[0] for st in stages for f in st[n - 1][1]) for n in range(1, self.size + 1)}
        self.build(stages)

    def random_stages(self, n_types, n_versions, adjacent):
        rng, first = self.rng, []
        for n in range(1, n_types + 1):
            kind = "choice" if self.choices and rng.random() < 0.8 else rng.choice(["struct", "choice"])
            count = 1 if rng.random() < 0.2 else rng.randrange(1, 4 if self.small else 6)
            if n == 1 and self.wide:
                count = self.wide
            shape = [[i, rng.choice(["req", "req", "opt", "asym"]), rand_type(rng, list(range(1, n)), max_depth=3)] for i in range(count)]
            if len(shape) == 1:
                shape[0][1] = "req"
            if kind == "choice" and not any(f[1] == "req" for f in shape):
                shape[0][1] = "req"
            first.append([kind, shape])
            self.next_index[n] = count
        stages = [first]
        while len(stages) < n_versions:
            if adjacent is None:
                stages.append(first)
                continue
            stages.append([self.change(n + 1, copy.deepcopy(t)) if adjacent else self.jump(n + 1, copy.deepcopy(t)) for n, t in enumerate(stages[-1])])
        return stages

    def build(self, stages):
        rng, n_types = self.rng, self.size
        decls, files = [], {}
        for k, stage in enumerate(stages):
            # Each version has its own files, names and order.
            mine = [f"v{k}/" + "/".join(fresh(rng, set()) for _ in range(rng.randrange(1, 3))) + ".t" for _ in range(rng.choice([1, 1, 2, 3]))]
            used = {p: {snake(c) for c in p[:-2].split("/")} for p in mine}
            for n, (kind, shape) in enumerate(stage, 1):
                p = rng.choice(mine)
                names = set()
                fields = [Field(fresh(rng, names), r, i, self.shift(t, k * n_types)) for i, r, t in shape]
                if not self.keep_order:
                    rng.shuffle(fields)
                idx = {f.index for f in fields}
                top = self.next_index[n] if rng.random() < 0.5 else max(idx, default=-1) + 1
                decls.append(Decl(k * n_types + n, p, fresh(rng, used[p], "pascal"), kind, fields, sorted(set(range(top)) - idx)))
            for p in mine:
                files.setdefault(p, [])
        files["main.t"] = []
        self.proj = Project("main.t", files, decls)
        link(rng, self.proj)
        for p in files:
            ids = [d.id for d in decls if d.file == p]
            rng.shuffle(ids)
            self.proj.order[p] = ids

    def id(self, version, n):
        return version * self.size + n

    @staticmethod
    def shift(t, by):
        if t[0] == "Ref":
            return ("Ref", t[1] + by)
        if t[0] == "Array":
            return ("Array", History.shift(t[1], by))
        return t

    def new_field(self, n):
        i = self.next_index[n]
        self.next_index[n] += 1
        return [i, self.rng.choice(["opt", "asym"]), rand_type(self.rng, list(range(1, n)), max_depth=2)]

    def change(self, n, t):
        """One safe change of a type, or several of different fields."""
        rng = self.rng
        kind, shape = t
        if rng.random() < 0.25:
            return t
        if len(shape) == 1 and shape[0][1] == "req" and rng.random() < 0.5:
            return ["choice" if kind == "struct" else "struct", shape]
        keep = rng.choice([f for f in shape if f[1] == "req"]) if kind == "choice" else None
        for f in list(shape):
            if f is keep or rng.random() < 0.4:
                continue
            new = rng.choice([r for r in RULES if safe_step(f[1], r)])
            if new == "none":
                shape.remove(f)
            else:
                f[1] = new
        while rng.random() < 0.35:
            shape.append(self.new_field(n))
        return [kind, shape]

    def jump(self, n, t):
        """Any change that leaves what is shared comparable."""
        rng = self.rng
        kind, shape = t
        for f in list(shape):
            r = rng.random()
            if r < 0.3:
                shape.remove(f)
            elif r < 0.7:
                f[1] = rng.choice(["opt", "asym", "req"])
        while rng.random() < 0.6 or (kind == "choice" and not any(f[1] == "req" for f in shape)):
            shape.append(self.new_field(n))
            shape[-1][1] = rng.choice(["opt", "asym", "req"])
        return [kind, shape]


def lives(rng):
    """Histories for the exhaustive check of rollouts: a field comes and goes, and one type becomes another."""
    u, t = ("U64",), ("String",)
    path = ["none", "opt", "asym", "req", "asym", "none"]
    field = lambda kind, base: [[[kind, [[0, "req", base]] + ([[1, r, t]] if r != "none" else [])]] for r in path]
    migrate = [["struct", [[0, "req", t]]], ["choice", [[0, "req", t]]], ["choice", [[0, "req", t], [1, "asym", u]]], ["choice", [[0, "req", t], [1, "req", u]]],
               ["choice", [[0, "asym", t], [1, "req", u]]], ["choice", [[1, "req", u]]], ["struct", [[1, "req", u]]]]
    nested = [[m, ["struct", [[0, "req", ("Array", ("Ref", 1))]] + ([[1, r, ("Ref", 1)]] if r != "none" else [])]] for m, r in zip(migrate, path)]
    return [History(rng, 0, 0, stages=st) for st in (field("struct", u), field("choice", u), [[m] for m in migrate], nested)]
