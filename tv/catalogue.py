"""The catalogue: every type shape under every rule, in structs and choices, with boundary indices."""
from .mutate import parse_fields, render
from .schema import Decl, Field, LEAVES, Project, ValueGen, link


def shapes(deep):
    out = [(k,) for k in LEAVES] + [("Array", (k,)) for k in LEAVES] + [("Array", ("Array", (k,))) for k in LEAVES]
    for r in (1, 2, 3):
        out += [("Ref", r), ("Array", ("Ref", r))]
    nest = lambda t, n: t if n == 0 else ("Array", nest(t, n - 1))
    out += [nest(("Ref", 2), 2)] + [nest((k,), 3) for k in LEAVES] + [nest(("Ref", 3), 3)]
    out += [nest((k,), n) for n in (4, 5) for k in (LEAVES if deep else ("U64", "Bytes", "Unit", "String"))]
    if deep:
        out += [nest(("Ref", r), n) for r in (2, 3) for n in (3, 4)]
    return out


INDEX_SETS = [[0, 1, 2], [31, 30, 29], [33, 32, 31], [4127, 4128, 4129], [2, 64, 40]]


def catalogue(deep=False):
    decls = [Decl(1, "main.t", "Nothing", "struct", []),
             Decl(2, "base/inner.t", "Inner", "struct", [Field("one", "req", 0, ("U64",)), Field("two", "opt", 1, ("String",)),
                                                         Field("three", "asym", 2, ("Bool",))]),
             Decl(3, "base/inner.t", "Pick", "choice", [Field("left", "req", 0, ("S64",)), Field("right", "opt", 1, ("Bytes",)),
                                                        Field("gone", "asym", 2, ("Unit",)), Field("bare", "req", 3, ("Unit",))])]
    for i, t in enumerate(shapes(deep)):
        for kind in ("struct", "choice"):
            idx = INDEX_SETS[(i + (kind == "choice")) % len(INDEX_SETS)]
            fields = [Field("alpha", "req", idx[0], t), Field("beta", "opt", idx[1], t), Field("gamma", "asym", idx[2], t)]
            used = set(idx)
            dele = [k for k in range(max(idx)) if k not in used]
            decls.append(Decl(len(decls) + 1, "main.t", ("Struct" if kind == "struct" else "Choice") + "Shape" + str(i), kind, fields, dele))
    for kind in ("struct", "choice"):
        idx = [528416, 528415, 70000]
        fields = [Field("alpha", "req", idx[0], ("U64",)), Field("beta", "opt", idx[1], ("Array", ("Bool",))), Field("gamma", "asym", idx[2], ("String",))]
        decls.append(Decl(len(decls) + 1, "main.t", "Far" + kind.title(), kind, fields, sorted(set(range(max(idx))) - set(idx))))
    p = Project("main.t", {"main.t": [], "base/inner.t": []}, decls)
    import random
    link(random.Random(0), p, 0)
    return p


def wide(rng, sizes):
    """Structs and choices with many fields, and the values of interest: for a choice every case, for a struct some of all fields."""
    small = [("Unit",), ("Bool",), ("U64",), ("S64",), ("String",), ("Bytes",), ("Array", ("Bool",)), ("Array", ("Unit",)), ("F64",)]
    decls, values = [], []
    for n in sizes:
        for kind in ("struct", "choice"):
            order = list(range(n)) if rng.random() < 0.5 else rng.sample(range(n), n)
            most = rng.choice(["req", "req", "asym", "opt"]) if kind == "struct" else rng.choice(["req", "opt"])
            fields = [Field(f"field_{k}", most if rng.random() < 0.8 else rng.choice(["req", "opt", "asym"]), k, rng.choice(small)) for k in order]
            if kind == "choice":
                fields[rng.randrange(n)].rule = "req"
            decls.append(Decl(len(decls) + 1, "main.t", f"Wide{len(decls)}", kind, fields, []))
    p = Project("main.t", {"main.t": []}, decls)
    link(rng, p, 0)
    vg = ValueGen(rng, p, big=0)
    for d in decls:
        if d.kind == "struct":
            values += [(d.id, [[vg.value(f.type)] for f in d.fields])] + [(d.id, vg.message(d.id)) for _ in range(3)]
        else:
            req = [j for j, f in enumerate(d.fields) if f.rule == "req"]
            for j, f in enumerate(d.fields):
                k = rng.choice(req)
                values.append((d.id, [j + 1, vg.value(f.type)] + ([] if f.rule == "req" else [[k + 1, vg.value(d.fields[k].type)]])))
    return p, values


def without_fields(rng, proj, vals, byts, n):
    """For the messages of wide structs: the same without one field, with one moved to the end, or with one twice."""
    out = []
    for (t, v), b in zip(vals, byts):
        if b is None or proj.decl(t).kind != "struct":
            continue
        fs = parse_fields(b)
        if len(fs) < 60:
            continue
        places = {0, len(fs) - 1} | {k for c in (64, 80, 96, 100, 128, 200, 256) for k in (c - 1, c, c + 1) if k < len(fs)} | {rng.randrange(len(fs)) for _ in range(n)}
        for k in sorted(places):
            rest = fs[:k] + fs[k + 1:]
            out.append((t, render(rng.choice([rest, rest, rest + [fs[k]], fs[:k] + [(100000 + k, 3, b"xy")] + rest[k:], fs + [fs[k]]]))))
            out.append((t, render(rest)))
    return out
