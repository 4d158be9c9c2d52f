"""C12-C18: what the tool accepts, loads, lists and reports, against spec/Tool.tla and spec/Grammar.tla."""
import json, os, random
from collections import Counter
from . import texts, worlds
from .common import build_typical, pmap
from .schema import pascal
from .tlc import tlc
from .worlds import World

KEYWORDS = set(texts.KEYWORDS)


def text_of(cs):
    return "".join(map(chr, cs))


def model(check, module, **constants):
    """Model-checks a specification; returns the cases it enumerates."""
    r = tlc(module, constants=constants)
    cases = [json.loads(c) for c in r.tagged("TVCASE")]
    cases.sort(key=lambda c: json.dumps(c, sort_keys=True))
    check.add("states", r.distinct)
    check.add("transitions", r.generated)
    check.log(f"TLC: {r.distinct} states of {module} {constants}, {len(cases)} cases")
    return cases


def run_worlds(check, typical, ws, asks, what, ops=("generate",)):
    recs = pmap(lambda w: worlds.observe(typical, w, asks, ops), ws)
    kinds = worlds.judge(check, recs, what)
    for k, n in kinds.items():
        check.coverage.setdefault("outcomes", Counter())[k] += n
    check.log(f"{what}: {len(recs)} worlds, {dict(kinds)}")
    for w in ws[len(ws) // 2:len(ws) // 2 + 1]:
        check.sample(json.dumps(w.data(), ensure_ascii=False)[:500])
    return recs


def esc(n):
    return "$" + n if n in KEYWORDS else n


# ------------------------------------------------------------------------------------------------- C12: names, indices

def index_world(c, rng):
    kind = rng.choice(["struct", "choice"])
    body = [f"{rng.choice(['', 'optional ', 'asymmetric '])}{'abc'[j]}{rng.choice(['', ': U64', ': [String]'])} = {i}" for j, i in enumerate(c["is"])]
    dele = list(c["del"])
    rng.shuffle(dele)
    if dele:
        body.append("deleted " + " ".join(map(str, dele)))
    return World({"main.t": f"{kind} Foo {{\n" + "\n".join(body) + "\n}\n"}, "main.t")


def name_world(c, rng):
    a, b = esc(text_of(c["a"])), esc(text_of(c["b"]))
    if c["of"] == "fields":
        return World({"main.t": f"{rng.choice(['struct', 'choice'])} Q {{ {a} = 0 {b} = 1 }}\n"}, "main.t")
    if c["of"] == "types":
        return World({"main.t": f"{rng.choice(['struct', 'choice'])} {a} {{}} {rng.choice(['struct', 'choice'])} {b} {{}}\n"}, "main.t")
    return World({"main.t": f"import 'p.t' as {a}\nimport 'q.t' as {b}\n", "p.t": "", "q.t": "struct X {}"}, "main.t")


STYLES = [lambda ws: "_".join(ws), lambda ws: ws[0] + "".join(w.capitalize() for w in ws[1:]), lambda ws: "".join(w.capitalize() for w in ws),
          lambda ws: "_".join(w.capitalize() for w in ws), lambda ws: "__".join(ws)]


def styled(rng, ws):
    return rng.choice(STYLES)(ws)


def big_world(rng):
    """Many fields, types or imports with near-duplicates; many indices with one thing wrong."""
    r = rng.random()
    pool = rng.choice(["ab cd ef gh ij kl mn op qr st", "ab cd \u00e9f g\u00e9 \u044f kl \u03c9n o\u00df \u00dfr st", "a b aa \u00e9 e1 \u65e5 x2 z\u0663", "s \u017f ss \u00df \u0131 i fi \ufb01 \u01c5"]).split()
    word = lambda: rng.choice(pool)
    if r < 0.45:
        n = rng.choice([1, 2, 3, 5, 8, 13, 34, 70])
        idx = list(range(n))
        dele = [idx.pop(rng.randrange(len(idx))) for _ in range(rng.randrange(0, n))]
        rng.shuffle(idx)
        rng.shuffle(dele)
        for _ in range(rng.choice([0, 0, 1, 1, 2])):
            k = rng.randrange(6)
            if k == 0 and idx:
                idx[rng.randrange(len(idx))] = rng.choice([n, n + 1, 0, rng.randrange(n), 4611686018427387903, 4611686018427387904, 18446744073709551615,
                                                           4294967296, 4294967295])
            elif k == 1 and idx:
                idx.pop()
            elif k == 2 and idx:
                dele.append(rng.choice(idx))
            elif k == 3:
                dele.append(n + rng.randrange(2))
            elif k == 4 and dele:
                dele.append(rng.choice(dele))
            elif dele:
                dele.remove(rng.choice(dele))
        body = [f"f{j} = {i}" for j, i in enumerate(idx)] + (["deleted " + " ".join(map(str, dele))] if dele else [])
        extra = rng.choice(["", "struct Other { a = 0 }\n", "choice Other { a = 0 b = 1 deleted 2 }\n"])
        return World({"main.t": extra + f"{rng.choice(['struct', 'choice'])} Foo {{\n" + "\n".join(body) + "\n}\n"}, "main.t")
    n = rng.choice([2, 3, 4, 8, 20])
    seen, names = set(), []
    if rng.random() < 0.4:
        # Names of a few characters of a kind, some of which mean the same.
        some = rng.choice(["aA_", "abAB_1", "a\u00e9A\u00c9_", "a\u044f\u042f_", "s\u00df\u017fS_", "i\u0131\u0130I_", "a\u65e5_A", "\u03c9\u2126\u03a9_a"])
        n = rng.choice([2, 2, 2, 3])
        while len(names) < n:
            x = "".join(rng.choice(some) for _ in range(rng.randrange(1, 7)))
            if x[0] not in "_1":
                names.append(x)
        if rng.random() < 0.5:
            x = names[0]
            for _ in range(rng.randrange(1, 3)):
                k = rng.randrange(len(x))
                x = rng.choice([x[:k] + x[k].swapcase() + x[k + 1:], x[:k + 1] + "_" + x[k + 1:], x[:k] + x[k + 1:] if len(x) > 1 and (k or x[1] not in "_1") else x,
                                x[:k] + "_" + x[k].lower() + x[k + 1:] if k else x])
            names[1] = x
        n = 0
    for _ in range(n):
        for _ in range(20):
            ws = [word() for _ in range(rng.choice([2, 3]))]
            if tuple(ws) not in seen:
                break
        seen.add(tuple(ws))
        names.append(styled(rng, ws))
        if rng.random() < 0.06:
            names.append(styled(rng, ws))
    rng.shuffle(names)
    if r < 0.65:
        body = "\n".join(f"{x} = {i}" for i, x in enumerate(names))
        return World({"main.t": f"{rng.choice(['struct', 'choice'])} Foo {{ {body} }}\n"}, "main.t")
    if r < 0.85:
        # The same names in different files, or as a field and a type, are fine.
        other = rng.sample(names, min(2, len(names)))
        return World({"main.t": "import 'b.t'\n" + "\n".join(f"{rng.choice(['struct', 'choice'])} {x} {{ {rng.choice(names)} = 0 }}" for x in names),
                      "b.t": "\n".join(f"struct {x} {{}}" for x in dict.fromkeys(other))}, "main.t")
    files = {"main.t": "\n".join(f"import 'd/f{i}.t' as {x}" for i, x in enumerate(names))}
    files.update({f"d/f{i}.t": f"struct {names[0]} {{}}" for i in range(len(names))})
    return World(files, "main.t")


def c12(check):
    ty = build_typical()
    rng = check.rng
    ws = [index_world(c, rng) for c in model(check, "RulesMC", Mode='"indices"')]
    ws += [name_world(c, rng) for c in model(check, "RulesMC", Mode='"names"') for _ in range(2)]
    run_worlds(check, ty, ws, ["generate"], "enumerated declarations")
    check.coverage["cases_enumerated"] = len(ws)
    run_worlds(check, ty, [big_world(rng) for _ in range(check.scale(4000, 40000))], ["generate"], "random declarations")
    check.coverage["random_worlds"] = check.scale(4000, 40000)
    check.assumptions += ["names outside the characters classified in spec/Names.tla are not tried"]


# ------------------------------------------------------------------------------------------------------ C13: references

def ref_world(c, rng):
    def decls(k, style):
        return "".join(f"struct {text_of(t) if isinstance(t, list) else t} {{}}\n" for t in sorted(c["has"][k]))
    main = ""
    if c["x"] != "none":
        main += "import 'b.t'" + (f" as {c['x']}" if c["x"] != "b" or rng.random() < 0.3 else "") + "\n"
    if c["y"] != "none":
        main += "import 'c.t'" + (f" as {c['y']}" if c["y"] != "c" or rng.random() < 0.3 else "") + "\n"
    name = (c["q"] + "." if c["q"] else "") + c["n"]
    for _ in range(rng.choice([0, 0, 1, 2])):
        name = "[" + name + "]"
    rule = rng.choice(["", "", "optional ", "asymmetric "])
    main += decls(0, rng) + f"{rng.choice(['struct', 'choice'])} User {{ {rng.choice(['a: U64 = 0 ', 'a: Foo = 0 ' if 'Foo' in c['has'][0] else 'a = 0 '])}{rule}it: {name} = 1 }}\n"
    b = ("import 'c.t'" + (f" as {c['z']}" if c["z"] != "c" else "") + "\n" if c["z"] != "none" else "") + decls(1, rng)
    return World({"main.t": main, "b.t": b, "c.t": decls(2, rng)}, "main.t")


def ref_random(rng):
    """Several files in several directories with the same few names everywhere."""
    pool = ["foo", "bar", "foo_bar", "Foo", "FooBar", "fooBar", "baz"]
    if rng.random() < 0.4:
        # Names that are written as one, and names that look like one.
        pool += ["foo_1", "Foo1", "foo1", "\u2126a", "\u03a9a", "\u03c9a", "a_\u65e5", "A\u65e5"]
    dirs = ["", "d/", "d/e/", "foo/", "foo/bar/"]
    files = {"main.t"}
    while len(files) < rng.randrange(2, 6):
        files.add(rng.choice(dirs) + rng.choice(["foo", "bar", "baz", "foo_bar", "main"]) + ".t")
    files = ["main.t"] + sorted(files - {"main.t"})
    types = {f: list({pascal(x): x for x in rng.sample(pool, rng.randrange(0, 4))}.values()) for f in files}
    out = {}

    def respelled(n):
        return rng.choice([x for x in pool if pascal(x) == pascal(n)]) if rng.random() < 0.5 else n
    for f in files:
        lines, names, of = [], [], {}
        for g in rng.sample(files, rng.randrange(0, len(files) + 1)):
            if g == f and rng.random() < 0.7:
                continue
            rel = os.path.relpath(g, os.path.dirname(f) or ".")
            stem = os.path.basename(g)[:-2]
            if rng.random() < 0.4 or stem.lower().replace("_", "") in {n.lower().replace("_", "") for n in names}:
                free = [x for x in ["foo", "bar", "baz", "qux", "m1", "m2", "m3"] if x not in {n.lower().replace("_", "") for n in names}]
                al = rng.choice(free)
                names.append(al)
                of[al] = g
                lines.append(f"import '{rel}' as {al}")
            else:
                names.append(stem)
                of[stem] = g
                lines.append(f"import '{rel}'")
        for t in types[f]:
            lines.append(f"struct {t} {{}}")
        body = []
        for i in range(rng.choice([0, 1, 1, 2, 3])):
            r = rng.random()
            if r < 0.25 and types[f]:
                n = respelled(rng.choice(types[f]))
            elif r < 0.8 and names:
                n = rng.choice(names)
                n += "." + (respelled(rng.choice(types[of[n]])) if types[of[n]] and rng.random() < 0.6 else rng.choice(pool))
            elif r < 0.9:
                n = rng.choice(pool)
            else:
                n = rng.choice(["main", "foo", "d", "e"]) + "." + rng.choice(pool)
            for _ in range(rng.choice([0, 0, 1, 2, 3])):
                n = "[" + n + "]"
            body.append(f"f{i}: {n} = {i}")
        lines.append(rng.choice(["struct", "choice"]) + " User { " + " ".join(body) + " }")
        out[f] = "\n".join(lines) + "\n"
    return World(out, "main.t")


def c13(check):
    from . import schema, wire
    ty = build_typical()
    rng = check.rng
    cases = model(check, "RulesMC", Mode='"refs"')
    if not check.thorough:
        cases = rng.sample(cases, 5000)
    run_worlds(check, ty, [ref_world(c, rng) for c in cases], ["generate"], "enumerated references")
    check.coverage["cases_replayed"] = len(cases)
    run_worlds(check, ty, [ref_random(rng) for _ in range(check.scale(3500, 30000))], ["generate"], "random references")
    # What generated code takes a reference for shows in the bytes, since no two types have an index in common.
    projects = []
    while len(projects) < check.scale(36, 250):
        p = schema.confusing_project(rng)
        if not schema.merges(p):
            projects.append(p)
    made = wire.make_bundles(check, ty, projects)
    check.log("built generated code")
    seeds = [rng.random() for _ in made]

    def one(k):
        b, r = made[k], random.Random(seeds[k])
        vals = wire.values(r, b.proj, check.scale(4, 10), bom=False)
        recs = []
        for impl in ("rust", "ts"):
            enc, byts = wire.encode_records(b, impl, vals)
            recs += enc + wire.decode_records(r, b, impl, [(t, x) for (t, _), x in zip(vals, byts) if x is not None])
        return (b, recs)
    j = wire.judge(pmap(one, range(len(made))))
    check.log(f"TLC judged {j.checked} messages of schemas with namesakes")
    wire.report(check, j)
    check.add("states", 2 * j.checked)
    check.add("transitions", j.checked)
    check.add("traces_validated_against_impl", j.checked)
    check.coverage["schemas_with_namesakes"] = len(made)
    check.assumptions += ["layouts of the listed finding TSMERGE of C11 are left out where code is generated and run"]


# ----------------------------------------------------------------------------------------------------------- C14: cycles

def graph_world(c, rng):
    """Three types in three files; every file that needs another imports it, and more for cycles of imports. Files and
    types in different files may be namesakes."""
    place = c["place"]
    paths = rng.choice([["main.t", "d/b.t", "c.t"], ["main.t", "d/main.t", "e/main.t"], ["main.t", "d/x.t", "d/d/x.t"]])
    rel = lambda f, g: os.path.relpath(paths[g], os.path.dirname(paths[f]) or ".")
    names = ["Aa", "Bb", "Cc"]
    if rng.random() < 0.5:
        for i in range(3):
            free = [x for x in ("Aa", "Bb", "Cc") if all(names[j] != x for j in range(i) if place[j] == place[i])]
            names[i] = rng.choice(free)
    out, need = {p: [] for p in paths}, [set() for _ in paths]
    for i in range(3):
        f = place[i] - 1
        body = []
        for j, k in enumerate(sorted(c["e"][i])):
            g = place[k - 1] - 1
            if g != f:
                need[f].add(g)
            n = names[k - 1] if g == f else f"x{g}.{names[k - 1]}"
            form = c["form"]
            t = {"plain": n, "array": f"[{n}]", "optional": n, "deep": f"[[[{n}]]]"}[form]
            body.append(("optional " if form == "optional" else rng.choice(["", "asymmetric "])) + f"f{j}: {t} = {j}")
        if rng.random() < 0.4:
            body.append(f"u: [U64] = {len(body)}")
        rng.shuffle(body)
        out[paths[f]].append(f"{rng.choice(['struct', 'choice'])} {names[i]} {{ {' '.join(body)} }}\n")
    used = sorted({p - 1 for p in place})
    for g in used:
        if g:
            need[0].add(g)
        if g and rng.random() < 0.5:
            need[g].add(0)
    files = {}
    for f in sorted(set(used) | {0}):
        rng.shuffle(out[paths[f]])
        files[paths[f]] = "".join(f"import '{rel(f, g)}' as x{g}\n" for g in sorted(need[f])) + "".join(out[paths[f]])
    return World(files, "main.t")


def graph_random(rng):
    """Larger graphs: mostly in order, with at most a few edges back."""
    n = rng.choice([2, 4, 6, 10, 16, 30])
    files = ["main.t"] + rng.sample([d + f + ".t" for d in ("", "d/", "e/", "d/e/", "x/") for f in ("main", "x", "y") if d + f != "main"], rng.randrange(0, 5))
    rel = lambda f, g: os.path.relpath(files[g], os.path.dirname(files[f]) or ".")
    at = [rng.randrange(len(files)) for _ in range(n)]
    names = [f"T{i}" for i in range(n)]
    if rng.random() < 0.6:
        # Few names: types of different files are namesakes.
        for i in range(n):
            names[i] = f"T{sum(1 for j in range(i) if at[j] == at[i])}"
    order = list(range(n))
    rng.shuffle(order)
    edges = {i: set() for i in range(n)}
    for i in range(n):
        for _ in range(rng.choice([0, 1, 1, 2, 3])):
            j = rng.randrange(n)
            a, b = sorted((i, j), key=lambda x: order[x])
            if a != b:
                edges[b].add(a)
    for _ in range(rng.choice([0, 0, 0, 1])):
        edges[rng.randrange(n)].add(rng.randrange(n))
    parts = [[] for f in files]
    need = [set() for f in files]
    for i in range(n):
        body = []
        targets = sorted(edges[i])
        rng.shuffle(targets)
        for x, j in enumerate(targets):
            t = names[j] if at[j] == at[i] else f"f{at[j]}.{names[j]}"
            if at[j] != at[i]:
                need[at[i]].add(at[j])
            for _ in range(rng.choice([0, 0, 0, 1, 2, 4])):
                t = f"[{t}]"
            body.append(f"{rng.choice(['', 'optional ', 'asymmetric '])}a{x}: {t} = {x}")
        parts[at[i]].append(f"{rng.choice(['struct', 'choice'])} {names[i]} {{ {' '.join(body)} }}")
    need[0] |= set(range(1, len(files)))
    out = {}
    for k, f in enumerate(files):
        rng.shuffle(parts[k])
        if rng.random() < 0.5:
            need[k] |= set(rng.sample(range(len(files)), rng.randrange(len(files))))
        imports = [f"import '{rel(k, g)}' as f{g}\n" for g in sorted(need[k] - {k})]
        rng.shuffle(imports)
        out[f] = "".join(imports) + "\n".join(parts[k]) + "\n"
    return World(out, "main.t")


def c14(check):
    ty = build_typical()
    rng = check.rng
    cases = model(check, "RulesMC", Mode='"graphs"')
    run_worlds(check, ty, [graph_world(c, rng) for c in cases], ["generate"], "enumerated graphs")
    check.coverage["cases_replayed"] = len(cases)
    run_worlds(check, ty, [graph_random(rng) for _ in range(check.scale(2500, 25000))], ["generate"], "random graphs")


# ---------------------------------------------------------------------------------------------------------- C15: loading

def load_world(rng):
    """Files, links and imports of all kinds of paths."""
    base = rng.choice(["", "", "base/", "base/in/"])
    dirs = ["", "d/", "d/e/", "x/"]
    names = ["a", "b", "c", "A", "b_1", "b1", "a_b", "aB"]
    n = rng.randrange(1, 7)
    files = {base + "main.t": None}
    for _ in range(n):
        files[base + rng.choice(dirs) + rng.choice(names) + rng.choice([".t", ".t", ".t", ".t", "", ".txt"])] = None
    outside = []
    if base and rng.random() < 0.5:
        outside = [os.path.dirname(base.rstrip("/")) + ("/" if os.path.dirname(base.rstrip("/")) else "") + "out.t"]
        files[outside[0]] = None
    links = {}
    if rng.random() < 0.4:
        for k in range(rng.randrange(1, 3)):
            to = rng.choice(sorted(files) + [base.rstrip("/") + "/d" if base else "d"])
            if to.endswith("/d") or to == "d":
                if not any(f.startswith(to + "/") for f in files):
                    continue
            at = base + rng.choice(["", "d/", "x/"]) + f"l{k}" + rng.choice(["", ".t"])
            if not any(f.startswith(at + "/") for f in files) and to != at:
                links[at] = to
    dirsx = [base + "empty"] if rng.random() < 0.3 else []
    every = sorted(files) + sorted(links)
    weird = rng.random() < 0.35
    for f in sorted(files):
        if rng.random() < 0.03:
            files[f] = b"\xff\xfe struct"
            continue
        lines, used = [], set()
        k = rng.choice([0, 1, 1, 2, 2, 3])
        for i in range(k):
            here = os.path.dirname(f) or "."
            g = rng.choice(every)
            rel = os.path.relpath(g, here)
            if rng.random() < 0.25:
                rel = rng.choice(["./", ".//", "d/../", "../" + (os.path.basename(here) if here != "." else "") + "/", "empty/../"]) + rel
            if weird and rng.random() < 0.3:
                rel = rng.choice([rel + "x", "missing.t", "d", ".", "", "..", "../out.t", rel + "/", rel + "/.", "/etc/missing.t", "d/e", "l0/a.t", "l0/../a.t",
                                  "../" * 3 + "out.t", rel.replace(".t", ""), rel.upper(), rel + " "])
            if "'" in rel or "\n" in rel:
                continue
            lines.append(f"import '{rel}' as i{i}")
        lines.append(f"struct S{rng.randrange(3)} {{}}")
        if rng.random() < 0.04:
            lines.append("struct {")
        files[f] = "\n".join(lines) + "\n"
    return World(files, base + "main.t", links, dirsx)


def chain_world(rng):
    """Long and broad import graphs with overlaps and cycles."""
    n = rng.choice([3, 6, 12, 25])
    paths = ["main.t"] + [rng.choice(["", "p/", "p/q/", "r/"]) + f"f{i}.t" for i in range(1, n)]
    files = {}
    for i, f in enumerate(paths):
        to = set(rng.sample(range(n), min(n, rng.choice([0, 1, 2, 3]))))
        if rng.random() < 0.6 and i + 1 < n:
            to.add(i + 1)
        files[f] = "".join(f"import '{os.path.relpath(paths[j], os.path.dirname(f) or '.')}' as m{j}\n" for j in sorted(to, key=lambda j: rng.random()))
    if rng.random() < 0.2:
        f = rng.choice(paths)
        files[f] += "import 'nowhere.t'\n"
    return World(files, "main.t")


def c15(check):
    ty = build_typical()
    rng = check.rng
    n = check.scale(5000, 50000)
    run_worlds(check, ty, [load_world(rng) for _ in range(n)], ["generate", "format", "list"], "file systems", ("generate", "format"))
    run_worlds(check, ty, [chain_world(rng) for _ in range(n // 5)], ["generate", "list"], "import graphs")
    check.coverage["worlds"] = n + n // 5
    check.assumptions += ["the entry schema is not itself a symbolic link", "the operating system resolves paths as POSIX prescribes"]


# ---------------------------------------------------------------------------------------------------------- C16: grammar

NAMESAKE = ["foo", "Bar", "x1", "$struct", "$Unit", "a_b", "q", "\u00e9t\u00e9", "B2", "zed", "w", "k9", "\u65e5\u672c", "$as", "n7", "mm", "pp", "rr", "ss", "tt"]


def tokens_of(kinds, rng):
    """Tokens of these kinds; names, paths and numbers of a sequence are different."""
    names = rng.sample(NAMESAKE, len(NAMESAKE))
    out = []
    for i, k in enumerate(kinds):
        if k == "comment":
            out.append(("comment", ["# note " + str(i)] + (["# more"] if rng.random() < 0.3 else [])))
        elif k == "name":
            out.append(names[i % len(names)] + ("" if i < len(names) else str(i)))
        elif k == "path":
            out.append(f"'p{i}.t'")
        elif k == "int":
            out.append(str(i))
        elif k in ("Bool", "Unit"):
            out.append(rng.choice(texts.BUILTIN) if rng.random() < 0.7 else k)
        else:
            out.append(k)
    return out


PLAIN_FILES = {f"p{i}.t": "struct foo {}\n" for i in range(24)}


def syntax_world(text):
    return World({"main.t": text, "b.t": "struct Foo {}\n", "sub/c.t": "choice foo_bar { x = 0 }\n"}, "main.t")


def grammar_world(c, rng):
    toks = tokens_of(c["k"] + c["c"], rng)
    text = texts.join(rng, toks, 0.15)
    files = {"main.t": text}
    for i, k in enumerate(c["k"] + c["c"]):
        if k == "path":
            files[f"p{i}.t"] = "struct foo {}\n"
    return World(files, "main.t")


def c16(check):
    ty = build_typical()
    rng = check.rng
    n = check.scale(7, 9)
    cases = model(check, "GrammarMC", MaxLen=n, PrintFrom=0, PrintTo=n)
    if len(cases) > check.scale(6500, 60000):
        cases = rng.sample(cases, check.scale(6500, 60000))
    run_worlds(check, ty, [grammar_world(c, rng) for c in cases], ["format"], "enumerated token sequences", ("format",))
    check.coverage["token_sequences"] = len(cases)
    ws = []
    for _ in range(check.scale(4500, 45000)):
        toks = texts.Gen(rng, ["b.t", "sub/c.t", "./b.t"]).tokens()
        if rng.random() < 0.5:
            toks = texts.mutate_tokens(rng, toks)
        x = texts.join(rng, toks)
        if rng.random() < 0.35:
            x = texts.mutate_text(rng, x)
        ws.append(syntax_world(x))
    run_worlds(check, ty, ws, ["format", "generate"], "random texts", ("format", "generate"))
    check.coverage["random_texts"] = len(ws)
    # Read as written: what is generated from one text equals what is generated from another exactly when the
    # specification reads the same from both; and formatting a text gives back what the specification reads.
    from .checks_files import pairs_of_texts, taken_as_written
    taken_as_written(check, ty, pairs_of_texts(check, check.scale(900, 8000)))
    check.assumptions += ["characters outside ASCII are sampled from those classified in spec/Names.tla"]


# --------------------------------------------------------------------------------------------------------- C18: messages

def c18(check):
    ty = build_typical()
    rng = check.rng
    asks, ops = ["generate", "format", "errors"], ("generate", "format")
    n = check.scale(1, 10)
    ws = []
    for _ in range(2200 * n):
        toks = texts.Gen(rng, ["b.t", "sub/c.t", "./b.t", "missing.t", "sub", "../x.t"], free=True, max_fields=4).tokens()
        if rng.random() < 0.6:
            toks = texts.mutate_tokens(rng, toks)
        x = texts.join(rng, toks)
        if rng.random() < 0.3:
            x = texts.mutate_text(rng, x)
        w = syntax_world(x)
        if rng.random() < 0.3:
            y = texts.join(rng, texts.mutate_tokens(rng, texts.Gen(rng, ["main.t", "sub/c.t"]).tokens()))
            w.files["b.t"] = y
        ws.append(w)
    run_worlds(check, ty, ws, asks, "random texts", ops)
    ws = [big_world(rng) for _ in range(1500 * n)] + [ref_random(rng) for _ in range(1500 * n)]
    ws += [graph_random(rng) for _ in range(700 * n)] + [load_world(rng) for _ in range(1500 * n)]
    ws += [errors_world(rng) for _ in range(1200 * n)]
    run_worlds(check, ty, ws, asks, "random schemas", ops)
    gs = model(check, "RulesMC", Mode='"graphs"')
    gs = rng.sample(gs, check.scale(1200, len(gs)))
    run_worlds(check, ty, [graph_world(c, rng) for c in gs], asks, "enumerated graphs", ops)
    check.coverage["worlds"] = len(ws)
    check.assumptions += ["after a syntax error inside a field, what else is reported for that file is not judged",
                          "where both of two files with the same namespace are imported, either import may be reported"]


def errors_world(rng):
    """Valid multi-line schemas with several independent mistakes in names, indices and references."""
    files = {}
    for f in ("main.t", "b.t"):
        lines = [rng.choice(["", "# A file.\n"])]
        if f == "main.t":
            lines.append(rng.choice(["import 'b.t'", "import\n  'b.t'\n as b", "import 'b.t' as b # x"]))
        for t in range(rng.choice([1, 2, 3])):
            lines.append("")
            for _ in range(rng.choice([0, 0, 1])):
                lines.append("# About the type.")
            nl = rng.choice([" ", "\n", "\n    ", "\n\n"])
            body = []
            n = rng.choice([1, 2, 3, 5])
            for i in range(n):
                c = rng.choice(["", "", "    # c\n    # d\n"])
                name = f"f{i}" if rng.random() < 0.85 else "f0"
                idx = i if rng.random() < 0.85 else rng.choice([0, 1, 17, 4611686018427387903, 4611686018427387904, 99999999999999999999])
                ty = rng.choice(["", ": U64", ": [String]", ": Good", ": [[Good]]", ": Bad", ": [Bad]", ": b.Good", ": [\n b\n .\n Bad]", ": no.Good"])
                if f != "main.t":
                    ty = ty.replace("b.", "no.")
                sp = rng.choice([" ", " ", "\n        "])
                body.append(f"{c}    {rng.choice(['', '', 'optional ', 'asymmetric' + sp])}{name}{ty}{sp}={sp}{idx}")
            if rng.random() < 0.3:
                body.append("    deleted " + " ".join(str(rng.randrange(n + 3)) for _ in range(rng.choice([1, 1, 2]))))
            nm = rng.choice([f"T{t}", f"T{t}", "Good", "T0"])
            lines.append(f"{rng.choice(['struct', 'choice'])}{nl}{nm} {{" + "\n" + "\n".join(body) + "\n}" + rng.choice(["", " # end", "   "]))
        if rng.random() < 0.7:
            lines.append("struct Good {}")
        files[f] = "\n".join(lines) + rng.choice(["", "\n", "\n\n"])
        if rng.random() < 0.15:
            files[f] = files[f].replace("\n", "\r\n")
    return World(files, "main.t")
