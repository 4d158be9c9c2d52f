"""C10, C11: generated code compiles and its items are where spec/Paths.tla says, whatever the names and the layout."""
import json, os, re
from collections import Counter
from itertools import product
from . import schema, tsglue
from .checks_api import generate, rust_client, rust_right, rust_verdicts, ts_client, ts_path, ts_program, ts_type, ts_verdicts
from .common import ToolError, build_typical, cli, pmap, subdir
from .rustglue import RUST_KEYWORDS, ident, path, rust_type
from .schema import Decl, Field, LEAVES, Project, SCHEMA_KEYWORDS, camel, link, namespace, pascal, snake
from .tlc import tlc
from .worlds import cps

TS_WORDS = ("abstract any as assert asserts async await bigint boolean break case catch class const constructor continue debugger declare "
            "default delete do else enum export extends false finally for from function get global if implements import in infer instanceof "
            "interface intrinsic is keyof let module namespace never new null number object of out override package private protected public "
            "readonly require return satisfies set static string super switch symbol this throw true try type typeof undefined unique unknown "
            "using var void while with yield arguments eval accessor NaN Infinity globalThis exports toString valueOf hasOwnProperty "
            "toLocaleString isPrototypeOf propertyIsEnumerable then prototype length name").split()
GLOBALS = ("Array ArrayBuffer BigInt DataView Error Number Object RangeError TextDecoder TextEncoder Uint8Array String Boolean Symbol "
           "Function Math JSON Map Set Promise Date RegExp Record Readonly Partial Iterator Iterable Deserializable").split()
RUST_NAMES = ("Option Some None Ok Err Result Vec Box String str usize u64 i64 f64 bool u8 Clone Debug Copy Drop Default From Into Iterator Sized "
              "Send Sync Fn Serialize Deserialize PhantomData min transmute io std core alloc mem cmp test derive main gen dyn union macro_rules "
              "auto raw safe try_from ToString ToOwned PartialEq Eq Ord Hash Read Write BufRead ErrorKind Error vec println panic format "
              "matches assert_eq Self self super crate union_ r b br c").split()
SCHEMA_NAMES = sorted(SCHEMA_KEYWORDS) + ["alpha", "Beta_gamma", "x1", "y_2", "size", "atlas", "field", "fallback", "In", "Out", "Atlas", "foo_in", "foo", "FooOut",
                                          "payload_out", "\u00e9lan", "\u044f\u0431\u043b", "\u65e5\u672c", "\u03c9mega", "x\u0663", "\u0130x", "\u01f0a",
                                          "\u00dfa", "\ufb01x", "\u0149a", "a\u2126", "\u01c5x", "\uac00", "\u017fa", "b\u0131d"]


def generated_names(typical):
    """The identifiers that occur in code generated from a sample schema."""
    d = subdir("sample")
    own = "main", "zza", "zzb", "zzc", "Zzd", "Zze"
    text = ("struct Zzd {\n zza: [String] = 0\n optional zzb: [[Bytes]] = 1\n asymmetric zzc: F64 = 2\n}\n\n"
            "choice Zze {\n zza: Zzd = 0\n optional zzb: [U64] = 1\n asymmetric zzc: [S64] = 2\n}\n")
    with open(os.path.join(d, "main.t"), "w") as f:
        f.write(text)
    r = cli(typical, ["generate", "main.t", "--rust", "gen.rs", "--typescript", "gen.ts"], d)
    if r.rc != 0:
        raise ToolError("the sample schema is rejected: " + r.err)
    out = set()
    for g in ("gen.rs", "gen.ts"):
        with open(os.path.join(d, g)) as f:
            code = re.sub(r"//.*", "", f.read())
        out |= {w.strip("_$") for w in re.findall(r"(?<![\w$])[A-Za-z_$][A-Za-z0-9_$]*", code)}
    return sorted(w for w in out if re.fullmatch(r"[A-Za-z][A-Za-z0-9_]*", w) and w.lower()[:3] not in ("zza", "zzb", "zzc", "zzd", "zze", "mai"))


def pools(typical):
    out, seen = [], set()
    for n in list(RUST_KEYWORDS) + RUST_NAMES + TS_WORDS + GLOBALS + SCHEMA_NAMES + generated_names(typical):
        k = pascal(n)
        if k and k not in seen and n[0].isalpha():
            seen.add(k)
            out.append(n)
    return sorted(out)


ROLES = ("file", "directory", "alias", "struct", "choice", "field", "case")


def named_project(rng, names, n_files=None):
    """A project all of whose names are drawn from a list."""
    while True:
        main = rng.choice([names[0], names[0], "main"]) + ".t"
        files = {main: []}
        keys = {tuple(pascal(c) for c in namespace(main))}
        for n in names:
            for _ in range(rng.choice([1, 1, 2])):
                at = rng.choice([0, 1, 1, 2])
                f = "/".join([rng.choice(names) for _ in range(at)] + [n]) + ".t"
                if tuple(pascal(c) for c in namespace(f)) not in keys and (n_files is None or len(files) < n_files):
                    keys.add(tuple(pascal(c) for c in namespace(f)))
                    files[f] = []
        paths, decls = list(files), []
        for file in paths * 2:
            free = [x for x in names if all(pascal(x) != pascal(d.name) for d in decls if d.file == file)]
            if not free:
                continue
            kind = rng.choice(["struct", "choice"])
            fields = []
            chosen = rng.sample(names, rng.randrange(1, min(8, len(names)) + 1))
            for j, x in enumerate(chosen):
                if decls and rng.random() < 0.4:
                    t = ("Ref", rng.choice(decls).id)
                else:
                    t = (rng.choice(LEAVES),)
                for _ in range(rng.choice([0, 0, 0, 1, 2])):
                    t = ("Array", t)
                fields.append(Field(x, "req" if j == 0 else rng.choice(["req", "opt", "asym"]), j, t))
            rng.shuffle(fields)
            decls.append(Decl(len(decls) + 1, file, rng.choice(free), kind, fields))
        proj = Project(main, files, decls)
        if schema.merges(proj):
            continue
        link(rng, proj, 0.4, names + [x + "_" + y for x in names for y in names if rng.random() < 0.2])
        for p in paths:
            ids = [d.id for d in decls if d.file == p]
            rng.shuffle(ids)
            proj.order[p] = ids
        return proj


def deep_spaces(rng, names, depth):
    """Some namespaces on the way to a deep one, and some beside the way."""
    way = [rng.choice(names) for _ in range(depth)]
    spaces = {tuple(way[:k]) for k in range(1, depth + 1) if k in (1, depth) or rng.random() < 0.5}
    while len(spaces) < depth // 2 + 6:
        k = rng.randrange(depth)
        spaces.add(tuple(way[:k]) + tuple(rng.choice(names) for _ in range(rng.randrange(1, 4))))
    return sorted(spaces)


def layout_project(rng, names, depth, types, spaces=None):
    """A file for each namespace up to a depth; each refers to each other."""
    spaces = spaces or [c for n in range(1, depth + 1) for c in product(names, repeat=n)]
    files = {"/".join(c) + ".t": [] for c in spaces}
    main = min(files, key=lambda f: f.count("/"))
    if "/" in main:
        raise ValueError(main)
    decls, leaf = [], {}
    for k, f in enumerate(files):
        decls.append(Decl(len(decls) + 1, f, types[0], rng.choice(["struct", "choice"]), [Field("leaf%d" % k, "req", 0, ("U64",)), Field("b", "req", 1, ("Bool",))]))
        leaf[f] = decls[-1].id
    for f in files:
        targets = list(files)
        rng.shuffle(targets)
        fields = []
        for j, g in enumerate(targets):
            t = ("Ref", leaf[g])
            for _ in range(rng.choice([0, 0, 1])):
                t = ("Array", t)
            fields.append(Field("f%d" % j, "req" if j == 0 else rng.choice(["req", "opt", "asym"]), j, t))
        decls.append(Decl(len(decls) + 1, f, types[1], rng.choice(["struct", "choice"]), fields))
    proj = Project(main, files, decls)
    link(rng, proj, 0.3, ["i%d" % k for k in range(len(files) + 1)])
    return proj


def reachable(main, files, decls, aliases=None):
    p = Project(main, {f: [] for f in files}, [Decl(i + 1, *d) for i, d in enumerate(decls)])
    for f in files:
        if f != main:
            p.files[main].append((f, "i%d" % len(p.files[main])))
    return p


def troubled():
    """Layouts of the listed findings."""
    def s(file, name, *fields):
        return file, name, "struct", [Field(x, "req", k, ("U64",)) for k, x in enumerate(fields or ["x"])]
    out = [reachable("main.t", ["main.t"], [s("main.t", "Foo", "x\u00bd")]), reachable("main.t", ["main.t"], [s("main.t", "Foo", "m\u00b2")])]
    for f in ("foo bar", "1foo", "foo.bar", "a$b", "_", "x\u00bd", "caf\u2019e"):
        out.append(reachable("main.t", ["main.t", f + ".t"], [s("main.t", "Foo"), s(f + ".t", "Foo")]))
        out.append(reachable("main.t", ["main.t", f + "/q.t"], [s("main.t", "Foo"), s(f + "/q.t", "Foo")]))
    # Names that are one after composition.
    for a, b in (("\uf900", "\u8c48"), ("a_\u1100\u1161", "a_\uac00")):
        out.append(reachable("main.t", ["main.t"], [s("main.t", "Foo", a, "y", b)]))
        out.append(reachable("main.t", ["main.t"], [s("main.t", a), s("main.t", b)]))
        out.append(reachable("main.t", ["main.t", a + ".t", b + ".t"], [s("main.t", "Foo"), s(a + ".t", "Foo"), s(b + ".t", "Foo")]))
    array = "main.t", "Foo", "struct", [Field("x", "req", 0, ("Array", ("String",)))]
    out.append(reachable("main.t", ["main.t", "main/std.t"], [array, s("main/std.t", "Foo")]))
    for f in ("io.t", "std.t", "std/q.t", "Io.t"):
        out.append(reachable("main.t", ["main.t", f], [s("main.t", "Foo"), s(f, "Foo")]))
    for f, g in (("foo_1.t", "foo1.t"), ("foo_1/x.t", "foo1/x.t")):
        out.append(reachable("main.t", ["main.t", f, g], [s("main.t", "Foo"), s(f, "Foo"), s(g, "Foo", "y")]))
    out.append(reachable("a.t", ["a.t", "a/b.t"], [s("a.t", "B"), s("a/b.t", "B", "y")]))
    return out


def record(proj):
    files = list(proj.files)
    ts = proj.names
    return {"proj": {"files": [[cps(c) for c in namespace(f)] for f in files],
                     "decls": [{"file": files.index(d.file) + 1, "name": cps(d.name), "kind": d.kind, "fields": [cps(f.name) for f in d.fields]} for d in proj.decls]},
            "ts": {"files": [[cps(ts.of(pascal(c))) for c in namespace(f)] for f in files],
                   "decls": [{"name": cps(ts.of(pascal(d.name))), "inn": cps(ts.of(pascal(d.name) + "In")), "out": cps(ts.of(pascal(d.name) + "Out")),
                              "fields": [cps(ts.field(f)) for f in d.fields]} for d in proj.decls]}}


def strings(x):
    if isinstance(x, list) and x and all(isinstance(c, int) for c in x):
        return "".join(map(chr, x))
    if isinstance(x, list):
        return [strings(y) for y in x]
    if isinstance(x, dict):
        return {k: strings(v) for k, v in x.items()}
    return x


def specified(check, projects):
    """What TLC says of each project."""
    tp = os.path.join(subdir("pathst"), "trace.ndjson")
    with open(tp, "w") as f:
        for p in projects:
            f.write(json.dumps(record(p)) + "\n")
    r = tlc("PathsTrace", env={"TV_TRACE": tp})
    out = [None] * len(projects)
    for t in r.tagged("TVCASE"):
        j = json.loads(t)
        out[j["l"] - 1] = j
    if None in out:
        raise ToolError("TLC did not judge every project")
    check.add("states", r.distinct)
    check.add("transitions", len(projects))
    for p, j in zip(projects, out):
        # The harness writes the paths the specification gives.
        items = strings(j["rust"])
        files = list(p.files)
        if any(not all(snake(c) for c in namespace(f)) for f in files):
            continue
        plain = lambda s: s.replace("r#", "")
        for d, k in zip(p.decls, items["decls"]):
            for suffix, key in (("In", "inn"), ("Out", "out")):
                want = "super::gen::" + "::".join(items["files"][files.index(d.file)]) + "::" + k[key]
                if plain(path(d, suffix)) != want:
                    raise ToolError(f"path {path(d, suffix)}, the specification says {want}")
            for f, n in zip(d.fields, k["fields"]):
                mine = ident(snake(f.name) if d.kind == "struct" else pascal(f.name))
                if plain(mine) != n:
                    raise ToolError(f"field {mine}, the specification says {n}")
    return out


# ------------------------------------------------------------------------------------------------------------ clients

def rust_bodies(rng, proj, per):
    out = []
    for d in proj.decls:
        o, i = path(d, "Out"), path(d, "In")
        out.append(f"use super::gen::{{Serialize as _, Deserialize as _}}; let o = any::<{o}>(); let _n: usize = o.size(); let mut b: Vec<u8> = vec![]; o.serialize(&mut b).unwrap(); "
                   f"let i: {i} = <{i} as super::gen::Deserialize>::deserialize(&b[..]).unwrap(); let c: {i} = o.clone().into(); println!(\"{{:?}} {{:?}} {{:?}}\", i.clone(), c, o);")
        for f in d.fields if len(d.fields) <= per else rng.sample(d.fields, per):
            if d.kind == "struct":
                out.append(rust_client(proj, d, f, rust_right(f)))
                out.append(rust_client(proj, d, f, "plain" if f.rule == "req" else "maybe"))
            else:
                out.append(rust_client(proj, d, f, "bare" if f.rule == "req" else "fallback"))
                out.append(rust_client(proj, d, f, "matchfallback" if f.rule == "opt" else "match"))
    return out


def ts_bodies(rng, proj, per):
    out = []
    for d in proj.decls:
        o, i, p = ts_path(proj, d, "Out"), ts_path(proj, d, "In"), ts_path(proj, d, "")
        out.append(f"const s: (m: {o}) => number = {p}.size; const z: (m: {o}) => ArrayBuffer = {p}.serialize; const d: (b: ArrayBuffer) => {i} | Error = {p}.deserialize; use([s, z, d]);")
        for f in d.fields if len(d.fields) <= per else rng.sample(d.fields, per):
            n, to, ti = proj.names.field(f), ts_type(proj, f.type, "Out"), ts_type(proj, f.type, "In")
            if d.kind == "struct":
                to += " | undefined" if f.rule == "opt" else ""
                ti += " | undefined" if f.rule != "req" else ""
                out.append(f"const a: Same<{o}['{n}'], {to}> = true; const b: Same<{i}['{n}'], {ti}> = true; use([a, b]);")
                out.append(ts_client(proj, d, f, "value"))
            else:
                out.append(f"const a: Same<Extract<{o}, {{ {n}: unknown }}>['{n}'], {to}> = true; const b: Same<Extract<{i}, {{ $field: '{n}'; {n}: unknown }}>['{n}'], {ti}> = true; use([a, b]);")
                out.append(ts_client(proj, d, f, "bare" if f.rule == "req" else "fallback"))
                out.append(ts_client(proj, d, f, "matchfallback" if f.rule == "opt" else "match"))
    return out


SAME = "type Same<A, B> = (<T>() => T extends A ? 1 : 2) extends (<T>() => T extends B ? 1 : 2) ? true : false;"


def compiled(check, lang, projects, specs):
    """Compiles clients of each project; reports."""
    jobs = []
    for k, (proj, spec) in enumerate(zip(projects, specs)):
        if lang == "ts" and not spec["ts"]:
            check.violate("the generated TypeScript does not have the specified names", {"schema": proj.render(), "recorded": record(proj)["ts"]})
        jobs.append((proj, spec, proj.directory, (rust_bodies if lang == "rust" else ts_bodies)(check.rng, proj, check.scale(6, 10))))
    if lang == "rust":
        verdicts = pmap(lambda j: rust_verdicts(j[0], os.path.join(j[2], "gen.rs"), j[2], j[3]), jobs)
    else:
        progs = []
        for proj, _, directory, bodies in jobs:
            p, skip = ts_program(directory, "client.ts", "gen.ts", bodies)
            with open(p) as f:
                text = f.read()
            with open(p, "w") as f:
                f.write(SAME + " " + text)
            progs.append((p, os.path.join(directory, "gen.ts"), skip, len(bodies)))
        verdicts = ts_verdicts(progs)
    n, clean = 0, 0
    for (proj, spec, _, bodies), (bad, other) in zip(jobs, verdicts):
        n += len(bodies)
        if not bad and not other:
            clean += 1
            continue
        why = other if other else f"{bad[min(bad)]} in: {bodies[min(bad)]}"
        mine = [t for t in spec["troubles"][lang]]
        if mine and all(check.finding(t) for t in mine):
            check.add("compilations_explained_by_findings", 1)
            continue
        check.violate(f"{lang}: code generated from an accepted schema does not compile, or not its client: {why[:500]}", {"schema": proj.render(), "error": why})
    check.add("traces_validated_against_impl", n)
    check.coverage[lang + "_modules"] = len(jobs)
    check.coverage[lang + "_modules_clean"] = clean
    check.coverage[lang + "_client_functions"] = n


def paths(check, lang):
    ty, rng = build_typical(), check.rng
    pool = pools(ty)
    projects, roles = [], Counter()
    rounds = check.scale(3, 50)
    for _ in range(rounds):
        names = pool[:]
        rng.shuffle(names)
        # Every name is used in company of others, in every round.
        for k in range(0, len(names), 12):
            company = names[k:k + 12]
            # Modules of these names at the top are a listed finding.
            if any(snake(n) in ("io", "std") for n in company):
                company = ["zzentry"] + company
                p = named_project(rng, company)
                while any(snake(namespace(f)[0]) in ("io", "std") for f in p.files):
                    p = named_project(rng, company)
            else:
                p = named_project(rng, company)
            projects.append(p)
    for names, types in ((("a", "b"), ("Leaf", "Hub")), (("alpha", "Beta_gamma"), ("alpha_leaf", "b")), (("Foo", "self"), ("Foo_leaf", "super"))):
        projects.append(layout_project(rng, names, check.scale(3, 4), types))
    for k in range(check.scale(3, 40)):
        names = [["a", "b"], ["alpha", "Beta_gamma", "x1"], ["Foo", "self", "type"], rng.sample(["red", "green", "blueSky", "Number", "crate", "Error"], 3)][k % 4]
        projects.append(layout_project(rng, names, 0, ("Leaf", "Hub"), deep_spaces(rng, names, rng.randrange(5, 14))))
    for _ in range(check.scale(16, 400)):
        projects.append(schema.confusing_project(rng, rng.sample(pool, 4) if rng.random() < 0.5 else None))
    for _ in range(check.scale(6, 40)):
        projects.append(schema.rand_project(rng, n_decls=rng.randrange(6, 20), n_files=rng.randrange(1, 6), max_depth=rng.choice([2, 5, 9])))
    projects += troubled()

    def gen(k):
        projects[k].directory = subdir(f"paths{k}")
        return generate(ty, projects[k], projects[k].directory)
    kept = []
    for p, err in zip(projects, pmap(gen, range(len(projects)))):
        if err:
            check.violate(err, {"schema": p.render()})
        else:
            kept.append(p)
        for f, imports in p.files.items():
            roles.update([("file", namespace(f)[-1])] + [("directory", c) for c in namespace(f)[:-1]] + [("alias", a) for _, a in imports if a])
        for d in p.decls:
            roles.update([(d.kind, d.name)] + [("field" if d.kind == "struct" else "case", f.name) for f in d.fields])
    check.log(f"generated code from {len(kept)} projects")
    specs = specified(check, kept)
    check.log("TLC judged the paths")
    compiled(check, lang, kept, specs)
    check.log("compiled the clients")
    for role in ROLES:
        check.coverage["names_as_" + role] = sum(1 for n in pool if roles[role, n])
    check.coverage["names"] = len(pool)
    check.sample({"schema": {f: x[:400] for f, x in list(projects[0].render().items())[:3]}})
    check.assumptions += ["rustc (edition 2021) and tsc (strict) decide what compiles", "non-ASCII letters are sampled"]


def c10(check):
    paths(check, "rust")


def c11(check):
    paths(check, "ts")
