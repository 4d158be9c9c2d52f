"""C09: what the compilers accept of client programs, against spec/Api.tla."""
import json, os, random
from collections import Counter
from . import schema, tsglue
from .common import ToolError, build_typical, cli, env_for_rust, pmap, run, subdir
from .evolve import Maker
from .rustglue import ident, path, rust_type
from .schema import Project, camel, namespace, pascal, snake
from .tlc import tlc

TYPES = [("Unit",), ("Bool",), ("U64",), ("S64",), ("F64",), ("Bytes",), ("String",), ("Array", ("Bool",)), ("Array", ("Unit",)), ("Array", ("Array", ("U64",))),
         ("Ref", 1), ("Ref", 2), ("Array", ("Ref", 1)), ("Array", ("Array", ("Ref", 2)))]


def ts_path(proj, d, suffix):
    return ".".join(["G"] + proj.names.type(d, suffix))


def ts_type(proj, t, suffix):
    k = t[0]
    if k == "Array":
        return ts_type(proj, t[1], suffix) + "[]"
    if k == "Ref":
        return ts_path(proj, proj.decl(t[1]), suffix)
    return {"Unit": "null", "Bool": "boolean", "U64": "bigint", "S64": "bigint", "F64": "number", "Bytes": "ArrayBuffer", "String": "string"}[k]


# ---------------------------------------------------------------------------------------------------------- programs

def rust_supply(proj, f, a):
    """The initialiser of a field of an outgoing struct."""
    n, t = ident(snake(f.name)), rust_type(proj, f.type, "Out")
    return {"value": f"{n}: any::<{t}>(), ", "some": f"{n}: Some(any::<{t}>()), ", "none": f"{n}: None, ", "omit": "", "wrong": f"{n}: any::<Alien>(), "}[a]


def rust_right(f):
    return "some" if f.rule == "opt" else "value"


def rust_case(proj, d, f, suffix, payload, fallback):
    """A constructor or pattern of a case."""
    args = ([payload] if f.type[0] != "Unit" else []) + ([fallback] if fallback else [])
    return path(d, suffix) + "::" + ident(pascal(f.name)) + ("(" + ", ".join(args) + ")" if args else "")


def rust_arms(proj, d, suffix, skip=None):
    out = []
    for f in d.fields:
        if f is not skip:
            fb = (f.rule != "req" if suffix == "Out" else f.rule == "opt")
            out.append(rust_case(proj, d, f, suffix, "_", "_" if fb else None) + " => 0, ")
    return "".join(out)


def rust_client(proj, d, f, a):
    """A function body that makes this attempt on field f of d, all else being right."""
    out, inn = path(d, "Out"), path(d, "In")
    if d.kind == "struct":
        rest = "".join(rust_supply(proj, g, rust_right(g)) for g in d.fields if g is not f)
        n, t = ident(snake(f.name)), rust_type(proj, f.type, "In")
        rest_in = "".join(f"{ident(snake(g.name))}: any(), " for g in d.fields if g is not f)
        if a == "plain":
            return f"let x = any::<{inn}>(); let _y: {t} = x.{n};"
        if a == "maybe":
            return f"let x = any::<{inn}>(); let _y: Option<{t}> = x.{n};"
        if a == "incoming":
            v = f"any::<{t}>()" if f.rule == "req" else f"Some(any::<{t}>())"
            return f"let _x = {inn} {{ {rest_in}{n}: {v} }};"
        if a == "leaveout":
            return f"let _x = {inn} {{ {rest_in}}};"
        return f"let _x = {out} {{ {rest}{rust_supply(proj, f, a)}}};"
    t = rust_type(proj, f.type, "Out")
    box = f"Box::new(any::<{out}>())"
    if a == "bare":
        return f"let _x: {out} = {rust_case(proj, d, f, 'Out', f'any::<{t}>()', None)};"
    if a == "fallback":
        return f"let _x: {out} = {rust_case(proj, d, f, 'Out', f'any::<{t}>()', box)};"
    if a == "wrongfallback":
        return f"let _x: {out} = {rust_case(proj, d, f, 'Out', f'any::<{t}>()', 'Box::new(any::<Alien>())')};"
    if a == "wrong":
        return f"let _x: {out} = {path(d, 'Out')}::{ident(pascal(f.name))}(any::<Alien>(){', ' + box if f.rule != 'req' else ''});"
    if a in ("match", "matchfallback"):
        t, fb = rust_type(proj, f.type, "In"), "fb" if a == "matchfallback" else None
        use = (f"let _p: {t} = p; " if f.type[0] != "Unit" else "") + (f"let _f: Box<{inn}> = fb; " if fb else "")
        return f"let _n = match any::<{inn}>() {{ {rust_case(proj, d, f, 'In', 'p', fb)} => {{ {use}0 }} {rust_arms(proj, d, 'In', f)}}};"
    if a == "catchall":
        return f"let _n = match any::<{inn}>() {{ {rust_arms(proj, d, 'In', f)}_ => 1 }};"
    return f"let _n = match any::<{inn if a == 'forget' else out}>() {{ {rust_arms(proj, d, 'In' if a == 'forget' else 'Out', f)}}};"


def ts_key(proj, f):
    return proj.names.field(f)


def ts_supply(proj, f, a):
    n, t = ts_key(proj, f), ts_type(proj, f.type, "Out")
    return {"value": f"{n}: any<{t}>(), ", "undefined": f"{n}: undefined, ", "omit": "", "wrong": f"{n}: any<Alien>(), "}[a]


def ts_client(proj, d, f, a):
    out, inn, n = ts_path(proj, d, "Out"), ts_path(proj, d, "In"), ts_key(proj, f)
    ti = ts_type(proj, f.type, "In")
    if d.kind == "struct":
        rest = "".join(ts_supply(proj, g, "value") for g in d.fields if g is not f)
        rest_in = "".join(f"{ts_key(proj, g)}: any<{ts_type(proj, g.type, 'In')}>(), " for g in d.fields if g is not f)
        if a == "plain":
            return f"const x = any<{inn}>(); const y: {ti} = x.{n}; use(y);"
        if a == "maybe":
            return f"const x = any<{inn}>(); const y: {ti} | undefined = x.{n}; use(y);"
        if a == "leaveout":
            return f"const x: {inn} = {{ {rest_in}}}; use(x);"
        return f"const x: {out} = {{ {rest}{ts_supply(proj, f, a)}}}; use(x);"
    t = ts_type(proj, f.type, "Out")
    if a == "bare":
        return f"const x: {out} = {{ {n}: any<{t}>() }}; use(x);"
    if a == "fallback":
        return f"const x: {out} = {{ {n}: any<{t}>(), $fallback: any<{out}>() }}; use(x);"
    if a == "wrongfallback":
        return f"const x: {out} = {{ {n}: any<{t}>(), $fallback: any<Alien>() }}; use(x);"
    if a == "wrong":
        fb = f", $fallback: any<{out}>()" if f.rule != "req" else ""
        return f"const x: {out} = {{ {n}: any<Alien>(){fb} }}; use(x);"
    arms = "".join(f"case '{ts_key(proj, g)}': return 0; " for g in d.fields if g is not f)
    head = f"const x = any<{inn}>(); switch (x.$field) {{ "
    if a in ("match", "matchfallback"):
        fb = f"const b: {inn} = x.$fallback; use(b); " if a == "matchfallback" else ""
        return head + f"case '{n}': {{ const p: {ti} = x.{n}; use(p); {fb}return 0; }} {arms}default: return G.unreachable(x); }}"
    return head + arms + ("default: return 1; }" if a == "catchall" else "default: return G.unreachable(x); }")


# ---------------------------------------------------------------------------------------------------------- compilers

def rust_verdicts(proj, generated, directory, bodies):
    """Which of these function bodies rustc accepts, in one compilation."""
    src = os.path.join(directory, "client.rs")
    head = [f'#[path = "{generated}"] mod gen;', "pub struct Alien;", "pub fn any<T>() -> T { todo!() }", "fn main() {}", "mod client { use super::{any, Alien};"]
    lines = head + [f"pub fn c{k}() {{ {b} }}" for k, b in enumerate(bodies)] + ["}"]
    with open(src, "w") as f:
        f.write("#![allow(warnings)]" + "\n".join(lines) + "\n")
    r = run(["rustc", "--edition", "2021", "--error-format=json", "--emit=metadata", "-o", os.path.join(directory, "client.rmeta"), src],
            cwd=directory, timeout=300, env=env_for_rust())
    bad = {}
    for l in r.err.splitlines():
        if not l.startswith("{"):
            continue
        m = json.loads(l)
        if m.get("level") != "error" or not m.get("spans"):
            continue
        s = next((s for s in m["spans"] if s["is_primary"]), m["spans"][0])
        k = s["line_start"] - len(head) - 1
        if not s["file_name"].endswith("client.rs") or not 0 <= k < len(bodies):
            return None, m["message"] + " at " + s["file_name"] + ":" + str(s["line_start"])
        bad.setdefault(k, m["message"])
    if (r.rc == 0) != (not bad):
        raise ToolError("rustc: " + r.err[-1000:])
    return bad, None


def ts_program(directory, name, generated, bodies):
    head = [f"import * as G from './{os.path.basename(generated)[:-3]}';", "declare function any<T>(): T;", "declare function use(x: unknown): void;",
            "type Alien = null | undefined | symbol;"]
    p = os.path.join(directory, name)
    with open(p, "w") as f:
        f.write("\n".join(head + [f"export function c{k}(): unknown {{ {b} return 0; }}" if not b.endswith(" }") else f"export function c{k}(): unknown {{ {b} }}" for k, b in enumerate(bodies)]) + "\n")
    return p, len(head)


def ts_verdicts(programs):
    """programs: (file, generated, lines before the first body, number of bodies)."""
    out = []
    for (p, g, skip, n), errs in zip(programs, tsglue.typecheck([[p, g] for p, g, _, _ in programs])):
        bad, other = {}, None
        for e in errs:
            k = e["l"] - skip - 1
            if e["f"] != os.path.basename(p) or not 0 <= k < n:
                other = f"{e['m']} at {e['f']}:{e['l']}"
            else:
                bad.setdefault(k, e["m"])
        out.append((bad, other))
    return out


def generate(typical, proj, directory):
    main = proj.write(os.path.join(directory, "schema"))
    r = cli(typical, ["generate", main, "--rust", os.path.join(directory, "gen.rs"), "--typescript", os.path.join(directory, "gen.ts")], directory)
    if r.rc != 0:
        return "typical rejects a valid schema: " + r.err[-1000:]
    with open(os.path.join(directory, "gen.ts")) as f:
        proj.names = tsglue.Names(f.read())
    return None


# -------------------------------------------------------------------------------------------------------------- check

def enumerated(check, typical):
    r = tlc("ApiMC", constants={"Types": len(TYPES)})
    cases = [json.loads(c) for c in r.tagged("TVCASE")]
    cases.sort(key=lambda c: json.dumps(c, sort_keys=True))
    check.add("states", r.distinct)
    check.add("transitions", len(cases))
    check.log(f"TLC: {r.distinct} states of ApiMC, {len(cases)} programs")
    # One declaration for each kind, rule and type, in two companies.
    m = Maker(check.rng)
    m.add("struct", [(0, "req", ("Bool",))])
    m.add("choice", [(0, "req", ("Unit",)), (1, "opt", ("U64",))])
    at = {}
    for kind in ("struct", "choice"):
        for rule in ("req", "opt", "asym"):
            for k, t in enumerate(TYPES, 1):
                shape = [(0, rule, t), (1, "req", ("String",)), (2, "opt", ("U64",)), (3, "asym", ("Unit",))]
                check.rng.shuffle(shape)
                d = m.decls[m.add(kind, shape) - 1]
                at[kind, rule, k] = d, next(f for f in d.fields if f.index == 0)
    proj = Project("main.t", {"main.t": []}, m.decls)
    proj.order["main.t"] = [d.id for d in m.decls]
    directory = subdir("api")
    err = generate(typical, proj, directory)
    if err:
        check.violate(err, {"schema": proj.render()})
        return
    for lang in ("rust", "ts"):
        mine = [c for c in cases if c["lang"] == lang]
        bodies = [(rust_client if lang == "rust" else ts_client)(proj, *at[c["kind"], c["rule"], c["type"]], c["attempt"]) for c in mine]
        if lang == "rust":
            bad, other = rust_verdicts(proj, os.path.join(directory, "gen.rs"), directory, bodies)
        else:
            p, skip = ts_program(directory, "client.ts", "gen.ts", bodies)
            bad, other = ts_verdicts([(p, os.path.join(directory, "gen.ts"), skip, len(bodies))])[0]
        if other:
            check.violate(f"{lang}: the generated code does not compile: {other}", {"schema": proj.render()})
            continue
        n = 0
        for k, c in enumerate(mine):
            if (k not in bad) != c["accepted"]:
                n += 1
                if n <= 4:
                    check.violate(f"{lang}: a program that makes attempt '{c['attempt']}' on a field of rule {c['rule']} and type {TYPES[c['type'] - 1]} of a {c['kind']} "
                                  f"is {'accepted' if k not in bad else 'rejected (' + bad[k] + ')'}: {bodies[k]}", {"case": c, "program": bodies[k], "schema": proj.render()})
        check.add("traces_validated_against_impl", len(mine))
        check.coverage[lang + "_programs"] = len(mine)
        check.coverage[lang + "_accepted"] = len(mine) - len(bad)
        check.sample({"case": mine[30], "program": bodies[30]})
    check.log("compiled")


def recorded(check, typical):
    """Random types; programs that deal with all fields of a struct, or with a case, at once."""
    rng = check.rng
    projects = [schema.rand_project(rng, n_decls=rng.randrange(6, 16), n_files=rng.randrange(1, 5), max_depth=3) for _ in range(check.scale(20, 100))]
    recs, progs = [], []
    jobs = []
    for k, proj in enumerate(projects):
        directory = subdir(f"apir{k}")
        err = generate(typical, proj, directory)
        if err:
            check.violate(err, {"schema": proj.render()})
            continue
        plans = {"rust": [], "ts": []}
        for d in proj.decls:
            if not d.fields:
                continue
            for lang in ("rust", "ts"):
                for _ in range(check.scale(6, 12)):
                    if d.kind == "struct":
                        right = ["some", "none"] if lang == "rust" else ["value", "undefined"]
                        must = ["value"]
                        as_ = [rng.choice(right if f.rule == "opt" else must) for f in d.fields]
                        if rng.random() < 0.6:
                            i = rng.randrange(len(d.fields))
                            if lang == "ts" and d.fields[i].rule == "opt":
                                as_[i] = rng.choice(["value", "undefined", "wrong"])
                            else:
                                as_[i] = rng.choice(["value", "some", "none", "omit", "wrong"] if lang == "rust" else ["value", "undefined", "omit", "wrong"])
                        sup = rust_supply if lang == "rust" else ts_supply
                        parts = [sup(proj, f, a) for f, a in zip(d.fields, as_)]
                        rng.shuffle(parts)
                        body = (f"let _x = {path(d, 'Out')} {{ {''.join(parts)}}};" if lang == "rust"
                                else f"const x: {ts_path(proj, d, 'Out')} = {{ {''.join(parts)}}}; use(x);")
                        plans[lang].append((d, [f.rule for f in d.fields], as_, body))
                    else:
                        f = rng.choice(d.fields)
                        a = rng.choice(["bare", "fallback", "match", "matchfallback", "forget", "catchall", "wrong"])
                        if lang == "ts" and a == "fallback" and f.rule == "req" or a == "catchall" and len(d.fields) == 1:
                            continue
                        if lang == "rust" and a == "wrong" and f.type[0] == "Unit":
                            continue
                        body = (rust_client if lang == "rust" else ts_client)(proj, d, f, a)
                        plans[lang].append((d, [f.rule], [a], body))
        jobs.append((proj, directory, plans))

    def rust_one(job):
        proj, directory, plans = job
        return rust_verdicts(proj, os.path.join(directory, "gen.rs"), directory, [b for _, _, _, b in plans["rust"]])
    verdicts = {"rust": pmap(rust_one, jobs)}
    check.log("rustc ran")
    ps = []
    for proj, directory, plans in jobs:
        p, skip = ts_program(directory, "client.ts", "gen.ts", [b for _, _, _, b in plans["ts"]])
        ps.append((p, os.path.join(directory, "gen.ts"), skip, len(plans["ts"])))
    verdicts["ts"] = ts_verdicts(ps)
    check.log("tsc ran")
    for lang in ("rust", "ts"):
        for (proj, _, plans), (bad, other) in zip(jobs, verdicts[lang]):
            if other:
                check.violate(f"{lang}: the generated code does not compile: {other}", {"schema": proj.render()})
                continue
            for k, (d, rs, as_, body) in enumerate(plans[lang]):
                recs.append({"lang": lang, "kind": d.kind, "rs": rs, "as": as_, "accepted": k not in bad})
                progs.append((proj, d, body, bad.get(k)))
    tp = os.path.join(subdir("apit"), "trace.ndjson")
    with open(tp, "w") as f:
        for r in recs:
            f.write(json.dumps(r) + "\n")
    r = tlc("ApiTrace", env={"TV_TRACE": tp})
    if r.distinct != 2 * len(recs):
        raise ToolError(f"TLC judged {r.distinct} states for {len(recs)} records")
    bad = [t.split(" ", 1) for t in r.tagged("TVBAD")]
    check.add("states", r.distinct)
    check.add("transitions", len(recs))
    check.add("traces_validated_against_impl", len(recs))
    check.coverage["random_programs"] = dict(Counter((q["lang"] + (" accepted" if q["accepted"] else " rejected")) for q in recs))
    check.log(f"TLC judged {len(recs)} random programs, {len(bad)} bad")
    for i, exp in bad[:5]:
        q, (proj, d, body, why) = recs[int(i) - 1], progs[int(i) - 1]
        check.violate(f"{q['lang']}: {'accepted' if q['accepted'] else 'rejected (' + str(why) + ')'}: {body[:400]} for {d.kind} {d.name} with {list(zip(q['rs'], q['as']))}",
                      {"schema": proj.render(), "program": body, "record": q})


def c09(check):
    ty = build_typical()
    enumerated(check, ty)
    recorded(check, ty)
    check.assumptions += ["rustc and tsc (strict) decide what a program may do"]
