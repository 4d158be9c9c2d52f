"""C01-C05: encoders and decoders of both languages against spec/Wire.tla and spec/Decode.tla."""
import json, os, random
from collections import Counter
from . import schema, wire
from .catalogue import catalogue, wide, without_fields
from .common import build_typical, pmap, subdir
from .tlc import tlc

BY_DESIGN = {"LAST", "UNITLEN"}


def WIDE(check):
    return check.scale([90, 135, 265], [70, 90, 110, 130, 140, 200, 257, 300, 520])


def model_cases(check, proj):
    """Model-checks WireMC on a project; returns its cases [(type, value, bytes)]."""
    ep = os.path.join(subdir("mc"), "env.json")
    with open(ep, "w") as f:
        json.dump([proj.env()], f)
    r = tlc("WireMC", env={"TV_ENV": ep}, constants={"Rich": "TRUE"})
    cases = [json.loads(c) for c in r.tagged("TVCASE")]
    cases.sort(key=lambda c: (c["t"], json.dumps(c["v"])))
    check.add("states", r.distinct)
    check.add("transitions", len(cases))
    check.log(f"TLC: {r.distinct} states of WireMC, {len(cases)} cases")
    return [(c["t"], c["v"], c["b"]) for c in cases]


def deviation_findings(check, j):
    """Deviations shown by conforming records must be listed for this property."""
    for name, recs in j.dev.items():
        flags = [f for f in name[len("ok"):].split("+") if f and f not in BY_DESIGN]
        for f in flags:
            if not check.finding(f, ""):
                b, r = recs[0]
                check.violate(f"the reader deviates from the binary format ({f}), which is not listed: "
                              + json.dumps({k: r[k] for k in ("i", "t", "b", "p", "e", "st", "r")})[:600],
                              {"schema": b.proj.render(), "record": r})
            check.add("deviation_" + f, len(recs))


def unit_array_fields(env, n, v):
    """How many [Unit] fields written are neither 0 nor 8 bytes long (they show UNITARRAYMODE)."""
    c = 0

    def val(t, x):
        nonlocal c
        if t[0] == "Ref":
            msg(t[1], x)
        elif t[0] == "Array" and t[1][0] != "Unit":
            for y in x:
                val(t[1], y)

    def fld(f, x):
        nonlocal c
        if f["t"] == ("Array", ("Unit",)):
            k = int.from_bytes(bytes(x), "little")
            c += 0 < k < 567382630219904
        val(f["t"], x)

    def msg(m, x):
        d = env[m - 1]
        if d["k"] == "struct":
            for f, y in zip(d["f"], x):
                if y:
                    fld(f, y[0])
        else:
            f = d["f"][x[0] - 1]
            fld(f, x[1])
            if f["r"] != "req":
                msg(m, x[2])
    msg(n, v)
    return c


def encoders(check, impl):
    ty = build_typical()
    cat = catalogue(check.thorough)
    rng = check.rng
    n_proj = check.scale(8, 40)
    projects = [schema.rand_project(rng, n_decls=rng.randrange(10, 26), n_files=rng.randrange(1, 5),
                                    max_depth=rng.choice([2, 4, 6])) for _ in range(n_proj)]
    many, many_values = wide(rng, WIDE(check))
    made = wire.make_bundles(check, ty, [cat, many] + projects, rust=impl == "rust", ts=impl == "ts")
    check.log("built generated code")
    cases = model_cases(check, cat)
    for b in made:
        if b.proj is not cat:
            continue
        reps = wire.call(b, impl, [wire.line("E", t, v) for t, v, _ in cases])
        for (t, v, byt), r in zip(cases, reps):
            if r.get("b") != byt or r.get("n") != len(byt):
                d = cat.decl(t)
                check.violate(f"{d.kind} {d.name}: serializing {json.dumps(v)[:300]} gave {json.dumps(r)[:300]}, the format says {byt[:80]}",
                              {"schema": cat.render(), "type": t, "value": v, "got": r, "expected": byt})
        check.add("traces_validated_against_impl", len(cases))
        if any(unit_array_fields(b.env, t, v) for t, v, _ in cases) and not check.finding("UNITARRAYMODE"):
            check.violate("[Unit] fields are announced with size mode 3, the README says 2", {})
    rest = [b for b in made if b.proj is not cat]
    seeds = [rng.random() for _ in rest]

    def one(k):
        r = random.Random(seeds[k])
        b = rest[k]
        vals = many_values if b.proj is many else wire.values(r, b.proj, check.scale(14, 60))
        return (b, wire.encode_records(b, impl, vals)[0])
    recs = pmap(one, range(len(rest)))
    j = wire.judge(recs)
    check.add("states", 2 * j.checked)
    check.add("transitions", j.checked)
    check.add("traces_validated_against_impl", j.checked)
    check.log(f"TLC judged {j.checked} encodings of random schemas")
    wire.report(check, j)
    for t, v, b in cases[3000:3003]:
        check.sample({"type": cat.decl(t).name, "value": v, "bytes": b})
    check.coverage["random_schemas"] = len(rest)
    check.coverage["random_encodings"] = j.checked
    check.coverage["catalogue_cases"] = len(cases)
    check.coverage["types_in_catalogue"] = len(cat.decls)
    check.assumptions += ["TLC evaluates the specification correctly", "the harness passes values faithfully (it is checked by C03)"]


def c01(check):
    encoders(check, "rust")


def c02(check):
    encoders(check, "ts")


def c03(check):
    ty = build_typical()
    cat = catalogue(check.thorough)
    rng = check.rng
    projects = [schema.rand_project(rng, n_decls=rng.randrange(10, 24), n_files=rng.randrange(1, 5),
                                    max_depth=rng.choice([2, 4, 6])) for _ in range(check.scale(7, 30))]
    many, many_values = wide(rng, WIDE(check))
    made = wire.make_bundles(check, ty, [cat, many] + projects)
    check.log("built generated code")
    cases = model_cases(check, cat)
    seeds = [rng.random() for _ in made]

    def one(k):
        b, r = made[k], random.Random(seeds[k])
        if b.proj is cat:
            vals = [(t, v) for t, v, _ in cases]
            if not check.thorough:
                vals = vals[r.randrange(3)::3]
        elif b.proj is many:
            vals = many_values
        else:
            vals = wire.values(r, b.proj, check.scale(10, 40), bom=True)
        recs = []
        for t_v, rep in zip(vals, wire.call(b, "rust", [wire.line("C", t, v) for t, v in vals])):
            recs.append({"op": "conv", "i": "rust", "t": t_v[0], "v": t_v[1], "r": rep.get("r", []), "st": rep.get("st", "ok")})
        for src in ("rust", "ts"):
            _, byts = wire.encode_records(b, src, vals)
            for dst in ("rust", "ts"):
                ok = [(t, v, x) for (t, v), x in zip(vals, byts)]
                lines = [wire.line("D", t, list(x or b"")) if dst == "rust" else
                         wire.line("D", t, list(x or b""), 0, len(x or b""), r.randrange(3)) for t, v, x in ok]
                for (t, v, x), rep in zip(ok, wire.call(b, dst, lines)):
                    recs.append({"op": "rt", "t": t, "v": v, "i": dst, "st": "fail" if x is None else rep["st"], "r": rep.get("r", []),
                                 "_from": src, "msg": rep.get("msg", "")})
        return (b, recs)
    recs = pmap(one, range(len(made)))
    check.log("ran")
    j = wire.judge(recs)
    check.add("states", 2 * j.checked)
    check.add("transitions", j.checked)
    check.add("traces_validated_against_impl", j.checked)
    check.coverage["by_direction"] = dict(Counter(r.get("_from", "convert") + ">" + r["i"] for _, rs in recs for r in rs))
    # Losing a leading byte order mark in TypeScript is a listed finding; the record must agree otherwise.
    deviation_findings(check, j)
    wire.report(check, j)
    for b, rs in recs[:3]:
        check.sample({k: rs[len(rs) // 2][k] for k in ("op", "t", "v", "r")})
    check.assumptions += ["values of F64 are compared bit by bit except NaNs, which are written canonically and compared as NaN in TypeScript"]


def decoders(check, impl):
    ty = build_typical()
    cat = catalogue(False)
    rng = check.rng
    projects = [schema.rand_project(rng, n_decls=rng.randrange(8, 20), n_files=rng.randrange(1, 4),
                                    max_depth=rng.choice([2, 3, 5])) for _ in range(check.scale(7, 30))]
    from .checks_cost import decode_mc, deep_chain, micro, short_messages
    small = micro(rng)
    many, many_values = wide(rng, WIDE(check))
    made = wire.make_bundles(check, ty, [cat, small, many] + projects)
    check.log("built generated code")
    for b in made:
        if b.proj is small:
            short_messages(check, b, impl, decode_mc(check, small, check.scale(3, 4)))
            deep_chain(check, b, impl, 300000)
            check.log("short messages replayed")
    made = [b for b in made if b.proj is not small]
    seeds = [rng.random() for _ in made]
    cases = model_cases(check, cat)

    def one(k):
        b, r = made[k], random.Random(seeds[k])
        if b.proj is cat:
            vals = [(t, v) for t, v, _ in cases]
            byts = [bytes(x) for _, _, x in cases]
            pick = r.sample(range(len(vals)), check.scale(900, 4000))
            inputs = [(vals[i][0], byts[i]) for i in pick[:300]]
            # Every prefix of some messages of every declaration.
            by_t = {}
            for (t, _), x in zip(vals, byts):
                if 2 <= len(x) <= check.scale(24, 60):
                    by_t.setdefault(t, []).append(x)
            for t, xs in sorted(by_t.items()):
                x = r.choice(xs)
                inputs += [(t, x[:c]) for c in range(len(x))]
            vals, byts = [vals[i] for i in pick], [byts[i] for i in pick]
            inputs += wire.mutants(r, b, vals, byts, check.scale(1200, 8000))
        else:
            vals = many_values if b.proj is many else wire.values(r, b.proj, check.scale(6, 10), bom=True)
            _, byts = wire.encode_records(b, "rust", vals)
            if b.proj is many:
                inputs = [(t, x) for (t, _), x in zip(vals, byts) if x is not None] + without_fields(r, many, vals, byts, check.scale(10, 60))
                return (b, wire.decode_records(r, b, impl, inputs))
            inputs = [(t, x) for (t, _), x in zip(vals, byts) if x is not None][::4]
            inputs += wire.mutants(r, b, vals, byts, check.scale(750, 4000))
        for t in range(1, len(b.proj.decls) + 1):
            inputs.append((t, b""))
        return (b, wire.decode_records(r, b, impl, inputs))
    recs = pmap(one, range(len(made)))
    st = Counter(r["st"] for _, rs in recs for r in rs)
    check.log(f"ran: {dict(st)}")
    j = wire.judge(recs)
    check.log(f"TLC judged {j.checked}")
    check.add("states", 2 * j.checked)
    check.add("transitions", j.checked)
    check.add("traces_validated_against_impl", j.checked)
    check.coverage["status"] = dict(st)
    deviation_findings(check, j)
    wire.report(check, j)
    for b, rs in recs[:3]:
        x = rs[-40]
        check.sample({k: x[k] for k in ("t", "b", "p", "e", "st", "r")})
    check.assumptions += ["status 'hang' is 150 ms of processor time without a result, 'huge' a single allocation of 64 MB or more",
                          "a result that follows the README where the listed deviations do not apply is accepted as well"]


def c04(check):
    decoders(check, "rust")


def c05(check):
    decoders(check, "ts")
