"""C25, and the exhaustive short messages shared with C04 and C05."""
import json, os, random
from collections import Counter
from . import schema, wire
from .common import build_typical, pmap, subdir
from .evolve import Maker
from .mutate import field, varint
from .rustglue import requests
from .schema import Project
from .tlc import tlc

ALPHABET = [0, 1, 2, 3, 4, 5, 7, 9, 11, 13, 15, 17, 23, 0x61, 255]


def micro(rng):
    """Small types for exhaustive short messages."""
    m = Maker(rng)
    inner = m.add("struct", [(0, "opt", ("Bool",)), (1, "asym", ("U64",))])
    pick = m.add("choice", [(0, "req", ("Unit",)), (1, "opt", ("Unit",)), (2, "asym", ("String",))])
    m.add("struct", [])
    m.add("struct", [(0, "req", ("Unit",)), (1, "opt", ("Bytes",))])
    m.add("struct", [(0, "opt", ("Array", ("Bool",))), (1, "opt", ("S64",)), (2, "asym", ("F64",))])
    m.add("struct", [(0, "opt", ("Array", ("String",))), (1, "opt", ("Array", ("Array", ("U64",))))])
    m.add("struct", [(0, "asym", ("Array", ("Ref", inner))), (1, "req", ("Ref", inner))])
    m.add("struct", [(0, "opt", ("Array", ("Ref", pick))), (1, "opt", ("Ref", pick)), (2, "opt", ("Array", ("Unit",)))])
    m.add("choice", [(0, "req", ("Ref", inner)), (1, "opt", ("Bytes",))])
    m.add("choice", [(0, "asym", ("Array", ("Bytes",))), (1, "req", ("Array", ("S64",)))])
    p = Project("main.t", {"main.t": []}, m.decls)
    p.order["main.t"] = [d.id for d in m.decls]
    return p


def like(want, got):
    """Equality up to replaced text."""
    if want == [-1]:
        return True
    if isinstance(want, list) and isinstance(got, list):
        return len(want) == len(got) and all(map(like, want, got))
    return want == got


def decode_mc(check, proj, length):
    d = subdir("dmc")
    with open(os.path.join(d, "env.json"), "w") as f:
        json.dump(proj.env(), f)
    with open(os.path.join(d, "alphabet.json"), "w") as f:
        json.dump(ALPHABET, f)
    r = tlc("DecodeMC", env={"TV_ENV": os.path.join(d, "env.json"), "TV_ALPHABET": os.path.join(d, "alphabet.json")}, constants={"MaxLen": length, "Emit": "TRUE"})
    cases = [json.loads(c) for c in r.tagged("TVCASE")]
    cases.sort(key=lambda c: (c["t"], c["b"]))
    check.add("states", r.distinct)
    check.add("transitions", r.generated)
    check.log(f"TLC: {r.distinct} states of DecodeMC, {len(cases)} cases: {dict(Counter(c['doc'][0] for c in cases))}")
    return cases


def short_messages(check, bundle, impl, cases):
    """Replays the cases of DecodeMC. HANG costs time: few of those are replayed."""
    hang = [c for c in cases if c["rust"][0] == "hang"] if impl == "rust" else []
    skip = {id(c) for c in hang} - {id(c) for c in check.rng.sample(hang, min(len(hang), 40))}
    todo = [c for c in cases if id(c) not in skip]
    parts = [todo[k::8] for k in range(8)]
    ln = (lambda c: wire.line("D", c["t"], c["b"])) if impl == "rust" else (lambda c: wire.line("D", c["t"], c["b"], 0, len(c["b"]), 3))
    bad = 0
    shown = Counter()
    for part, reps in zip(parts, pmap(lambda p: wire.call(bundle, impl, [ln(c) for c in p]), parts)):
        for c, r in zip(part, reps):
            c["reply_" + impl] = r
            got = [r["st"], r.get("r", []) if r["st"] == "ok" else []]
            base = c["doc"] if impl == "rust" else c["last"]
            if like(c[impl], got):
                shown["deviating"] += c[impl] != base
                continue
            if got == base:
                continue
            bad += 1
            if bad <= 4:
                d = bundle.proj.decl(c["t"])
                check.violate(f"{d.kind} {d.name}: {impl} read {c['b']} as {json.dumps(got)[:300]}, prescribed is {json.dumps(c[impl])[:300]}",
                              {"schema": bundle.proj.render(), "type": d.name, "bytes": c["b"], "reply": r, "expected": c[impl]})
    check.add("traces_validated_against_impl", len(todo))
    check.coverage["short_messages"] = len(todo)
    check.coverage["short_messages_deviating"] = shown["deviating"]
    return todo


# ---------------------------------------------------------------------------------------------------------------- cost

def families(rng):
    """(name, project, [(type, prefix-maker, body, suffix, n)]): messages that grow by repeating a part."""
    m = Maker(rng)
    inner = m.add("struct", [(0, "opt", ("Bool",)), (1, "asym", ("U64",))])
    pick = m.add("choice", [(0, "req", ("Unit",)), (1, "opt", ("Unit",)), (2, "asym", ("String",))])
    leaf = [("U64",), ("S64",), ("Bool",), ("F64",), ("String",), ("Bytes",), ("Array", ("U64",)), ("Array", ("String",)), ("Ref", inner), ("Ref", pick),
            ("Array", ("Ref", inner)), ("Array", ("Array", ("Ref", pick))), ("Array", ("Unit",)), ("Array", ("F64",))]
    wide = m.add("struct", [(k, "opt", ("Array", t)) for k, t in enumerate(leaf)] + [(20, "opt", ("Bytes",)), (21, "opt", ("String",)), (22, "opt", ("Ref", inner))])
    holder = m.add("struct", [(0, "opt", ("Ref", wide)), (1, "opt", ("Array", ("Ref", wide)))])
    deep = ("Bool",)
    for _ in range(12):
        deep = ("Array", deep)
    deeper = m.add("struct", [(0, "asym", deep)])
    p = Project("main.t", {"main.t": []}, m.decls)
    p.order["main.t"] = [d.id for d in m.decls]

    elements = {0: [varint(0), varint(5), varint(300), varint(2 ** 64 - 1)], 1: [varint(3)], 2: [varint(1), varint(7)], 3: [bytes(8)],
                4: [varint(0), varint(3) + b"abc", varint(40) + b"x" * 40], 5: [varint(0), varint(3) + b"abc", varint(999) + b"x" * 999],
                6: [varint(0), varint(2) + varint(1) * 2], 7: [varint(0), varint(4) + varint(1) + b"a" + varint(1) + b"b"], 8: [varint(0), varint(1) + field(0, b"", 0)],
                9: [varint(1) + field(0, b"", 0), varint(2) + field(1, b"", 0) + field(0, b"", 0)], 10: [varint(0), varint(1) + varint(0)],
                11: [varint(0), varint(1) + varint(0), varint(3) + varint(2) + varint(0) * 2], 12: [varint(0), varint(1) + varint(5)], 13: [varint(0), varint(8) + bytes(8)]}
    out = []

    def grow(t, head, body, tail=b"", size=True, wrap=(), cap=None):
        out.append((t, head, body, tail, size, wrap, cap))
    for i, bodies in elements.items():
        for body in bodies:
            grow(wide, i, body)
        grow(holder, i, bodies[-1], wrap=(0,))
        grow(holder, i, bodies[0], wrap=(0, 0))
    grow(wide, 20, b"x")
    grow(wide, 21, b"x")
    grow(wide, 21, "é".encode())
    for x in (field(60, b"", 0), field(60, bytes(8), 1), field(60, varint(5), 2), field(60, b"abc", 3), field(60, b"", 3), field(60, bytes(2000), 3),
              field(20, b"abc", 3), field(21, b"", 3), field(0, b"", 3), field(4, varint(0) * 3, 3), field(22, b"", 3), bytes([0]), bytes([253])):
        grow(wide, None, x)
    for x in (field(60, b"", 0), field(60, bytes(8), 1), field(60, varint(5), 2), field(60, b"abc", 3), field(60, bytes(2000), 3)):
        grow(pick, None, x, field(0, b"", 0))
    grow(pick, None, field(1, b"", 0), field(0, b"", 0), cap=4800)
    grow(pick, None, b"\x01" + b"\0", b"")
    grow(deeper, 0, varint(0))
    one = b""
    for _ in range(11):
        one = varint(len(one)) + one
    grow(deeper, 0, one)
    return p, out


def message(t, head, body, tail, wrap, size):
    """(prefix, body, count, suffix) of about the given size."""
    count = max(1, size // len(body))
    n = count * len(body)
    prefix = b""
    if head is not None:
        prefix = varint(head << 2 | 3) + varint(n)
    for w in wrap:
        prefix = varint(w << 2 | 3) + varint(n + len(prefix)) + prefix
    return prefix, body, count, tail


def scaled(check, typical, base, factor):
    """Messages that grow: the work and space they take must grow with them, and no faster."""
    p, fams = families(check.rng)
    made = wire.make_bundles(check, typical, [p])
    if not made:
        return
    b = made[0]
    env = {"TV_HANG_US": "20000000"}
    jobs = []
    for fam in fams:
        t, head, body, tail, _, wrap, cap = fam
        lo = base if cap is None else max(1, cap // factor)
        jobs.append((t, message(t, head, body, tail, wrap, lo), message(t, head, body, tail, wrap, lo * factor)))

    def measure(impl, which, times):
        """Replies for small and big message of each of these families."""
        def part(ks):
            lines = []
            for k in ks:
                t, small, big = jobs[k]
                for pre, body, count, post in (small, big):
                    lines += [wire.line("T", t, list(pre), list(body), count, list(post))] * times
            reps = requests(b.rust, lines, env=env) if impl == "rust" else wire.call(b, impl, lines)
            return {k: (reps[2 * times * i:2 * times * i + times], reps[2 * times * i + times:2 * times * (i + 1)]) for i, k in enumerate(ks)}
        out = {}
        for d in pmap(part, [which[i::6] for i in range(6)]):
            out.update(d)
        return out

    def cpu(s, l):
        us0, us1 = min(x["us"] for x in s), min(x["us"] for x in l)
        return us0, us1, us1 / max(us0, 300) / (l[0]["len"] / s[0]["len"])
    widest = 16 * (2000 + 40)  # generous: every type here is narrower than this
    for impl in ("rust", "ts"):
        res = measure(impl, list(range(len(jobs))), 1)
        # Processor time is noisy: what looks slow is measured again.
        again = [k for k, (s, l) in res.items() if all(x["st"] in ("ok", "err") for x in s + l) and cpu(s, l)[2] > 4]
        res.update(measure(impl, again, 5))
        slow = 0
        for k, (t, small, big) in enumerate(jobs):
            s, l = res[k]
            d = p.decl(t)
            about = {"schema": p.render(), "type": d.name, "prefix": list(big[0]), "body": list(big[1])[:60], "count": big[2], "suffix": list(big[3])}
            if any(x["st"] not in ("ok", "err") for x in s + l):
                check.violate(f"{impl}: a message of {big[2]} times {list(big[1])[:20]} read as {d.kind} {d.name} ended with "
                              f"{[x['st'] for x in s + l]}", about)
                continue
            us0, us1, ratio = cpu(s, l)
            n0, n1 = s[0]["len"], l[0]["len"]
            slow = max(slow, ratio)
            if ratio > 12:
                check.violate(f"{impl}: {n0} bytes took {us0} us and {n1} bytes {us1} us ({big[2]} times {list(big[1])[:20]} read as {d.kind} {d.name})", about)
            if l[0]["calls"] > 6 * n1 + 16:
                check.violate(f"{impl}: {n1} bytes were asked for by {l[0]['calls']} calls ({big[2]} times {list(big[1])[:20]} read as {d.kind} {d.name})", about)
            if impl == "rust" and l[0]["tot"] > widest * (n1 + 1) or (l[0]["tot"] + 4096) > 8 * (n1 / n0) * (s[0]["tot"] + 4096):
                check.violate(f"{impl}: {n0} bytes made it allocate {s[0]['tot']}, {n1} bytes {l[0]['tot']} ({big[2]} times {list(big[1])[:20]} read as {d.kind} {d.name})", about)
        check.add("scaled_messages", len(jobs))
        check.log(f"{impl}: {len(jobs)} families, from {base} to {base * factor} bytes; time grows at most {slow:.2f} times as fast as size")
    check.coverage["scaled_sizes"] = [base, base * factor]
    return b


def deep_chain(check, bundle, impl, n):
    """A chain of n optional cases: exhausting the stack is listed."""
    t = next(d.id for d in bundle.proj.decls if d.kind == "choice" and any(f.rule == "opt" and f.type == ("Unit",) for f in d.fields)
             and any(f.rule == "req" and f.type == ("Unit",) for f in d.fields))
    d = bundle.proj.decl(t)
    opt = next(f.index for f in d.fields if f.rule == "opt" and f.type == ("Unit",))
    req = next(f.index for f in d.fields if f.rule == "req" and f.type == ("Unit",))
    ln = lambda k: wire.line("T", t, [], list(field(opt, b"", 0)), k, list(field(req, b"", 0)))
    env = {"TV_HANG_US": "20000000", "TV_STACK_MB": "8"}
    few, many = [(requests(bundle.rust, [ln(k)], env=env) if impl == "rust" else wire.call(bundle, impl, [ln(k)]))[0] for k in (200, n)]
    if few["st"] != "ok":
        check.violate(f"{impl}: a chain of 200 optional cases gave {few}", {"schema": bundle.proj.render(), "type": d.name})
    if many["st"] != "ok":
        stack = many["st"] == "crash" if impl == "rust" else many.get("msg") == "RangeError"
        if not stack or not check.finding("DEEPFALLBACK"):
            check.violate(f"{impl}: a chain of {n} optional cases gave {many}", {"schema": bundle.proj.render(), "type": d.name, "length": n})
    check.coverage["deep_chain"] = n


def c25(check):
    ty = build_typical()
    rng = check.rng
    small = micro(rng)
    projects = [schema.rand_project(rng, n_decls=rng.randrange(8, 20), n_files=2, max_depth=rng.choice([2, 3, 5])) for _ in range(check.scale(6, 30))]
    made = wire.make_bundles(check, ty, [small] + projects)
    check.log("built generated code")
    cases = decode_mc(check, small, check.scale(3, 4))
    seeds = [rng.random() for _ in made]

    def record(impl, t, b, r):
        return {"op": "cost", "i": impl, "t": t, "b": list(b), "st": r["st"], "tot": r.get("tot", 0), "calls": r.get("calls", 0)}

    def one(k):
        b, r = made[k], random.Random(seeds[k])
        recs = []
        if b.proj is small:
            bad = [c for c in cases if c["rust"][0] == "hang"]
            inputs = [(c["t"], bytes(c["b"])) for c in r.sample([c for c in cases if c["rust"][0] != "hang"], check.scale(6000, 60000)) + r.sample(bad, 40)]
        else:
            vals = wire.values(r, b.proj, check.scale(6, 10))
            _, byts = wire.encode_records(b, "rust", vals)
            inputs = [(t, x) for (t, _), x in zip(vals, byts) if x is not None][::3] + wire.mutants(r, b, vals, byts, check.scale(600, 3000), wild=0.4)
        for impl in ("rust", "ts"):
            lines = [wire.line("D", t, list(x)) if impl == "rust" else wire.line("D", t, list(x), 0, len(x), 3) for t, x in inputs]
            recs += [record(impl, t, x, rep) for (t, x), rep in zip(inputs, wire.call(b, impl, lines))]
        return (b, recs)
    recs = pmap(one, range(len(made)))
    flat = [q for _, rs in recs for q in rs]
    check.log(f"ran: {dict(Counter(q['i'] + ' ' + q['st'] for q in flat))}; at most "
              f"{max(q['calls'] / (len(q['b']) + 1) for q in flat):.2f} calls and {max(q['tot'] / (len(q['b']) + 1) for q in flat if q['st'] in ('ok', 'err')):.0f} bytes per byte")
    j = wire.judge(recs, module="CostTrace")
    check.log(f"TLC judged {j.checked}: " + str({k: len(v) for k, v in j.dev.items()}))
    check.add("states", 2 * j.checked)
    check.add("transitions", j.checked)
    check.add("traces_validated_against_impl", j.checked)
    for name, rs in j.dev.items():
        f = name[3:]
        b, q = rs[0]
        if not check.finding(f):
            check.violate(f"{f}: {json.dumps(q)[:600]}", {"schema": b.proj.render(), "record": q})
        check.add("deviation_" + f, len(rs))
    for b, q, exp in j.bad[:5]:
        check.violate(f"reading {len(q['b'])} bytes as {b.proj.decl(q['t']).name} ({q['i']}) ended with {q['st']}, allocated {q['tot']} bytes in all and asked "
                      f"{q['calls']} times; the bounds are {exp}", {"schema": b.proj.render(), "record": q, "bounds": exp})
    for q in flat[100:103]:
        check.sample(q)
    b = scaled(check, ty, check.scale(1 << 12, 1 << 14), 64)
    if b:
        deep_chain(check, b, "rust", 300000)
    check.assumptions += ["processor time is compared between a message and one 64 times as long; time that grows 12 times faster than the message is reported"]
