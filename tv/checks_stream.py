"""C23, C24: readers and writers that deliver and accept bytes in pieces, are interrupted and fail."""
import json, os, random
from collections import Counter
from . import schema, wire
from .catalogue import catalogue
from .checks_wire import deviation_findings, model_cases
from .common import build_typical, pmap, subdir
from .tlc import tlc

FAIL = 999999


def setup(check):
    ty = build_typical()
    cat = catalogue(False)
    rng = check.rng
    projects = [schema.rand_project(rng, n_decls=rng.randrange(8, 18), n_files=2, max_depth=rng.choice([2, 3, 5]))
                for _ in range(check.scale(6, 20))]
    made = wire.make_bundles(check, ty, [cat] + projects, ts=False)
    check.log("built generated code")
    return cat, made


def stream_mc(check, cat, msgs, mode, intr):
    d = subdir("smc")
    with open(os.path.join(d, "env.json"), "w") as f:
        json.dump([cat.env()], f)
    with open(os.path.join(d, "msgs.json"), "w") as f:
        json.dump(msgs, f)
    r = tlc("StreamMC", env={"TV_ENV": os.path.join(d, "env.json"), "TV_MSGS": os.path.join(d, "msgs.json")},
            constants={"MaxIntr": intr, "Mode": f'"{mode}"'})
    cases = [json.loads(c) for c in r.tagged("TVCASE")]
    check.add("states", r.distinct)
    check.add("transitions", r.generated)
    check.log(f"TLC: {r.distinct} states of StreamMC ({mode}), {len(cases)} cases")
    return cases


def status(rep):
    if rep["st"] == "err":
        return {"TimedOut": "fail", "Interrupted": "intr"}.get(rep.get("kind"), "err")
    return rep["st"]


def pick(rng, cases, lo, hi, n):
    """n cases of different declarations with short encodings."""
    by_t = {}
    for t, v, b in cases:
        if lo <= len(b) <= hi:
            by_t.setdefault(t, []).append((t, v, b))
    out = []
    while by_t and len(out) < n:
        for t in list(by_t):
            xs = by_t[t]
            out.append(xs.pop(rng.randrange(len(xs))))
            if not xs:
                del by_t[t]
    rng.shuffle(out)
    return out[:n]


def rand_read_plan(rng, n):
    plan, pos = [], 0
    style = rng.random()
    while pos < n:
        if rng.random() < (0.15 if style < 0.5 else 0.02):
            plan.append(0)
        k = 1 if style < 0.35 else rng.choice([1, 1, 2, 3, 5, 8, 17])
        plan.append(k)
        pos += k
        if rng.random() < 0.5 / (n + 1):
            plan.append(FAIL)
            return plan
    if rng.random() < 0.15:
        plan.append(FAIL)
    return plan


def c23(check):
    cat, made = setup(check)
    rng = check.rng
    cases = model_cases(check, cat)
    # Every way of delivering short messages, some of them with unknown fields.
    msgs = [{"t": t, "b": b} for t, v, b in pick(rng, cases, 1, check.scale(4, 6), check.scale(40, 120))]
    extra = []
    for t, v, b in pick(rng, cases, 1, 3, check.scale(12, 40)):
        extra.append({"t": t, "b": [0b10101001 & 255, 1] + b if rng.random() < 0.3 else [(9 << 3 | 3 << 1 | 1) & 255, 5, 200, 7] + b})
    plans = stream_mc(check, cat, msgs + extra, "read", check.scale(1, 2))
    for b in made:
        if b.proj is not cat:
            continue
        # The same deliveries again through a standard buffered reader.
        reps = wire.call(b, "rust", [wire.line("R", c["t"], c["b"], c["plan"]) for c in plans])
        for c, r in zip(plans, reps):
            st = status(r)
            ok = st == c["st"] and (st != "ok" or r["r"] == c["r"])
            if ok and c["d"]:
                check.add("deviation_INTR")
                if not check.finding("INTR"):
                    check.violate("an interruption of the reader is reported as an error: " + json.dumps(c), {"schema": cat.render(), "case": c})
            if not ok and not (c["d"] and st in ("ok", "err", "fail")):
                check.violate(f"delivery {c['plan']} of {c['b']} to {cat.decl(c['t']).name} gave {json.dumps(r)[:300]}, the specification says {c['st']} {json.dumps(c['r'])[:200]}",
                              {"schema": cat.render(), "case": c, "got": r})
        check.add("traces_validated_against_impl", len(plans))
        check.coverage["exhaustive_deliveries"] = len(plans)
        check.coverage["exhaustive_messages"] = len(msgs) + len(extra)
    seeds = [rng.random() for _ in made]

    def one(k):
        b, r = made[k], random.Random(seeds[k])
        if b.proj is cat:
            chosen = r.sample(cases, check.scale(150, 1500))
            vals, byts = [(t, v) for t, v, _ in chosen], [bytes(x) for _, _, x in chosen]
        else:
            vals = wire.values(r, b.proj, check.scale(4, 12))
            _, byts = wire.encode_records(b, "rust", vals)
        inputs = [(t, x) for (t, _), x in zip(vals, byts) if x is not None and len(x) < 400]
        inputs += wire.mutants(r, b, vals, byts, check.scale(100, 500))
        recs, lines = [], []
        for t, x in inputs:
            for plan in [rand_read_plan(r, len(x)) for _ in range(check.scale(2, 4))]:
                lines.append(wire.line("R", t, list(x), plan))
                recs.append({"op": "rd", "t": t, "b": list(x), "plan": plan})
        for t, x in inputs[::3]:
            lines.append(wire.line("B", t, list(x), r.choice([1, 2, 3, 7, 16])))
            recs.append({"op": "rd", "t": t, "b": list(x), "plan": []})
        for rec, rep in zip(recs, wire.call(b, "rust", lines)):
            rec.update(st=status(rep), r=rep.get("r", []))
        return (b, recs)
    recs = pmap(one, range(len(made)))
    st = Counter(r["st"] for _, rs in recs for r in rs)
    check.log(f"ran: {dict(st)}")
    j = wire.judge(recs, module="StreamTrace")
    check.log(f"TLC judged {j.checked}")
    check.add("states", 2 * j.checked)
    check.add("transitions", j.checked)
    check.add("traces_validated_against_impl", j.checked)
    check.coverage["status"] = dict(st)
    deviation_findings(check, j)
    wire.report(check, j)
    for c in plans[:2]:
        check.sample(c)
    for b, rs in recs[:2]:
        check.sample({k: rs[3][k] for k in ("t", "b", "plan", "st")})
    check.assumptions += ["interruptions are raised between deliveries, not at the end of the stream"]


def rand_write_plan(rng, n):
    plan, total = [], 0
    while total < 3 * n + 2 and len(plan) < 3 * n + 4:
        r = rng.random()
        if r < 0.12:
            plan.append(0)
            continue
        if r < 0.12 + 0.4 / (n + 1):
            plan.append(rng.choice([FAIL, FAIL, FAIL - 1]))
            break
        k = rng.choice([1, 1, 2, 3, 8])
        plan.append(k)
        total += k
    return plan


def c24(check):
    cat, made = setup(check)
    rng = check.rng
    cases = model_cases(check, cat)
    short = pick(rng, cases, 1, check.scale(4, 5), check.scale(25, 60))
    plans = stream_mc(check, cat, [{"t": t, "b": b} for t, v, b in short], "write", 1)
    seeds = [rng.random() for _ in made]

    def one(k):
        b, r = made[k], random.Random(seeds[k])
        lines, recs = [], []
        if b.proj is cat:
            seen = set()
            for c in plans:
                t, v, _ = short[c["m"] - 1]
                plan = [FAIL - 1 if x == 0 and i == len(c["plan"]) - 1 else x for i, x in enumerate(c["plan"])]
                key = (c["m"], tuple(plan))
                if key not in seen:
                    seen.add(key)
                    recs.append({"op": "wr", "t": t, "v": v, "_plan": plan})
            for t, v, x in r.sample(cases, check.scale(300, 3000)):
                recs.append({"op": "wr", "t": t, "v": v, "_plan": rand_write_plan(r, len(x))})
        else:
            for t, v in wire.values(r, b.proj, check.scale(6, 20)):
                for _ in range(check.scale(2, 4)):
                    recs.append({"op": "wr", "t": t, "v": v, "_plan": rand_write_plan(r, r.choice([5, 20, 60]))})
        lines = [wire.line("W", x["t"], x["v"], x["_plan"]) for x in recs]
        for rec, rep in zip(recs, wire.call(b, "rust", lines)):
            rec.update(st=rep["st"], kind=rep.get("kind", ""), ev=rep.get("ev", []))
        return (b, recs)
    recs = pmap(one, range(len(made)))
    st = Counter(r["st"] + " " + r["kind"] for _, rs in recs for r in rs)
    check.log(f"ran: {dict(st)}")
    j = wire.judge(recs, module="StreamTrace")
    check.log(f"TLC judged {j.checked}")
    check.add("states", 2 * j.checked)
    check.add("transitions", j.checked)
    check.add("traces_validated_against_impl", j.checked)
    check.coverage["status"] = dict(st)
    check.coverage["enumerated_plans"] = len(plans)
    wire.report(check, j)
    for b, rs in recs[:3]:
        check.sample({k: rs[3][k] for k in ("t", "v", "_plan", "st", "kind")})
