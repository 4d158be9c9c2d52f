"""C06, C07, C08: versions of schemas against spec/Evolve.tla and spec/Rollout.tla."""
import json, os, random
from collections import Counter
from . import schema, wire
from .common import ToolError, build_typical, pmap, subdir
from .evolve import History, lives, universe
from .tlc import tlc

IMPLS = ("rust", "ts")


def evolve_mc(check, proj, groups, chain):
    """Model-checks EvolveMC and returns its cases."""
    ep = os.path.join(subdir("emc"), "env.json")
    with open(ep, "w") as f:
        json.dump({"env": proj.env(), "groups": groups}, f)
    r = tlc("EvolveMC", env={"TV_ENV": ep}, constants={"Chain": chain})
    cases = [json.loads(c) for c in r.tagged("TVCASE")]
    cases.sort(key=lambda c: (c["x"], c["y"], json.dumps(c["v"])))
    check.add("states", r.distinct)
    check.add("transitions", r.generated)
    check.log(f"TLC: {r.distinct} states of EvolveMC, {len(cases)} cases, {sum(c['adj'] for c in cases)} of adjacent versions")
    return cases


def replay(check, bundle, cases):
    """Each case through all four pairs of languages."""
    proj = bundle.proj

    def writer(impl):
        return [bytes(r["b"]) if "b" in r else None for r in wire.call(bundle, impl, [wire.line("E", c["x"], c["v"]) for c in cases])]
    sent = dict(zip(IMPLS, pmap(writer, IMPLS)))

    def reader(pair):
        src, dst = pair
        return wire.call(bundle, dst, [wire.line("D", c["y"], list(b or b"")) if dst == "rust" else wire.line("D", c["y"], list(b or b""), 0, len(b or b""), k % 3)
                                       for k, (c, b) in enumerate(zip(cases, sent[src]))])
    pairs = [(a, b) for a in IMPLS for b in IMPLS]
    for (src, dst), reps in zip(pairs, pmap(reader, pairs)):
        bad = 0
        for c, b, r in zip(cases, sent[src], reps):
            got = ["ok", r["r"]] if r["st"] == "ok" else [r["st"]]
            if b is not None and got == c["w"]:
                continue
            bad += 1
            if bad <= 3:
                x, y = proj.decl(c["x"]), proj.decl(c["y"])
                check.violate(f"{json.dumps(c['v'])} of {x.kind} {x.name}, written by {src} and read by {dst} as {y.kind} {y.name}, gave "
                              f"{json.dumps(got)[:300]} where {json.dumps(c['w'])[:300]} is prescribed",
                              {"schema": proj.render(), "from": x.name, "to": y.name, "value": c["v"], "bytes": list(b or b""), "reply": r, "expected": c["w"]})
        check.add("traces_validated_against_impl", len(cases))
        check.coverage.setdefault("by_direction", {})[src + ">" + dst] = len(cases)


# ------------------------------------------------------------------------------------------------------------ rollouts

def plan(rng, history, services, events, guarded, chain=3):
    """A rollout as a list of events; the replies are filled in by running it."""
    vg = schema.ValueGen(rng, history.proj, big=0.003, chain=chain)
    live, net, ev, n = [0] * services, {}, [], 0

    def careful(lv):
        vs = set(lv) | {m[1] for m in net.values()}
        return max(vs) - min(vs) <= 1
    while len(ev) < events:
        r = rng.random()
        if r < 0.25:
            s = rng.randrange(services)
            v = live[s] + rng.choice([1, 1, -1]) if guarded else rng.randrange(history.versions)
            if v == live[s] or not 0 <= v < history.versions:
                continue
            new = live[:s] + [v] + live[s + 1:]
            if guarded and not careful(new):
                continue
            live = new
            ev.append(["up", s + 1, v])
        elif r < 0.6 and len(net) < 6:
            s, t = rng.randrange(services), rng.randrange(1, history.size + 1)
            try:
                v = vg.message(history.id(live[s], t))
            except (ValueError, RecursionError):
                continue
            if any(m[1:4] == (live[s], t, v) for m in net.values()):
                continue
            n += 1
            net[n] = (n, live[s], t, v)
            ev.append(["send", s + 1, t, v, None, n, history.id(live[s], t), rng.choice(IMPLS)])
        elif net:
            # Out of order.
            i = rng.choice(sorted(net))
            _, ver, t, v = net.pop(i)
            s = rng.randrange(services)
            ev.append(["recv", s + 1, i, rng.choice(IMPLS), None, None, history.id(live[s], t)])
    return ev


def run_rollouts(bundle, plans):
    """Runs the events of several plans on the generated programs of one bundle; returns the events as logged."""
    out, made = [], {}
    for impl in IMPLS:
        jobs = [(p, e) for p, ev in enumerate(plans) for e in ev if e[0] == "send" and e[7] == impl]
        for (p, e), r in zip(jobs, wire.call(bundle, impl, [wire.line("E", e[6], e[3]) for _, e in jobs])):
            made[p, e[5]] = r.get("b", [])
            e[4] = r.get("b", [])
    for impl in IMPLS:
        jobs = [(p, e) for p, ev in enumerate(plans) for e in ev if e[0] == "recv" and e[3] == impl]
        lines = [wire.line("D", e[6], made[p, e[2]]) if impl == "rust" else wire.line("D", e[6], made[p, e[2]], 0, len(made[p, e[2]]), 0) for p, e in jobs]
        for (p, e), r in zip(jobs, wire.call(bundle, impl, lines)):
            e[4], e[5] = r["st"], r.get("r", [])
    for ev in plans:
        out.append([e if e[0] == "up" else e[:6] for e in ev])
    return out


def rollouts(check, histories, guarded, per, events, chain=3):
    rng = check.rng
    made = wire.make_bundles(check, build_typical(), [h.proj for h in histories])
    check.log("built generated code")
    by_proj = {id(h.proj): h for h in histories}
    seeds = [rng.random() for _ in made]

    def one(k):
        b, r = made[k], random.Random(seeds[k])
        h = by_proj[id(b.proj)]
        plans = [(s, plan(r, h, s, events, guarded, chain)) for s in [r.randrange(2, 5) for _ in range(per)]]
        return [{"g": k + 1, "size": h.size, "services": s, "guarded": guarded, "ev": ev}
                for (s, _), ev in zip(plans, run_rollouts(b, [p for _, p in plans]))]
    logs = [x for xs in pmap(one, range(len(made))) for x in xs]
    d = subdir("rollout")
    ep, tp = os.path.join(d, "env.json"), os.path.join(d, "trace.ndjson")
    with open(ep, "w") as f:
        json.dump([b.env for b in made], f)
    with open(tp, "w") as f:
        for x in logs:
            f.write(json.dumps(x, separators=(",", ":")) + "\n")
    r = tlc("RolloutTrace", env={"TV_ENV": ep, "TV_TRACE": tp})
    bad = [t.split(" ", 1) for t in r.tagged("TVBAD")]
    done = len(r.tagged("TVKIND"))
    if done + len(bad) != len(logs):
        raise ToolError(f"{done} + {len(bad)} of {len(logs)} logs judged")
    kinds = Counter(e[0] for x in logs for e in x["ev"])
    refused = sum(e[0] == "recv" and e[4] != "ok" for x in logs for e in x["ev"])
    check.log(f"TLC validated {len(logs)} rollouts: {dict(kinds)}, {refused} messages refused, {len(bad)} bad")
    check.add("states", r.distinct)
    check.add("transitions", r.generated)
    check.add("traces_validated_against_impl", len(logs))
    check.coverage["rollout_events"] = dict(kinds)
    check.coverage["messages_refused"] = refused
    n = 0
    for i, what in bad:
        x, what = logs[int(i) - 1], json.loads(what)
        if what[0] == "unsound":
            raise ToolError(f"the driver recorded no rollout: {what} in {json.dumps(x)[:1500]}")
        e, b = x["ev"][what[1] - 1], made[x["g"] - 1]
        sent = next(s for s in x["ev"] if s[0] == "send" and s[5] == e[2])
        n += 1
        if n <= 5:
            check.violate(f"a message of type {sent[2]} sent as {json.dumps(sent[3])[:250]} was read by service {e[1]} ({e[3]}) as "
                          f"{json.dumps(e[4:6])[:300]} where {json.dumps(what[2])[:300]} is prescribed",
                          {"schema": b.proj.render(), "rollout": x["ev"][:what[1]], "expected": what[2]})
    if logs:
        check.sample({"rollout": [e[:3] for e in logs[0]["ev"][:12]]})


def c06(check):
    rng = check.rng
    proj, groups = universe(rng, check.thorough)
    bundle = wire.make_bundles(check, build_typical(), [proj])
    check.log("built generated code")
    cases = [c for c in evolve_mc(check, proj, groups, check.scale(2, 3)) if c["adj"]]
    if bundle:
        replay(check, bundle[0], cases)
    check.log("replayed")
    check.coverage["adjacent_cases"] = len(cases)
    for c in cases[4000:4003]:
        check.sample({k: c[k] for k in ("x", "y", "v", "w")})
    hs = lives(rng)
    ep = os.path.join(subdir("rmc"), "env.json")
    with open(ep, "w") as f:
        json.dump([{"env": h.proj.env(), "size": h.size, "versions": h.versions} for h in hs], f)
    r = tlc("RolloutMC", env={"TV_ENV": ep}, constants={"Guarded": "TRUE", "InFlight": check.scale(1, 2)})
    check.add("states", r.distinct)
    check.add("transitions", r.generated)
    check.log(f"TLC: {r.distinct} states of RolloutMC, every message is readable")
    r = tlc("RolloutMC", env={"TV_ENV": ep}, constants={"Guarded": "FALSE", "InFlight": 1}, ok=(0, 12))
    if r.rc != 12:
        raise ToolError("RolloutMC without its guard has no unreadable message: the model is vacuous")
    check.log("TLC: without the guard a message is unreadable, as it must be")
    histories = [History(rng, rng.randrange(2, 6), rng.randrange(3, 7)) for _ in range(check.scale(8, 48))]
    histories += [History(rng, 1 + k % 2, 2, wide=w) for k, w in enumerate(check.scale([140, 270], [100, 130, 140, 200, 257, 300, 400]))]
    rollouts(check, histories, True, check.scale(30, 60), check.scale(40, 120))
    check.assumptions += ["versions of one schema are put side by side in one set of schemas, each with files, names and order of its own"]


def c07(check):
    rng = check.rng
    proj, groups = universe(rng, check.thorough)
    bundle = wire.make_bundles(check, build_typical(), [proj])
    check.log("built generated code")
    cases = evolve_mc(check, proj, groups, check.scale(2, 3))
    cases = [c for c in cases if proj.decl(c["x"]).kind == "choice" and proj.decl(c["y"]).kind == "choice"]
    if bundle:
        replay(check, bundle[0], cases)
    check.log("replayed")
    check.coverage["choice_cases"] = len(cases)
    check.coverage["choice_cases_refused"] = sum(c["w"][0] != "ok" for c in cases)
    for c in cases[2000:2003]:
        check.sample({k: c[k] for k in ("x", "y", "v", "w")})
    histories = [History(rng, rng.randrange(2, 6), rng.randrange(2, 5), adjacent=False, choices=True) for _ in range(check.scale(8, 48))]
    histories += [History(rng, 1 + k % 2, 2, adjacent=False, choices=True, wide=w) for k, w in enumerate(check.scale([140, 270], [100, 130, 140, 200, 257, 300, 400]))]
    rollouts(check, histories, False, check.scale(20, 50), check.scale(40, 120), chain=check.scale(8, 20))
    check.assumptions += ["chains of up to 9 (quick) or 21 (thorough) cases"]


# ------------------------------------------------------------------------------------------------------------- reorder

def move(proj, x, y, v):
    """The value of declaration y that corresponds to v of x (checked by TLC against Moved)."""
    a, b = proj.decl(x), proj.decl(y)

    def typ(t, u, v):
        if t[0] == "Array" and t[1][0] in ("Array", "Ref"):
            if t[1] == ("Array", ("Unit",)):
                return v
            return [typ(t[1], u[1], e) for e in v]
        return move(proj, t[1], u[1], v) if t[0] == "Ref" else v
    if a.kind == "struct":
        at = {f.index: (f, e) for f, e in zip(a.fields, v)}
        return [[typ(at[g.index][0].type, g.type, e) for e in at[g.index][1]] for g in b.fields]
    f = a.fields[v[0] - 1]
    j = next(k for k, g in enumerate(b.fields) if g.index == f.index)
    out = [j + 1, typ(f.type, b.fields[j].type, v[1])]
    return out + [move(proj, x, y, v[2])] if len(v) == 3 else out


def c08(check):
    rng = check.rng
    # The model: a few shapes in several orders.
    hs = [History(rng, rng.randrange(2, 4), 3, adjacent=None, small=True) for _ in range(check.scale(6, 20))]
    total = 0
    for h in hs:
        cases = evolve_mc(check, h.proj, [[h.id(k, n) for k in range(h.versions)] for n in range(1, h.size + 1)], 1)
        total += len(cases)
    check.coverage["model_cases"] = total
    # The programs.
    histories = [History(rng, rng.randrange(3, 8), 3, adjacent=None, keep_order=k % 2 == 0) for k in range(check.scale(10, 60))]
    made = wire.make_bundles(check, build_typical(), [h.proj for h in histories])
    check.log("built generated code")
    by_proj = {id(h.proj): h for h in histories}
    seeds = [rng.random() for _ in made]

    def one(k):
        b, r = made[k], random.Random(seeds[k])
        h, recs, inputs = by_proj[id(b.proj)], [], []
        vg = schema.ValueGen(r, b.proj, big=0.01, bom=True)
        pairs = []
        for n in range(1, h.size + 1):
            for _ in range(check.scale(12, 40)):
                i, j = r.sample(range(h.versions), 2)
                x, y = h.id(i, n), h.id(j, n)
                try:
                    v = vg.message(x)
                except (ValueError, RecursionError):
                    continue
                pairs.append((x, y, v, move(b.proj, x, y, v)))
        for impl in IMPLS:
            one = wire.call(b, impl, [wire.line("E", x, v) for x, _, v, _ in pairs])
            two = wire.call(b, impl, [wire.line("E", y, w) for _, y, _, w in pairs])
            for (x, y, v, w), p, q in zip(pairs, one, two):
                recs.append({"op": "enc", "i": impl, "x": x, "y": y, "keep": h.keep_order, "v": v, "w": w, "b": p.get("b", [0]), "c": q.get("b", []),
                             "n": p.get("n", 0), "m": q.get("n", 0)})
        vals = [(x, v) for x, _, v, _ in pairs]
        byts = [bytes(q["b"]) if "b" in q and len(q["b"]) < 700 else None for q in recs[:len(pairs)] for q in [q]]
        partner = {}
        for x, y, _, _ in pairs:
            partner.setdefault(x, []).append(y)
        inputs = [(x, s) for (x, _), s in zip(vals, byts) if s is not None] + wire.mutants(r, b, vals, byts, check.scale(300, 1500))
        inputs = [(x, r.choice(partner[x]), s) for x, s in inputs]
        for impl in IMPLS:
            ln = lambda t, s: wire.line("D", t, list(s)) if impl == "rust" else wire.line("D", t, list(s), 0, len(s), 0)
            one = wire.call(b, impl, [ln(x, s) for x, _, s in inputs])
            two = wire.call(b, impl, [ln(y, s) for _, y, s in inputs])
            for (x, y, s), p, q in zip(inputs, one, two):
                recs.append({"op": "dec", "i": impl, "x": x, "y": y, "b": list(s), "st": p["st"], "r": p.get("r", []), "su": q["st"], "s": q.get("r", [])})
        return [dict(q, t=q["x"]) for q in recs]
    recs = [(made[k], rs) for k, rs in enumerate(pmap(one, range(len(made))))]
    st = Counter(q["op"] + " " + q.get("st", "") for _, rs in recs for q in rs)
    check.log(f"ran: {dict(st)}")
    j = wire.judge(recs, module="ReorderTrace")
    if j.unsound:
        raise ToolError(f"the driver paired what does not correspond: {json.dumps(j.unsound[0][1])[:1500]}")
    check.log(f"TLC judged {j.checked}")
    check.add("states", 2 * j.checked)
    check.add("transitions", j.checked)
    check.add("traces_validated_against_impl", j.checked)
    check.coverage["records"] = dict(st)
    for b, q, exp in j.bad[:5]:
        x, y = b.proj.decl(q["x"]), b.proj.decl(q["y"])
        check.violate(f"{x.kind} {x.name} and its variant {y.name} ({q['i']}, {q['op']}): " + json.dumps({k: q[k] for k in ("v", "w", "b", "c", "st", "r", "su", "s") if k in q})[:900],
                      {"schema": b.proj.render(), "record": q, "expected": exp})
    if len(j.bad) > 5:
        check.log(f"{len(j.bad)} bad records in all")
    for b, rs in recs[:3]:
        check.sample({k: rs[5][k] for k in ("x", "y", "v", "w", "b", "c")})
