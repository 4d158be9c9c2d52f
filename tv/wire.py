"""Projects whose generated code is exercised, and traces judged by spec/WireTrace.tla."""
import json, os
from . import rustglue, tsglue
from .common import ToolError, cli, pmap, subdir
from .mutate import Mutator
from .tlc import tlc


class Bundle:
    def __init__(self, proj, directory):
        self.proj, self.dir = proj, directory
        self.rust = self.ts = None
        self.env = [dict(d, f=[dict(f, t=totuple(f["t"])) for f in d["f"]]) for d in proj.env()]


def totuple(t):
    return tuple(totuple(x) if isinstance(x, (list, tuple)) else x for x in t)


_n = 0


def make_bundles(check, typical, projects, rust=True, ts=True):
    """Generates, builds. What cannot be generated or built is a violation (there is no encoder to speak of)."""
    global _n
    jobs = []
    for p in projects:
        _n += 1
        jobs.append(Bundle(p, subdir(f"bundle{_n}")))

    def one(b):
        main = b.proj.write(os.path.join(b.dir, "schema"))
        args = ["generate", main]
        if rust:
            args += ["--rust", os.path.join(b.dir, "gen.rs")]
        if ts:
            args += ["--typescript", os.path.join(b.dir, "gen.ts")]
        r = cli(typical, args, b.dir)
        if r.rc != 0:
            return f"typical rejects a valid schema (exit {r.rc}): {r.err[-1500:]}"
        if rust:
            b.rust, err = rustglue.build(b.proj, os.path.join(b.dir, "gen.rs"), os.path.join(b.dir, "rust"))
            if err:
                return "the generated Rust does not compile: " + err[:1500]
        if ts:
            b.ts, err = tsglue.build(b.proj, os.path.join(b.dir, "gen.ts"), os.path.join(b.dir, "ts"))
            if err:
                return "the generated TypeScript does not compile: " + err[:1500]
        return None

    good = []
    for b, err in zip(jobs, pmap(one, jobs)):
        if err:
            check.violate(err, {"schema": b.proj.render()})
        else:
            good.append(b)
    return good


def call(bundle, impl, lines):
    return rustglue.requests(bundle.rust, lines) if impl == "rust" else tsglue.requests(bundle.ts, lines)


def line(op, *args):
    return op + json.dumps(args, separators=(",", ":"))


def values(rng_gen, proj, per_decl, gen_big=0.01, **kw):
    from .schema import ValueGen
    vg = ValueGen(rng_gen, proj, big=gen_big, **kw)
    out = []
    for d in proj.decls:
        for _ in range(per_decl):
            try:
                v = vg.message(d.id)
            except (ValueError, RecursionError):
                continue
            out.append((d.id, v))
    return out


class Judgement:
    def __init__(self):
        self.bad, self.dev, self.unsound, self.checked = [], {}, [], 0


def judge(bundles_records, chunk=60000, module="WireTrace", constants=None, workers=None):
    """bundles_records: list of (bundle, records). Returns Judgement with bad = [(bundle, record, expected)]."""
    envs = [b.env for b, _ in bundles_records]
    flat = []
    for g, (b, recs) in enumerate(bundles_records):
        flat += [(b, dict(r, g=g + 1)) for r in recs]
    j = Judgement()
    d = subdir("judge")
    for start in range(0, len(flat), chunk):
        part = flat[start:start + chunk]
        ep, tp = os.path.join(d, "env.json"), os.path.join(d, "trace.ndjson")
        with open(ep, "w") as f:
            json.dump(envs, f)
        with open(tp, "w") as f:
            for _, r in part:
                f.write(json.dumps({k: x for k, x in r.items() if not k.startswith("_")}, separators=(",", ":")) + "\n")
        res = tlc(module, env={"TV_ENV": ep, "TV_TRACE": tp}, constants=constants, workers=workers)
        if res.distinct != 2 * len(part):
            raise ToolError(f"TLC judged {res.distinct} states for {len(part)} records\n" + res.out[-2000:])
        j.checked += len(part)
        for t in res.tagged("TVBAD"):
            i, exp = t.split(" ", 1)
            b, r = part[int(i) - 1]
            j.bad.append((b, r, exp))
        j.unsound += [part[int(t) - 1] for t in res.tagged("TVUNSOUND")]
        for t in res.tagged("TVDEV"):
            name, i = t.split(" ")
            j.dev.setdefault(name, []).append(part[int(i) - 1])
    return j


def report(check, j, limit=5):
    for b, r, exp in j.bad[:limit]:
        d = b.proj.decl(r["t"]) if "t" in r else None
        check.violate(f"{r['op']} {r.get('i', '')} of {d.kind + ' ' + d.name if d else ''}: the generated code gave "
                      + json.dumps({k: r[k] for k in ("st", "r", "b", "n", "msg", "_from") if k in r and (k != "b" or r["op"] == "enc")})[:700]
                      + "; the specification says " + exp[:700],
                      {"schema": b.proj.render(), "record": r, "expected": exp})
    if len(j.bad) > limit:
        check.log(f"{len(j.bad)} bad records in all")


# ----------------------------------------------------------------------------------------------------------- records

def encode_records(bundle, impl, vals, keep=None):
    """Calls the encoder for (type, value) pairs; returns records and the byte strings (None where it failed)."""
    recs, byts = [], []
    for (t, v), r in zip(vals, call(bundle, impl, [line("E", t, v) for t, v in vals])):
        if "b" in r:
            recs.append({"op": "enc", "t": t, "v": v, "b": r["b"], "n": r["n"], "i": impl})
            byts.append(bytes(r["b"]))
        else:
            recs.append({"op": "enc", "t": t, "v": v, "b": [], "n": 0, "i": impl, "msg": r})
            byts.append(None)
    return recs, byts


def mutants(rng, bundle, vals, byts, n, wild=0.15):
    m = Mutator(rng, bundle.env, wild)
    pool = [(t, b) for (t, _), b in zip(vals, byts) if b is not None and len(b) < 1200]
    out, seen = [], set()
    tries = 0
    while pool and len(out) < n and tries < 3 * n:
        tries += 1
        t, b = rng.choice(pool)
        x = m.message(t, b)
        while rng.random() < 0.25:
            x = m.message(t, x)
        if rng.random() < 0.03:
            x = x + rng.choice(pool)[1]
        if len(x) > 1500 or (t, x) in seen:
            continue
        seen.add((t, x))
        out.append((t, x))
    return out


def decode_records(rng, bundle, impl, inputs):
    """Decodes (type, bytes); for TypeScript also inside a larger buffer."""
    lines, meta = [], []
    for t, b in inputs:
        p, e, buf, mode = 0, len(b), b, 0
        if impl == "ts":
            mode = rng.randrange(4)
            if mode:
                pre, post = rng.randbytes(rng.randrange(4)), rng.randbytes(rng.choice([0, 0, 1, 5, 40]))
                buf, p, e = pre + b + post, len(pre), len(pre) + len(b)
            lines.append(line("D", t, list(buf), p, e, mode))
        else:
            lines.append(line("D", t, list(b)))
        meta.append((t, buf, p, e, mode))
    recs = []
    for (t, buf, p, e, mode), r in zip(meta, call(bundle, impl, lines)):
        recs.append({"op": "dec", "i": impl, "t": t, "b": list(buf), "p": p, "e": e, "st": r["st"], "r": r.get("r", []),
                     "_mode": mode, "_reply": {k: x for k, x in r.items() if k != "r"}})
    return recs
