"""Small file systems of schemas, running the tool on them, and judging the runs by spec/ToolTrace.tla."""
import itertools, json, os, re, shutil, zlib
from collections import Counter
from .common import ToolError, cli, pmap, subdir
from .tlc import tlc


def cps(s):
    return [ord(c) for c in s]


def comps(path):
    return [cps(c) for c in path.split("/") if c]


class World:
    """files: path -> str (or bytes that are not UTF-8); links: path -> path in the world; dirs: paths."""

    def __init__(self, files, entry, links=None, dirs=()):
        self.files, self.entry, self.links, self.dirs = dict(files), entry, dict(links or {}), list(dirs)

    def write(self, root):
        for d in self.dirs:
            os.makedirs(os.path.join(root, d), exist_ok=True)
        for p, x in self.files.items():
            full = os.path.join(root, p)
            os.makedirs(os.path.dirname(full), exist_ok=True)
            with open(full, "wb") as f:
                f.write(x if isinstance(x, bytes) else x.encode("utf8"))
        for p, to in self.links.items():
            full = os.path.join(root, p)
            os.makedirs(os.path.dirname(full), exist_ok=True)
            os.symlink(os.path.relpath(os.path.join(root, to), os.path.dirname(full)), full)

    def json(self):
        return {"files": [{"p": comps(p), "x": [] if isinstance(x, bytes) else cps(x), "bad": isinstance(x, bytes)} for p, x in self.files.items()],
                "links": [{"p": comps(p), "to": comps(to)} for p, to in self.links.items()], "dirs": [comps(d) for d in self.dirs]}

    def data(self):
        return {"files": {p: x if isinstance(x, str) else repr(x) for p, x in self.files.items()}, "links": self.links, "dirs": self.dirs,
                "entry": self.entry}


HEAD = re.compile(r"^\[Error\] (?:\[`(.*?)`\] )?(.*)$")
LISTED = re.compile(r"^ *(\d+) \u2502 ?(.*)$", re.S)
NAMED = re.compile("`([^`]*)`")


def plain(err):
    """Coloured messages as they would be without colours, except that what is marked stays in red."""
    err = re.sub("\x1b\\[35m\\[\x1b\\[35m(.*?)\x1b\\[0m\x1b\\[35m\\]\x1b\\[0m", r"[`\1`]", err, flags=re.S)
    err = re.sub("\x1b\\[35m(.*?)\x1b\\[0m", r"`\1`", err, flags=re.S)
    return re.sub("\x1b\\[1;3[14]m(.*?)\x1b\\[0m", r"\1", err, flags=re.S)


def marked(line, below):
    """[text, mark] of a line of a listing, given what is printed below it; a mark is [from, to] or [] for nothing."""
    m = re.match("^(.*?)\x1b\\[31m(.*?)\x1b\\[0m(.*)$", line, re.S)
    if m:
        return m.group(1) + m.group(2) + m.group(3), [len(m.group(1)), len(m.group(1)) + len(m.group(2))] if m.group(2) else []
    m = re.match("^( *)(\u203e+)$", below)
    return line, [len(m.group(1)), len(m.group(1)) + len(m.group(2))] if m else []



def parse_errors(err, base):
    """[errs, un, cyc] of what a command printed; paths are made relative to the world."""
    err = plain(err)
    errs, un, cyc = [], 0, []
    blocks, cur = [], None
    for line in err.split("\n"):
        if line.startswith("[Error] "):
            cur = [line]
            blocks.append(cur)
        elif cur is not None:
            cur.append(line)
    for b in blocks:
        text = "\n".join(b)
        m = HEAD.match(b[0]) or re.match(r"^\[Error\] (?:\[`(.*?)`\] )?(.*)$", text, re.S)
        path, msg = m.group(1), m.group(2)
        if path is None and msg.startswith("Cycle detected: "):
            chain = [x.strip("` .") for x in text.rstrip("\n")[len("[Error] Cycle detected: "):].split(" \u2192 ")]
            cyc.append([{"n": [cps(p) for p in x.split(".")[:-1]], "t": cps(x.split(".")[-1])} for x in chain])
            un += 1
            continue
        if path is None:
            un += 1
            continue
        shown = []
        for x, below in zip(b[1:], b[2:] + [""]):
            m = LISTED.match(x)
            if m:
                shown.append((int(m.group(1)), *marked(m.group(2), below[m.start(2):])))
        nums = [x[0] for x in shown]
        a = nums[0] if nums else 0
        ok = nums == list(range(a, a + len(nums)))
        errs.append({"f": comps(os.path.join(base, path)), "a": a, "z": nums[-1] if nums and ok else 0, "s": [cps(x[1]) for x in shown],
                     "m": [x[2] for x in shown], "n": [cps(x) for x in NAMED.findall(msg)]})
    return {"errs": errs, "un": un, "cyc": cyc}


_seq = itertools.count(1)      # shared by threads


def fresh_dir():
    return subdir("worlds", str(next(_seq)))


def observe(typical, world, asks, ops=("generate", "format")):
    """Runs the tool on a world; returns the record for ToolTrace (with private keys prefixed by _)."""
    root = fresh_dir()
    world.write(root)
    base = os.path.dirname(world.entry)
    # Some runs are coloured, as on a terminal.
    colour = zlib.crc32(repr(world.data()).encode("utf8", "replace")) % 4 == 0 and not any("\x1b" in x for x in world.files.values() if isinstance(x, str))
    rec = {"w": world.json(), "entry": comps(world.entry), "asks": list(asks), "_world": world,
           "f": {"rc": 0, "errs": [], "un": 0, "cyc": []}, "g": {"rc": 0, "errs": [], "un": 0, "cyc": []}, "ls": []}
    for op in ops:
        args = ["generate", world.entry] + (["--list-schemas"] if "list" in asks else []) if op == "generate" else ["format", world.entry]
        r = cli(typical, args, root, timeout=30, colour=colour)
        o = parse_errors(r.err, base)
        o["rc"] = 99 if r.timeout or r.rc not in (0, 1) or "panicked at" in r.err else r.rc
        rec["g" if op == "generate" else "f"] = o
        rec["_" + op] = (r.rc, r.err[-4000:])
        if op == "generate" and "list" in asks and r.rc == 0:
            rec["ls"] = [comps(os.path.normpath(x)) for x in r.out.split("\n") if x]
    shutil.rmtree(root, True)
    return rec


def judge(check, recs, what, limit=6, chunk=20000):
    """Validates records by TLC; reports what does not agree. Returns the number of records of each kind."""
    kinds = Counter()
    bad = 0
    for s in range(0, len(recs), chunk):
        part = recs[s:s + chunk]
        tp = os.path.join(subdir("judge"), f"tool-{os.getpid()}-{s}.ndjson")
        with open(tp, "w") as f:
            for r in part:
                f.write(json.dumps({k: v for k, v in r.items() if not k.startswith("_")}, separators=(",", ":")) + "\n")
        res = tlc("ToolTrace", env={"TV_TRACE": tp})
        os.remove(tp)
        if res.distinct != 2 * len(part):
            raise ToolError(f"TLC judged {res.distinct} states for {len(part)} records\n" + res.out[-3000:])
        kinds.update(res.tagged("TVKIND"))
        for t in res.tagged("TVBAD"):
            i, exp = t.split(" ", 1)
            r = part[int(i) - 1]
            bad += 1
            if bad <= limit:
                e = readable(json.loads(exp))
                outs = {k[1:]: v for k, v in r.items() if k in ("_generate", "_format")}
                check.violate(f"{what}: {e['faults']}: the specification says {json.dumps(e)[:500]}; the tool said {json.dumps(outs)[:700]} on "
                              + json.dumps(r["_world"].data(), ensure_ascii=False)[:1500],
                              {"world": r["_world"].data(), "observed": outs, "expected": e})
    check.add("states", 2 * len(recs))
    check.add("transitions", len(recs))
    check.add("traces_validated_against_impl", len(recs))
    if bad > limit:
        check.log(f"{bad} bad records in all")
    return kinds


def readable(x):
    """Code points back to text, where that is what they are."""
    if isinstance(x, list) and x and all(isinstance(c, int) and 9 <= c < 0x110000 for c in x):
        return "".join(map(chr, x))
    if isinstance(x, list):
        return [readable(y) for y in x]
    if isinstance(x, dict):
        return {k: readable(v) for k, v in x.items()}
    return x
