"""Running generated TypeScript: bundling, driving, type checking."""
import json, os, re, subprocess, threading, time
from .common import NODE_MODULES, VERIF, ToolError, hung, patience, run
from .schema import camel, namespace, pascal

ESBUILD = os.path.join(NODE_MODULES, ".bin", "esbuild")
class Names:
    """The names of things in generated code. Those of reserved words and globals may be prefixed by an underscore; which
    is seen from the code (spec/Paths.tla says where that is permitted)."""

    def __init__(self, text):
        self.seen = set(re.findall(r"[^\W\d][\w$]*", text))

    def of(self, name):
        return "_" + name if "_" + name in self.seen else name

    def field(self, f):
        return self.of(camel(f.name))

    def space(self, d):
        return [self.of(pascal(c)) for c in namespace(d.file)]

    def type(self, d, suffix=""):
        return self.space(d) + [self.of(pascal(d.name) + suffix)]


def meta(proj, names):
    return [{"k": d.kind, "p": names.type(d), "f": [{"n": names.field(f), "r": f.rule, "t": f.type} for f in d.fields]} for d in proj.decls]


def build(proj, generated, directory):
    """Returns (code file, meta file) or (None, error)."""
    os.makedirs(directory, exist_ok=True)
    with open(generated) as f:
        names = Names(f.read())
    js = os.path.join(directory, "gen.js")
    r = run([ESBUILD, generated, "--format=cjs", "--target=node20", "--outfile=" + js, "--log-level=error"], timeout=120)
    if r.rc != 0:
        return None, r.err
    m = os.path.join(directory, "meta.json")
    with open(m, "w") as f:
        json.dump(meta(proj, names), f)
    return (js, m), None


def drive(built, lines, stall):
    """One run of the driver: its replies, its status, what it wrote to stderr, and whether it stalled."""
    p = subprocess.Popen(["node", "--stack-size=3000", os.path.join(VERIF, "harness", "driver.mjs"), *built],
                         stdin=subprocess.PIPE, stdout=subprocess.PIPE, stderr=subprocess.PIPE)
    last, stalled, err = [time.time()], [], []

    def feed():
        try:
            p.stdin.write(("\n".join(lines) + "\n").encode())
            p.stdin.close()
        except (BrokenPipeError, OSError):
            pass

    def watch():
        while p.poll() is None:
            time.sleep(0.2)
            if time.time() - last[0] > stall:
                stalled.append(1)
                p.kill()
                break
    threads = [threading.Thread(target=t, daemon=True) for t in (feed, watch, lambda: err.append(p.stderr.read()))]
    for t in threads:
        t.start()
    out = []
    for l in p.stdout:
        last[0] = time.time()
        l = l.decode("utf8", "replace").rstrip("\n")
        if l.startswith("{") and l.endswith("}"):
            out.append(json.loads(l))
    p.wait()
    for t in threads:
        t.join()
    return out, p.returncode, (err or [b""])[0].decode("utf8", "replace"), bool(stalled)


def requests(built, lines, stall=90):
    """Replies to request lines; a request which ends the driver, or gets no reply, is noted and the next ones are tried."""
    out, ended = [], 0
    while len(out) < len(lines):
        ended += 1
        if ended > 300:
            return out + [out[-1]] * (len(lines) - len(out))
        got, rc, err, stalled = drive(built, lines[len(out):], patience(stall))
        out += got
        if rc == 0 and len(out) == len(lines):
            break
        if stalled:
            hung()
        if len(out) < len(lines):
            out.append({"st": "hang" if stalled else "crash", "rc": rc, "msg": err[-300:]})
    return out


def typecheck(programs, jobs=8):
    """Strict type checking of programs (lists of files); returns the list of errors of each."""
    import json as j
    from .common import pmap
    n = max(1, min(jobs, (len(programs) + 1) // 2))

    def part(k):
        mine = programs[k::n]
        r = run(["node", os.path.join(VERIF, "harness", "typecheck.mjs")], stdin="".join(j.dumps(p) + "\n" for p in mine), timeout=800)
        out = [j.loads(x) for x in r.out.split("\n") if x]
        if len(out) != len(mine):
            raise ToolError("the type checker failed: " + (r.err or r.out)[-1500:])
        return out
    res = [None] * len(programs)
    for k, part_res in enumerate(pmap(part, range(n))):
        res[k::n] = part_res
    return res
