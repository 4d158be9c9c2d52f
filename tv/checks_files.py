"""C17, C19-C22: what commands leave behind and how they end, against spec/FilesTrace.tla and spec/Outcome.tla."""
import json, os, random, re, shutil
from collections import Counter
from . import texts, worlds
from .common import ToolError, build_typical, cli, pmap, subdir
from .checks_tool import ref_random
from .tlc import tlc
from .worlds import World, comps, cps


def snapshot(root):
    out = {}
    for d, ds, fs in os.walk(root):
        for f in fs:
            p = os.path.join(d, f)
            st = os.lstat(p)
            if os.path.islink(p):
                content = os.readlink(p).encode()
            else:
                with open(p, "rb") as fh:
                    content = fh.read()
            out[os.path.relpath(p, root)] = (content, st.st_mtime_ns, st.st_ino, st.st_mode)
        for x in ds:
            out[os.path.relpath(os.path.join(d, x), root) + "/"] = ()
    return out


def age(root):
    """Gives every file an old time, so that writing it shows."""
    for d, _, fs in os.walk(root):
        for f in fs:
            os.utime(os.path.join(d, f), (10 ** 9, 10 ** 9), follow_symlinks=False)


def texts_after(root, world):
    """[p, x] of all files except those that are not text."""
    out = []
    for p, v in sorted(snapshot(root).items()):
        if not p.endswith("/") and p not in world.links:
            try:
                x = v[0].decode("utf8")
            except UnicodeDecodeError:
                x = ""
            out.append({"p": comps(p), "x": cps(x)})
    return out


def ended(r):
    return 99 if r.timeout or r.rc not in (0, 1) or "panicked at" in r.err else r.rc


def fmt(ty, w):
    root = worlds.fresh_dir()
    w.write(root)
    age(root)

    def step(args):
        before = snapshot(root)
        r = cli(ty, args, root, timeout=30)
        return {"rc": ended(r), "same": snapshot(root) == before}, r
    chk, _ = step(["format", "--check", w.entry])
    r = step(["format", w.entry])[1]
    after = texts_after(root, w)
    age(root)
    chk2 = step(["format", w.entry, "--check"])[0]
    again = step(["format", w.entry])[0]
    rec = {"op": "fmt", "w": w.json(), "entry": comps(w.entry), "rc": ended(r), "after": after, "chk": chk, "chk2": chk2, "again": again, "_w": w,
           "_err": r.err[-1500:]}
    out = {}
    for p, v in snapshot(root).items():
        if not p.endswith("/"):
            out[p] = v[0]
    rec["_after"] = out
    shutil.rmtree(root, True)
    return rec


NOBODY = {"user": 65534, "group": 65534, "extra_groups": []}


def others_may_run(ty):
    """Whether an unprivileged user can run the tool here at all."""
    root = worlds.fresh_dir()
    World({"a.t": "struct A {\n}\n"}, "a.t").write(root)
    try:
        ok = cli(ty, ["format", "a.t"], root, timeout=30, **NOBODY).rc == 0
    except (OSError, ValueError, PermissionError):
        ok = False
    shutil.rmtree(root, True)
    return ok


def fmt_blocked(ty, w, ro):
    """Formatting by someone who may not write some of the files."""
    root = worlds.fresh_dir()
    w.write(root)
    for d, ds, fs in os.walk(root):
        os.chown(d, 65534, 65534)
        for f in fs:
            if not os.path.islink(os.path.join(d, f)):
                os.chown(os.path.join(d, f), 65534, 65534)
                # Directories stay writable by their owner: a file may be replaced, if that is how it is written.
    for p in ro:
        os.chown(os.path.join(root, p), 0, 0)
        os.chmod(os.path.join(root, p), 0o444)
        os.chown(os.path.dirname(os.path.join(root, p)), 0, 0)
        os.chmod(os.path.dirname(os.path.join(root, p)), 0o755)
    r = cli(ty, ["format", w.entry], root, timeout=30, **NOBODY)
    after = texts_after(root, w)
    shutil.rmtree(root, True)
    good = formatted(ty, w)
    return {"op": "fmtro", "w": w.json(), "entry": comps(w.entry), "rc": ended(r), "said": "[Error]" in r.err, "after": after, "good": good, "ro": [comps(p) for p in ro], "_w": w,
            "_ro": ro, "_err": r.err[-1000:]}


def formatted(ty, w):
    root = worlds.fresh_dir()
    w.write(root)
    cli(ty, ["format", w.entry], root, timeout=30)
    after = texts_after(root, w)
    shutil.rmtree(root, True)
    return after


def layout(ty, w, v):
    return {"op": "layout", "w": w.json(), "v": v.json(), "entry": comps(w.entry), "after": formatted(ty, w), "after2": formatted(ty, v), "_w": w, "_v": v}


def code(ty, w, how=None):
    """The code generated for a world: (rust, typescript, status)."""
    how = how or {}
    root = worlds.fresh_dir()
    w.write(root)
    base = os.path.join(root, how["cwd"]) if how.get("cwd") else root
    os.makedirs(base, exist_ok=True)
    spell = how.get("spell", lambda entry, root, cwd: os.path.relpath(os.path.join(root, entry), cwd))
    outs, res = subdir("out"), []
    n = os.path.basename(root)
    rs, tsf = os.path.join(outs, n + ".rs"), os.path.join(outs, n + ".ts")
    for langs in how.get("runs", [("rust", "typescript")]):
        args = ["generate", spell(w.entry, root, base)]
        for l in langs:
            args += ["--" + l, rs if l == "rust" else tsf]
        r = cli(ty, args, base, timeout=30)
        res.append(ended(r))
    got = []
    for f in (rs, tsf):
        if os.path.exists(f):
            with open(f, "rb") as fh:
                got.append(fh.read())
            os.remove(f)
        else:
            got.append(None)
    shutil.rmtree(root, True)
    return (got[0], got[1], max(res))


def same(ty, w, v, how=None, how2=None):
    a, b = code(ty, w, how), code(ty, v, how2)
    return {"op": "same", "w": w.json(), "entry": comps(w.entry), "v": v.json(), "entry2": comps(v.entry), "same": a[:2] == b[:2], "_w": w, "_v": v,
            "_rc": (a[2], b[2]), "_how": [{k: x for k, x in (h or {}).items() if not callable(x)} for h in (how, how2)]}


def gen(ty, w, outs, args, prior=None, blocks=()):
    """outs: paths in the world of the files asked for. prior: what is done to the right contents of the files asked for
    before the run. blocks: (path, how) of what is in the way of which of them."""
    root = worlds.fresh_dir()
    w.write(root)
    argv = [a.replace("@", root + "/") for a in args]
    # What the files should become: that of a run of its own.
    want = {}
    plain = code(ty, w)
    if plain[2] == 0:
        want = {o: plain[0] if o.endswith(".rs") else plain[1] for o in outs}
    if prior and want:
        for o in outs:
            full = os.path.join(root, o)
            os.makedirs(os.path.dirname(full), exist_ok=True)
            with open(full, "wb") as f:
                f.write(prior(want[o]))
    for p, how in sorted(blocks, key=lambda b: (b[1] != "file", len(os.path.dirname(b[0])))):
        full = os.path.join(root, p)
        if how == "file" and any(os.path.isfile(os.path.join(root, *p.split("/")[:k])) for k in range(1, p.count("/") + 1)):
            continue
        if how == "directory":
            os.makedirs(full + "/inside", exist_ok=True)
        elif how == "file":
            os.makedirs(os.path.dirname(os.path.dirname(full)), exist_ok=True)
            with open(os.path.dirname(full), "wb") as f:
                f.write(b"in the way")
        else:
            os.makedirs(os.path.dirname(full), exist_ok=True)
            os.symlink("/dev/full", full)
    age(root)
    for k, p in enumerate(sorted(outs) + sorted(w.files)):
        # Outputs and schemas of all relative ages.
        full, t = os.path.join(root, p), 10 ** 9 + ((len(args[0]) + k * 7 + len(w.files[w.entry])) % 5) * 10 ** 6
        if os.path.lexists(full):
            os.utime(full, (t, t), follow_symlinks=False)
    before = snapshot(root)
    r = cli(ty, argv, root, timeout=30)
    after = snapshot(root)
    changed = [p for p, v in after.items() if not p.endswith("/") and before.get(p) != v]
    gone = [p for p in before if p not in after]
    dirs = [p[:-1] for p in after if p.endswith("/") and p not in before]
    right = [o for o in outs if o in after and want.get(o) is not None and after[o][0] == want[o]]
    held = {b for b, _ in blocks}
    have = [{"p": comps(p[:-1])} for p in before if p.endswith("/")]
    shutil.rmtree(root, True)
    return {"op": "gen", "w": w.json(), "entry": comps(w.entry), "outs": [comps(o) for o in outs], "rc": ended(r), "said": "[Error]" in r.err,
            "changed": [comps(p) for p in changed + gone], "dirs": [comps(d) for d in dirs], "right": [comps(o) for o in right], "blocked": [comps(o) for o in outs if o in held],
            "had": [h["p"] for h in have], "_w": w, "_args": args, "_blocks": list(blocks), "_err": r.err[-1000:]}


def judge(check, recs, what, limit=6, chunk=12000):
    kinds, bad = Counter(), 0
    for s in range(0, len(recs), chunk):
        part = recs[s:s + chunk]
        tp = os.path.join(subdir("judge"), f"files-{s}.ndjson")
        with open(tp, "w") as f:
            for r in part:
                f.write(json.dumps({k: v for k, v in r.items() if not k.startswith("_")}, separators=(",", ":")) + "\n")
        res = tlc("FilesTrace", env={"TV_TRACE": tp})
        os.remove(tp)
        if res.distinct != 2 * len(part):
            raise ToolError(f"TLC judged {res.distinct} states for {len(part)} records\n" + res.out[-3000:])
        kinds.update(res.tagged("TVKIND"))
        for t in res.tagged("TVBAD"):
            i, exp = t.split(" ", 1)
            r = part[int(i) - 1]
            bad += 1
            if bad <= limit:
                data = {k[1:]: (v.data() if isinstance(v, World) else {a: repr(b) for a, b in v.items()} if k == "_after" else v)
                        for k, v in r.items() if k.startswith("_")}
                data.update({k: v for k, v in r.items() if k in ("rc", "chk", "chk2", "again", "said", "same")})
                for k in ("after", "after2", "changed", "dirs", "outs"):
                    if k in r:
                        data[k] = worlds.readable(r[k])
                check.violate(f"{what}: {r['op']}: {exp}: " + json.dumps(data, ensure_ascii=False, default=str)[:2500], data)
    check.add("states", 2 * len(recs))
    check.add("transitions", len(recs))
    check.add("traces_validated_against_impl", len(recs))
    check.log(f"{what}: {len(recs)} records, {dict(kinds)}" + (f", {bad} bad" if bad else ""))
    for k, n in kinds.items():
        check.coverage.setdefault("outcomes", Counter())[k] += n
    return kinds


# ------------------------------------------------------------------------------------------------------------- inputs

def some_text(rng, mutate=0.2, imports=("b.t", "sub/c.t"), **kw):
    toks = texts.Gen(rng, imports, comments=kw.pop("comments", 0.35), **kw).tokens()
    if rng.random() < mutate:
        toks = texts.mutate_tokens(rng, toks)
    x = texts.join(rng, toks)
    if rng.random() < mutate / 2:
        x = texts.mutate_text(rng, x)
    return x


def some_world(rng, mutate=0.15):
    if rng.random() < 0.2:
        from .checks_tool import load_world
        return load_world(rng)
    r = rng.random()
    files = {"main.t": some_text(rng, mutate)}
    files["b.t"] = some_text(rng, mutate / 3, ["sub/c.t", "main.t"]) if r < 0.6 else "struct Foo {}\n"
    files["sub/c.t"] = some_text(rng, mutate / 3, ["../b.t"]) if r < 0.4 else "choice foo_bar {\n  x = 0\n}\n"
    if rng.random() < 0.2:
        files["unused.t"] = some_text(rng, 0.3)
    return World(files, "main.t")


PATH_OF_COMMENT = "#"


def odd_world(rng):
    """Imports of files with unusual names, with and without names that are nearly those of the files."""
    toks, files = [], {}
    seen = set()
    for p in rng.sample(sorted(ODD), rng.randrange(1, 5)):
        if rng.random() < 0.3:
            toks.append(texts.Gen(rng).comment()) if not toks else None
        toks += ["import", "'" + rng.choice(["", "", "./", "sub/../"]) + p + "'"]
        if rng.random() < 0.75:
            toks += ["as", rng.choice(ODD[p])]
        elif not (p[0].isalpha() and "-" not in p and "." not in p[:-2]):
            toks += ["as", "named_" + str(len(seen))]
        seen.add(p)
    names = [toks[k + 1] for k in range(len(toks) - 1) if toks[k] == "as"]
    if names:
        toks += ["struct", "All", "{"]
        for k, n in enumerate(names):
            toks += [f"f{k}", ":", n, ".", "Foo", "=", str(k)]
        toks += ["}"]
    for p in ODD:
        files[p] = "struct Foo {}\n"
    return World({"main.t": texts.join(rng, toks), **{p: files[p] for p in files if p in seen or rng.random() < 0.1}, "sub/keep.t": ""}, "main.t")


def valid_tokens(rng, imports=("b.t", "sub/c.t")):
    """Tokens of a schema that breaks no rule, with references to what there is."""
    out, names = [], []
    c = lambda: [texts.Gen(rng).comment()] if rng.random() < 0.3 else []
    out += c()
    alias = {}
    for p in rng.sample(list(imports), rng.randrange(len(imports) + 1)):
        out += c() if out and rng.random() < 0.0 else []
        out += ["import", f"'{p}'"]
        al = os.path.basename(p)[:-2]
        if rng.random() < 0.4:
            al = "im_" + al
            out += ["as", al]
        alias[p] = al
    pool = ["one", "two", "three", "fourFive", "six_seven", "Eight", "$struct", "$Bool", "nine9", "te_n", "eleven", "type", "self", "caf\u00e9"]
    for t in rng.sample(["Red", "Green", "BlueSky", "$Unit", "gray_one", "Teal2"], rng.randrange(0, 4)):
        out += c() + [rng.choice(["struct", "choice"]), t, "{"]
        r = rng.random()
        n = rng.choice([0, 1, 1, 2, 3, 5, 9]) if r < 0.96 else rng.randrange(20, 60)
        idx = list(range(n + (rng.choice([0, 0, 1, 3]) if rng.random() < 0.9 else rng.randrange(15, 70))))
        rng.shuffle(idx)
        fields = pool + texts.LONG if rng.random() < 0.1 else pool
        fields = rng.sample(fields, n) if n <= len(fields) else fields + [f"field_{k}" for k in range(n - len(fields))]
        for x, i in zip(fields, idx):
            out += c()
            if rng.random() < 0.45:
                out.append(rng.choice(["optional", "asymmetric"]))
            out.append(x)
            if rng.random() < 0.8:
                ty = [rng.choice(texts.BUILTIN)]
                if names and rng.random() < 0.3:
                    ty = [rng.choice(names)]
                elif alias and rng.random() < 0.3:
                    p = rng.choice(sorted(alias))
                    ty = [alias[p], ".", {"b.t": "Foo", "sub/c.t": "foo_bar"}[p]]
                for _ in range(rng.choice([0, 0, 0, 1, 2, 4]) if rng.random() < 0.98 else rng.randrange(10, 90)):
                    ty = ["["] + ty + ["]"]
                out += [":"] + ty
            out += ["=", "0" * rng.choice([0, 0, 0, 2]) + str(i)]
        if len(idx) > n:
            out += ["deleted"] + [str(i) for i in idx[n:]]
        out.append("}")
        names.append(t)
    if rng.random() < 0.25:
        # Comments at the very end are allowed.
        out += c()
    return out


def change_one(rng, toks):
    """Another schema that is (usually) valid as well: one thing of it is different."""
    toks = list(toks)
    r = rng.random()
    words = [k for k, t in enumerate(toks) if isinstance(t, str)]
    if not words:
        return ["struct", "Red", "{", "}"]
    for _ in range(30):
        k = rng.choice(words)
        t = toks[k]
        if t in ("struct", "choice"):
            toks[k] = "choice" if t == "struct" else "struct"
            return toks
        if t in ("optional", "asymmetric"):
            if rng.random() < 0.5:
                toks[k] = "optional" if t == "asymmetric" else "asymmetric"
            else:
                del toks[k]
            return toks
        if t in texts.BUILTIN:
            toks[k] = rng.choice(texts.BUILTIN)
            if rng.random() < 0.5:
                toks[k:k + 1] = ["[", t, "]"]
            return toks
        if t[0].isalpha() and t not in texts.KEYWORDS and toks[k - 1] not in ("as", ".") and "." not in toks[k + 1:k + 2]:
            toks[k] = {"Red": "Crimson", "one": "uno"}.get(t, t + "x")
            return toks
        if t.isdigit() and "deleted" not in toks[max(0, k - 4):k]:
            # Exchanges two indices.
            others = [j for j in words if toks[j].isdigit() and toks[j - 1] == "=" and j != k]
            if toks[k - 1] == "=" and others:
                j = rng.choice(others)
                toks[j], toks[k] = toks[k], toks[j]
                return toks
    return toks


def change_comment(rng, toks):
    k = [i for i, t in enumerate(toks) if isinstance(t, tuple)]
    toks = list(toks)
    if not k:
        return [("comment", ["# new"])] + toks
    i = rng.choice(k)
    r = rng.random()
    if r < 0.3:
        del toks[i]
    elif r < 0.6:
        toks[i] = ("comment", toks[i][1] + ["# and more"])
    else:
        toks[i] = ("comment", [x + rng.choice(["", " ", " x"]) for x in toks[i][1]])
    return toks


OTHERS = {"b.t": "struct Foo {}\n", "sub/c.t": "choice foo_bar { x = 0 }\n"}
# Files whose names have several words, are spelled unusually or have another ending, and the names they give.
ODD = {"sub/fooBar.t": ["fooBar", "foo_bar", "foobar", "FooBar", "FOOBAR", "foo__bar"], "HTTPApi.t": ["HTTPApi", "http_api", "httpapi", "h_t_t_p_api", "hTTPApi"],
       "x-y.t": ["x_y", "xy", "xY", "XY"], "v1.2.t": ["v1", "v1_2", "v12"], "plain": ["plain", "Plain", "pLain"], "snake_case.typical": ["snake_case", "snakeCase", "snakecase", "Snake_Case"],
       "$as.t": ["$as", "a_s", "$As"], "\u00c9t\u00e9.t": ["\u00c9t\u00e9", "\u00e9t\u00e9"]}


def pair(rng):
    toks = valid_tokens(rng)
    r = rng.random()
    other = toks if r < 0.4 else change_one(rng, toks) if r < 0.8 else change_comment(rng, toks)
    x, y = texts.join(rng, toks), texts.join(rng, other)
    return World({"main.t": x, **OTHERS}, "main.t"), World({"main.t": y, **OTHERS}, "main.t")


def pairs_of_texts(check, n):
    return [pair(check.rng) for _ in range(n)]


def taken_as_written(check, ty, pairs):
    recs = pmap(lambda p: same(ty, *p), pairs)
    recs += pmap(lambda p: layout(ty, *p), pairs)
    judge(check, recs, "pairs of texts")
    check.coverage["pairs_of_texts"] = len(pairs)


# ------------------------------------------------------------------------------------------------------------- checks

def after_world(rec):
    """The world a format run left."""
    w = rec["_w"]
    files = {}
    for p in w.files:
        b = rec["_after"].get(p)
        if b is None:
            return None
        files[p] = b if isinstance(w.files[p], bytes) else b.decode("utf8", "replace")
    return World(files, w.entry, w.links, w.dirs)


def format_worlds(check, n):
    rng = check.rng
    ws = []
    for _ in range(n):
        r = rng.random()
        if r < 0.38:
            ws.append(some_world(rng))
        elif r < 0.45:
            ws.append(odd_world(rng))
        elif r < 0.8:
            ws.append(World({"main.t": texts.join(rng, valid_tokens(rng)), **OTHERS}, "main.t"))
        else:
            ws.append(World({"main.t": comment_text(rng), **OTHERS}, "main.t"))
    return ws


def twist(rng, x, k):
    """A text with one small thing changed about its layout."""
    ls = x.split("\n")
    i = rng.randrange(len(ls))
    at = [j for j, c in enumerate(x) if c == " "] or [0]
    j = rng.choice(at)
    k %= 22
    if k == 0:
        return x.replace("\n", "\r\n")
    if k == 1:
        return x[:-1]
    if k in (2, 3, 4, 5, 6):
        return x + ("\n", " ", "\r\n", "\t\n", "\x0c")[k - 2]
    if k in (7, 8, 9):
        return ("\n", " ", "\r\n")[k - 7] + x
    if k in (10, 11, 12):
        ls[i] += ("\r", " ", "\t")[k - 10]
        return "\n".join(ls)
    if k in (13, 14):
        return x.replace("    ", ("\t", "  ")[k - 13])
    if k == 15:
        return "\n".join(l + rng.choice(["", "", " "]) for l in ls)
    if k in (16, 17, 18, 19):
        return x[:j] + ("  ", "\t", "\n", "")[k - 16] + x[j + 1:]
    if k == 20:
        return "\n".join(ls[:i] + [""] + ls[i:])
    return re.sub(r"\n\n+", lambda m: rng.choice(["\n", "\n\n\n", "\n\n"]), x)


def almost_formatted(check, ty, n):
    """Worlds that are formatted, and the same with a little change in one file."""
    ws = format_worlds(check, n)
    after = pmap(lambda w: formatted(ty, w), ws)
    out = []
    for k, (w, a) in enumerate(zip(ws, after)):
        files = {p: w.files[p] if isinstance(w.files[p], bytes) else None for p in w.files}
        for r in a:
            q = "/".join("".join(map(chr, c)) for c in r["p"])
            if files.get(q, 0) is None:
                files[q] = "".join(map(chr, r["x"]))
        if any(x is None for x in files.values()) or isinstance(files[w.entry], bytes):
            continue
        f = w.entry if k % 3 else check.rng.choice([p for p in files if isinstance(files[p], str)])
        v = dict(files)
        v[f] = twist(check.rng, v[f], k // 3)
        out.append((World(files, w.entry, w.links, w.dirs), World(v, w.entry, w.links, w.dirs)))
    return out


def comment_text(rng):
    """Comments of all shapes everywhere a comment can be."""
    def c():
        r = rng.random()
        if r < 0.35:
            return ""
        lines = []
        for _ in range(rng.choice([1, 1, 2, 3])):
            w = rng.choice([0, 1, 3, 8, 20, 40])
            some = rng.choice([texts.WORDS, [x for x in texts.WORDS if len(x) <= 12 and x.isascii()], texts.WORDS + ["x" * 70, "https://example.com/" + "y" * 60]])
            body = rng.choice([" ", "", "  "]) + rng.choice([" ", "  ", "\t"]).join(rng.choice(some) for _ in range(w))
            lines.append(rng.choice(["", "  ", "    "]) + "#" + body + rng.choice(["", " ", "\r"]))
        return rng.choice(["", "\n", "\n\n", " "]) + "\n".join(lines) + "\n" + rng.choice(["", "\n", "  ", "\n\n"])
    x = c()
    for p in rng.sample(["b.t", "sub/c.t"], rng.randrange(3)):
        x += f"import '{p}'" + rng.choice(["\n", " ", "\n\n"])
    for t in range(rng.randrange(0, 3)):
        x += c() + f"{rng.choice(['struct', 'choice'])} T{t} {{"
        n = rng.randrange(0, 4)
        for i in range(n):
            x += c() + f" f{i}{rng.choice(['', ': U64', ': [Bool]'])} = {i}" + rng.choice(["\n", " ", "\n\n", " # tail\n"])
        if n and rng.random() < 0.2:
            x += f" deleted {n}"
        x += rng.choice(["}", "\n}", "}\n", "}\n\n"])
    return x + c()


def c19(check):
    ty = build_typical()
    n = check.scale(3000, 30000)
    recs = pmap(lambda w: fmt(ty, w), format_worlds(check, n))
    judge(check, recs, "formatting")
    done = [(r["_w"], after_world(r)) for r in recs if r["rc"] == 0]
    done = [(w, v) for w, v in done if v is not None]
    judge(check, pmap(lambda p: same(ty, *p), done[:check.scale(800, 8000)]), "code before and after formatting")
    check.coverage["worlds_formatted"] = n
    check.sample(recs[0]["_w"].data()["files"]["main.t"] if "main.t" in recs[0]["_w"].files else "")
    judge(check, pmap(lambda w: part(ty, w), [ref_random(check.rng) for _ in range(check.scale(1200, 12000))]), "code before and after formatting a part")


def part(ty, w):
    """Formats one of the files, and what it imports."""
    sub = random.Random(json.dumps(w.data())).choice(sorted(w.files))
    root = worlds.fresh_dir()
    w.write(root)
    cli(ty, ["format", sub], root, timeout=30)
    files = {}
    for p in w.files:
        with open(os.path.join(root, p), encoding="utf8", newline="") as f:
            files[p] = f.read()
    shutil.rmtree(root, True)
    return dict(same(ty, w, World(files, w.entry, w.links, w.dirs)), op="part")


def c20(check):
    ty = build_typical()
    n = check.scale(2500, 25000)
    judge(check, pmap(lambda w: fmt(ty, w), format_worlds(check, n)), "formatting")
    ps = pairs_of_texts(check, check.scale(1600, 20000))
    judge(check, pmap(lambda p: layout(ty, *p), ps), "pairs of texts")
    near = almost_formatted(check, ty, check.scale(900, 9000))
    judge(check, pmap(lambda p: layout(ty, *p), near) + pmap(lambda p: fmt(ty, p[1]), near), "almost formatted")
    check.coverage["worlds_formatted"] = n
    check.coverage["almost_formatted"] = len(near)
    check.coverage["pairs_of_texts"] = len(ps)
    check.sample(ps[0][0].data()["files"]["main.t"])


def relaid(rng, x):
    """A formatted text in another layout."""
    out, gap = "", [" ", "\n", "\n\n\n", "\t", "\r\n", "  "]
    ls = x.split("\n")[:-1]
    for k, l in enumerate(ls):
        if l.strip().startswith("#"):
            words = l.split()
            # A comment may be broken differently, but not an empty line of it.
            l = (rng.choice(["", " ", "\t"]) + "#" + rng.choice([" ", "", "   "])
                 + "".join(w + (rng.choice([" ", "  ", "\t", "\n  # "]) if j < len(words) - 2 else "") for j, w in enumerate(words[1:])))
            out += l + rng.choice(["", "", " ", "\r"]) + "\n"
        elif l == "" and k and ls[k - 1].strip().startswith("#"):
            out += "\n" * rng.randrange(1, 3)
        elif l:
            after = ls[k + 1:k + 2] != [] and ls[k + 1].strip().startswith("#")
            out += rng.choice([" ", "".join(rng.choice(gap) for _ in range(2)), ""]) if not out.endswith("\n") else rng.choice(["", "", "  "])
            if out and out[-1].isalnum() and (l.strip()[0].isalnum() or l.strip()[0] == "$"):
                out += "\n"
            out += "".join(rng.choice(gap) if c == " " else c for c in l.strip())
            if after:
                out += rng.choice(["\n", "\n\n", " ", ""])
    return out


def c26(check):
    ty, rng = build_typical(), check.rng
    r = tlc("PrinterMC")
    cases = sorted("".join(map(chr, json.loads(c)["x"])) for c in r.tagged("TVCASE"))
    check.add("states", r.distinct)
    check.add("transitions", r.generated)
    check.log(f"TLC: {r.distinct} states of PrinterMC, {len(cases)} texts")
    texts_in = [relaid(rng, x) for x in cases]

    def one(x):
        root = worlds.fresh_dir()
        World({"main.t": x, "bar.t": "", "sub/fooBar.t": ""}, "main.t").write(root)
        r = cli(ty, ["format", "main.t"], root, timeout=30)
        with open(os.path.join(root, "main.t"), encoding="utf8", newline="") as f:
            got = f.read()
        shutil.rmtree(root, True)
        return ended(r), got
    n = 0
    for x, y, (rc, got) in zip(cases, texts_in, pmap(one, texts_in)):
        if rc != 0 or got != x:
            n += 1
            if n <= 4:
                check.violate(f"format made of {y!r} (status {rc}) {got!r} instead of {x!r}"[:1500], {"input": y, "formatted": got, "expected": x, "status": rc})
    check.add("traces_validated_against_impl", len(cases))
    check.coverage["enumerated_texts"] = len(cases)
    check.log(f"formatted them{f', {n} bad' if n else ''}")
    recs = pmap(lambda w: styled(ty, w), [w for w in format_worlds(check, check.scale(2500, 30000))])
    judge(check, recs, "formatting")
    check.sample({"input": texts_in[77], "formatted": cases[77]})
    check.assumptions += ["where the lines of a comment break is left open, as long as they fit and are needed"]


def styled(ty, w):
    return {"op": "style", "w": w.json(), "entry": comps(w.entry), **formatted_rc(ty, w), "_w": w}


def formatted_rc(ty, w):
    root = worlds.fresh_dir()
    w.write(root)
    r = cli(ty, ["format", w.entry], root, timeout=30)
    after = texts_after(root, w)
    shutil.rmtree(root, True)
    return {"rc": ended(r), "after": after}


OUT_DIRS = ["", "out/", "out/deep/er/", "sub/", "new dir/", "b/c/"]


def gen_case(rng):
    w = some_world(rng) if rng.random() < 0.5 else World({"main.t": texts.join(rng, valid_tokens(rng)), **OTHERS}, "main.t")
    if rng.random() < 0.35 and not isinstance(w.files[w.entry], bytes):
        # Something only validation finds, or that only another file has.
        k = rng.randrange(5)
        w.files[w.entry] += ["\nstruct Dup {} choice dup {}\n", "\nstruct Gap { a = 1 }\n", "\nstruct Loop { a: [Loop] = 0 }\n", "\nstruct No { a: Such = 0 }\n",
                             "\nstruct Twice { a = 0 A = 1 }\n"][k]
    outs, args = [], ["generate", w.entry]
    langs = [(), ("rust",), ("typescript",), ("rust", "typescript"), ("rust", "typescript")][rng.randrange(5)]
    d = None
    for l in langs:
        if d is None or rng.random() < 0.5:
            d = rng.choice(OUT_DIRS)
        taken = set(w.files) | set(w.links)
        if any(d.startswith(t + "/") for t in taken):
            d = "fresh/"
        o = d + rng.choice(["code", "main", "gen", "x.y"]) + {"rust": ".rs", "typescript": ".ts"}[l]
        outs.append(o)
        args += ["--" + l, rng.choice(["", "", "./", "@"]) + o]
        if rng.random() < 0.5:
            w.files[o] = "old content\n" if rng.random() < 0.8 else b"\xff\x00"
    if rng.random() < 0.2:
        args.append("--list-schemas")
    if rng.random() < 0.3:
        rest = args[2:]
        args = [args[0]] + rest + [args[1]]
    prior, blocks = None, []
    if outs and rng.random() < 0.35:
        for o in outs:
            w.files.pop(o, None)
        if rng.random() < 0.6:
            prior = rng.choice([lambda x: x, lambda x: x[:-1], lambda x: x + b"\n", lambda x: x[:-2] + b"\t\n", lambda x: x.replace(b"pub", b"PUB", 1), lambda x: b"",
                                lambda x: x.replace(b"struct", b"STRUCT"), lambda x: x.replace(b"2", b"3", 1), lambda x: x[:len(x) // 2], lambda x: x + x,
                                lambda x: x.replace(b"\n", b"\r\n"), lambda x: x[:-9] + b"abcdefghi"])
        else:
            for o in rng.sample(outs, rng.randrange(1, len(outs) + 1)):
                how = rng.choice(["directory", "file", "full", "full"])
                if how == "file" and ("/" not in o or any(p.startswith(os.path.dirname(o) + "/") or (os.path.dirname(o) + "/").startswith(p + "/") for p in [*w.files, *w.links, *w.dirs, *[x for x, _ in blocks]])):
                    how = "full"
                if any(b == "file" and (o + "/").startswith(os.path.dirname(x) + "/") for x, b in blocks):
                    how = "file"
                if any(x.startswith(o + "/") for x in list(w.files) + outs):
                    continue
                blocks.append((o, how))
            for o in outs:
                if (o, "file") not in blocks and any(h == "file" and (o + "/").startswith(os.path.dirname(x) + "/") for x, h in blocks):
                    blocks = [(x, h) for x, h in blocks if x != o] + [(o, "file")]
    return w, outs, args, prior, blocks


def c21(check):
    ty = build_typical()
    rng = check.rng
    n = check.scale(4000, 40000)
    recs = pmap(lambda c: gen(ty, *c), [gen_case(rng) for _ in range(n)])
    judge(check, recs, "generating")
    m = check.scale(1800, 18000)
    judge(check, pmap(lambda w: fmt(ty, w), [some_world(rng, 0.35) for _ in range(m)]), "formatting")
    if others_may_run(ty):
        blocked = []
        for _ in range(check.scale(300, 3000)):
            w = rng.choice([some_world(rng, 0.05), World({"main.t": texts.join(rng, valid_tokens(rng)), **{p: rng.choice(["", " ", "\n\n"]) + x for p, x in OTHERS.items()}}, "main.t")])
            blocked.append((w, rng.sample(sorted(w.files), rng.randrange(1, len(w.files) + 1))))
        judge(check, pmap(lambda c: fmt_blocked(ty, *c), blocked), "formatting files that cannot be written")
        check.coverage["blocked_format_runs"] = len(blocked)
    else:
        check.log("an unprivileged user cannot run the tool here: files that cannot be written are not formatted")
    check.coverage["generate_runs"], check.coverage["format_runs"] = n, m
    check.sample({"args": recs[0]["_args"], "rc": recs[0]["rc"]})
    check.assumptions += ["failures of the file system are of these kinds: something else is in the place of a file or directory, the disk is full, a file may not be written"]


def relayout(rng, w):
    """The same schemas with other white space (of the files that are generated from tokens)."""
    return World({p: rng.choice(["", "\n\n", "  "]) + x + rng.choice(["", "\n", " \n\n"]) if isinstance(x, str) else x for p, x in w.files.items()}, w.entry, w.links, w.dirs)


def other_endings(rng, w):
    """The same schemas in files with other endings: the name without the ending is what counts."""
    new = {}
    for p in w.files:
        b = os.path.basename(p)
        if b.endswith(".t") and b not in new and rng.random() < 0.6:
            new[b] = b[:-2] + rng.choice(["", ".typical", ".T", ".txt", ".tt", ".t.", ".rs"])
    if "main.t" in new and new["main.t"] == "main":
        new["main.t"] = "main.u"

    def fix(x):
        return re.sub(r"(?m)(\bimport\s+')([^'\n]*)'", lambda m: m.group(1) + os.path.join(os.path.dirname(m.group(2)), new.get(os.path.basename(m.group(2)), os.path.basename(m.group(2)))) + "'", x)
    rename = lambda p: os.path.join(os.path.dirname(p), new.get(os.path.basename(p), os.path.basename(p)))
    files = {rename(p): fix(x) if isinstance(x, str) else x for p, x in w.files.items()}
    if len(files) < len(w.files) or any(o.startswith(p + "/") for p in files for o in files):
        return w
    return World(files, rename(w.entry))


def with_bystanders(rng, w):
    """More files, none of which is used: names and places close to those of the ones that are."""
    extra = {}
    for p in w.files:
        d, b = os.path.split(p)
        stem, ext = os.path.splitext(b)
        for q in rng.sample([stem, stem + ".t", stem + ".typical", b + ".t", b + "~", "." + b, b.upper(), b.lower(), stem.upper() + ext, stem + "/" + b, "../" + b, "sub/" + b, stem + "_" + ext,
                             stem + "/mod.t", "index.t", "mod.t", "types.t", "main.t"], 5):
            q = os.path.normpath(os.path.join(d, q))
            clash = [o for o in list(w.files) + list(extra) if (o + "/").startswith(q + "/") or (q + "/").startswith(o + "/")]
            if not q.startswith("..") and not clash:
                extra[q] = rng.choice(["struct Foo { a: Nope = 7 }", "struct Foo { zzz: Bool = 0 }\nchoice foo_bar { zzz: U64 = 0 }\n", "# Nothing.\n", "\x00", ""])
    return World(dict(w.files, **extra), w.entry, w.links, w.dirs)


def c22(check):
    from . import schema
    ty = build_typical()
    rng = check.rng
    jobs = []
    n = check.scale(900, 9000)
    for k in range(n):
        if rng.random() < 0.5:
            p = schema.rand_project(rng, n_decls=rng.randrange(2, 8), n_files=rng.randrange(1, 6), modes=("dense", "small"), max_fields=4, first=None) if rng.random() < 0.5 \
                else schema.confusing_project(rng)
            w = World(p.render(), p.main)
        else:
            w = World({"main.t": texts.join(rng, valid_tokens(rng)), **OTHERS}, "main.t")
        if rng.random() < 0.35:
            w = other_endings(rng, w)
        v, how, how2 = w, {}, {}
        r = rng.randrange(12)
        if r == 0:
            pass                                              # again
        elif r == 1:
            how2 = {"runs": [("rust",), ("typescript",)]}
        elif r == 2:
            how2 = {"runs": [("typescript", "rust")], "cwd": rng.choice(["sub", "elsewhere/deep"])}
        elif r == 3:
            how2 = {"spell": lambda e, root, cwd: os.path.join(root, e)}
        elif r == 4:
            how2 = {"spell": lambda e, root, cwd: "./" + e}
        elif r == 5:
            how2 = {"spell": lambda e, root, cwd: "../" + os.path.basename(root) + "//" + os.path.join(os.path.dirname(e), ".", os.path.basename(e))}
        elif r == 6:
            v = World(dict(w.files, **{"zzz/unrelated.t": "struct Foo { a: Nope = 7 }", "note.txt": "x", "b.t.bak": "import"}), w.entry)
            if rng.random() < 0.5:
                # All of it somewhere else.
                v = World({"moved/" + p: x for p, x in v.files.items()}, "moved/" + w.entry)
        elif r == 7:
            v = relayout(rng, w)
        elif r in (8, 9):
            v = with_bystanders(rng, w)
        elif r == 10:
            v = other_endings(rng, w)
        else:
            # Deleted indices, comments, aliases and spelling of names do not matter.
            v = World({p: x.replace("\nstruct", "\n# A comment.\nstruct").replace("\nchoice", "\n\n# Another.\nchoice") if p != "main.t" else x for p, x in w.files.items()}, w.entry)
        jobs.append((w, v, how, how2))
    judge(check, pmap(lambda j: same(ty, *j), jobs), "runs that must agree")
    ps = pairs_of_texts(check, check.scale(1300, 13000))
    judge(check, pmap(lambda p: same(ty, *p), ps), "pairs of texts")
    # One process is not enough to see an order that varies: larger schemas several times.
    many = []
    for _ in range(check.scale(40, 400)):
        p = schema.rand_project(rng, n_decls=20, n_files=8, modes=("dense",), max_fields=4, first=None)
        many += [(World(p.render(), p.main),) * 2] * 3
    judge(check, pmap(lambda p: same(ty, *p), many), "larger schemas")
    check.coverage["pairs"] = len(jobs) + len(ps) + len(many)
    check.sample([x for x in jobs[0][0].data()["files"].items()][:1])


# ---------------------------------------------------------------------------------------------------------------- C17

def raw_bytes(rng):
    r = rng.random()
    if r < 0.25:
        return rng.randbytes(rng.choice([0, 1, 2, 3, 10, 100, 3000]))
    if r < 0.5:
        return "".join(rng.choice(texts.OTHER + texts.SPACE + texts.STRAY_TEXT) for _ in range(rng.randrange(40))).encode("utf8", "surrogatepass")
    x = bytearray(texts.join(rng, texts.mutate_tokens(rng, texts.Gen(rng, ["b.t", "sub/c.t"], free=True).tokens())).encode("utf8"))
    for _ in range(rng.choice([1, 1, 3])):
        k = rng.randrange(len(x) + 1)
        what = rng.randrange(4)
        if what == 0:
            x[k:k] = rng.choice([b"\xff", b"\xc3", b"\xe2\x80", b"\x00", b"\xf4\x90\x80\x80", b"\xed\xa0\x80", "\u20ac".encode(), "\u0300".encode(), "\U0001f468\u200d".encode(),
                                 b"\r", b"'", b"#", b"$", b"\n", b"'\n", b"99999999999999999999999999999"])
        elif what == 1:
            del x[k:k + rng.randrange(1, 4)]
        elif what == 2:
            del x[k:]
        elif k < len(x):
            x[k] = rng.randrange(256)
    return bytes(x)


ARGS = ["generate", "format", "shell-completion", "help", "--help", "-h", "--version", "-v", "-V", "main.t", "b.t", "sub", "sub/c.t", "missing.t", "", ".", "..", "/", "--rust", "--typescript",
        "--rust=", "--rust=o.rs", "o.rs", "no/dir/o.ts", "--list-schemas", "--check", "--", "-", "bash", "Zsh", "fish", "elvish", "powershell", "tcsh", "\u00e9", b"\xff\xfe", "--bogus",
        "main.t/", "./main.t", "sub/../main.t", "main.t\n", " ", "--list-schemas=1", "--check=yes", "x" * 300, "x" * 5000, "link.t", "dangling.t", "loop.t", "format --check", "generate"]


def outcome(ty, files, links, argv, chain=0, timeout=20, colour=False):
    root = worlds.fresh_dir()
    for p, x in files.items():
        full = os.path.join(root, p)
        os.makedirs(os.path.dirname(full), exist_ok=True)
        with open(full, "wb") as f:
            f.write(x if isinstance(x, bytes) else x.encode("utf8", "surrogatepass"))
    for p, to in links.items():
        os.symlink(to, os.path.join(root, p))
    try:
        r = cli(ty, argv, root, timeout=timeout, colour=colour)
    except ValueError:      # arguments with NUL cannot be passed
        shutil.rmtree(root, True)
        return None
    shutil.rmtree(root, True)
    tx = [x if isinstance(x, str) else "" for x in files.values()]
    return {"rc": r.rc if r.rc is not None else 0, "timed": r.timeout, "said": bool(r.err.strip()) or bool(r.out.strip()), "panicked": "panicked at" in r.err,
            "texts": [cps(x) if len(x) < 200000 else [] for x in tx if x.count("[") > 100], "chain": chain,
            "_files": {p: (x if len(x) < 3000 else x[:200]) for p, x in files.items()}, "_argv": argv, "_err": r.err[-600:], "_links": links}


def deep_cases(rng):
    for n in (100, 500):
        yield {"main.t": "struct A { a: " + "[" * n + "U64" + "]" * n + " = 0 }"}, 0
        yield {"main.t": "struct A { a: " + "[" * n}, 0
    yield {"main.t": "struct A { a: " + "[" * 20000 + "U64" + "]" * 20000 + " = 0 }"}, 0
    for n in (300, 20000):
        yield {"main.t": "\n".join(f"struct T{i} {{ a: T{i + 1} = 0 }}" for i in range(n)) + f"struct T{n} {{}}"}, n
    for n in (300, 1500):
        yield {"main.t": "struct T0 {}\n" + "\n".join(f"struct T{i} {{ a: T{i - 1} = 0 }}" for i in range(1, n))}, n
    n = 300
    fs = {"main.t": "import 'f0.t'\n"}
    fs.update({f"f{i}.t": f"import 'f{i + 1}.t' as n\nstruct A {{ a: n.A = 0 }}" for i in range(n)})
    fs[f"f{n}.t"] = "struct A {}"
    yield fs, n
    yield {"main.t": "#" * 100000}, 0
    yield {"main.t": "# " + "word " * 60000}, 0
    yield {"main.t": "struct A {\n" + "\n".join(f"a{i} = {i}" for i in range(6000)) + "\n}"}, 0
    yield {"main.t": "struct A {\n" + "\n".join(f"a{i} = {3 * i}" for i in range(400)) + "\n}"}, 0
    yield {"main.t": "struct A { deleted " + " ".join(str(i) for i in range(20000)) + " }"}, 0
    yield {"main.t": "\n".join(f"struct A{i} {{}}" for i in range(4000))}, 0
    yield {"main.t": "struct A { a = 18446744073709551615 deleted 18446744073709551614 4611686018427387903 }"}, 0
    yield {"main.t": "}" * 1500}, 0
    yield {"main.t": "{" * 20000}, 0
    yield {"main.t": "import " * 400}, 0
    yield {"main.t": "'" * 20001}, 0
    yield {"main.t": "$" * 1500}, 0
    yield {"main.t": "\n" * 50000 + "struct"}, 0
    yield {"main.t": "\u0300" * 700}, 0


def c17(check):
    ty = build_typical()
    rng = check.rng
    jobs = []
    for _ in range(check.scale(6000, 60000)):
        r = rng.random()
        x = raw_bytes(rng) if r < 0.6 else some_text(rng, 0.9)
        files = {"main.t": x, "b.t": raw_bytes(rng) if rng.random() < 0.15 else "struct Foo {}\n", "sub/c.t": "choice foo_bar { x = 0 }\n"}
        argv = rng.choice([["format", "main.t"], ["generate", "main.t", "--rust", "o.rs", "--typescript", "o.ts"], ["format", "main.t", "--check"],
                           ["generate", "main.t", "--list-schemas", "--typescript", "o/o.ts"]])
        jobs.append((files, {}, argv))
    links = {"link.t": "main.t", "dangling.t": "nowhere.t", "loop.t": "loop.t"}
    for _ in range(check.scale(2500, 25000)):
        files = {"main.t": some_text(rng, 0.3), "b.t": "struct Foo {}\n", "sub/c.t": "choice foo_bar { x = 0 }\n"}
        jobs.append((files, links, [rng.choice(ARGS) for _ in range(rng.choice([0, 1, 2, 2, 3, 3, 4, 5]))]))
    from .checks_tool import big_world, errors_world, load_world
    for i in range(check.scale(2400, 24000)):
        w = (load_world, load_world, errors_world, big_world, ref_random)[i % 5](rng)
        root_links = {p: os.path.relpath(t, os.path.dirname(p) or ".") for p, t in w.links.items() if "/" not in p or os.path.dirname(p) in {os.path.dirname(f) for f in w.files}}
        jobs.append((w.files, root_links, rng.choice([["generate", w.entry], ["generate", w.entry, "--rust", "o.rs", "--typescript", "o.ts"],
                                                       ["format", w.entry]])))
    # Some as on a terminal that shows colours.
    recs = [r for r in pmap(lambda j: outcome(ty, *j[1], colour=j[0] % 4 == 0), list(enumerate(jobs))) if r]
    for files, chain in deep_cases(rng):
        for argv in (["format", "--check", "main.t"], ["generate", "main.t", "--rust", "o.rs", "--typescript", "o.ts"]):
            recs.append(outcome(ty, files, {}, argv, chain, 60))
    tp = os.path.join(subdir("judge"), "outcome.ndjson")
    with open(tp, "w") as f:
        for r in recs:
            f.write(json.dumps({k: v for k, v in r.items() if not k.startswith("_")}, separators=(",", ":")) + "\n")
    check.log("ran")
    res = tlc("Outcome", env={"TV_TRACE": tp})
    if res.distinct != 2 * len(recs):
        raise ToolError(f"TLC judged {res.distinct} states for {len(recs)} records\n" + res.out[-3000:])
    check.log(f"TLC judged {len(recs)} runs: {dict(Counter(res.tagged('TVKIND')))}")
    for t in res.tagged("TVDEV"):
        name, i = t.split(" ")
        r = recs[int(i) - 1]
        if not check.finding(name):
            check.violate(f"{name}: exit {r['rc']} of {r['_argv']}", {k: v for k, v in r.items() if k != "texts"})
    bad = res.tagged("TVBAD")
    for i in bad[:6]:
        r = recs[int(i) - 1]
        check.violate(f"exit {r['rc']}, stopped {r['timed']}: {r['_argv']} on {r['_files']!r:.1500}: {r['_err']}", {k: repr(v) for k, v in r.items() if k != "texts"})
    check.coverage["statuses"] = dict(Counter(res.tagged("TVKIND")))
    check.coverage["runs"] = len(recs)
    check.add("states", 2 * len(recs))
    check.add("transitions", len(recs))
    check.add("traces_validated_against_impl", len(recs))
    check.sample({"argv": [repr(a) for a in recs[-60]["_argv"]], "rc": recs[-60]["rc"]})
    check.assumptions += ["20 seconds without an end count as a loop", "standard output and standard error stay open"]
