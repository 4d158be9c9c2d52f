"""The schema-specific part of the Rust harness, and running it."""
import json, os, subprocess, threading
from .common import VERIF, ToolError, env_for_rust, run
from .schema import namespace, pascal, snake

RUST_KEYWORDS = set("abstract as async await become box break const continue crate do dyn else enum extern false final fn for "
                    "if impl in let loop macro match mod move mut override priv pub ref return self Self static struct super "
                    "trait true try type typeof unsafe unsized use virtual where while yield".split())


def ident(s):
    if s in ("self", "super", "crate", "Self"):
        return s + "_"
    return "r#" + s if s in RUST_KEYWORDS else s


def path(d, suffix):
    return "super::gen::" + "::".join(ident(snake(c)) for c in namespace(d.file)) + "::" + pascal(d.name) + suffix


def rust_type(proj, t, suffix):
    k = t[0]
    if k == "Array":
        return "Vec<" + rust_type(proj, t[1], suffix) + ">"
    if k == "Ref":
        return path(proj.decl(t[1]), suffix)
    return {"Unit": "()", "Bool": "bool", "U64": "u64", "S64": "i64", "F64": "f64", "Bytes": "Vec<u8>", "String": "String"}[k]


def parse_expr(t, j):
    k = t[0]
    if k == "Array":
        if t[1][0] == "Unit":
            return f"vec![(); u8x({j}) as usize]"
        return f"{j}.arr().iter().map(|j| {parse_expr(t[1], 'j')}).collect::<Vec<_>>()"
    return {"Unit": "()", "Bool": f"({j}.at(0).n() != 0)", "U64": f"u8x({j})", "S64": f"(u8x({j}) as i64)",
            "F64": f"f64::from_bits(u8x({j}))", "Bytes": f"bytes({j})", "String": f"text({j})",
            "Ref": f"parse_{t[1] if k == 'Ref' else 0}({j})"}[k]


def dump_stmt(t, x):
    """Rust statements appending the JSON of place expression x (of reference type) to o."""
    k = t[0]
    if k == "Array":
        if t[1][0] == "Unit":
            return f"put_u64({x}.len() as u64, o);"
        return (f"o.push('['); for (i, x) in {x}.iter().enumerate() {{ if i > 0 {{ o.push(','); }} "
                f"{dump_stmt(t[1], 'x')} }} o.push(']');")
    return {"Unit": "o.push_str(\"[]\");", "Bool": f"o.push_str(if *{x} {{ \"[1]\" }} else {{ \"[0]\" }});",
            "U64": f"put_u64(*{x}, o);", "S64": f"put_u64(*{x} as u64, o);", "F64": f"put_u64({x}.to_bits(), o);",
            "Bytes": f"put_bytes({x}, o);", "String": f"put_bytes({x}.as_bytes(), o);",
            "Ref": f"dump_{t[1] if k == 'Ref' else 0}({x}, o);"}[k]


def glue(proj):
    o = ["#![allow(warnings)]", "use super::{bytes, put_bytes, put_u64, text, u8x, J};",
         "use super::gen::{Deserialize, Serialize};", "use std::io;"]
    for d in proj.decls:
        out, inn, at, n = path(d, "Out"), path(d, "In"), path(d, "Atlas"), d.id
        if d.kind == "struct":
            o.append(f"fn parse_{n}(j: &J) -> {out} {{ {out} {{")
            for i, f in enumerate(d.fields):
                e = parse_expr(f.type, f"j.at({i}).at(0)")
                if f.rule == "opt":
                    e = f"if j.at({i}).len() == 0 {{ None }} else {{ Some({e}) }}"
                o.append(f"  {ident(snake(f.name))}: {e},")
            o.append("} }")
            o.append(f"fn dump_{n}(x: &{inn}, o: &mut String) {{ o.push('[');")
            for i, f in enumerate(d.fields):
                if i:
                    o.append("o.push(',');")
                fld = f"x.{ident(snake(f.name))}"
                if f.rule == "req":
                    o.append(f"o.push('['); {{ let x = &{fld}; {dump_stmt(f.type, 'x')} }} o.push(']');")
                else:
                    o.append(f"o.push('['); if let Some(x) = &{fld} {{ {dump_stmt(f.type, 'x')} }} o.push(']');")
            o.append("o.push(']'); }")
        else:
            o.append(f"fn parse_{n}(j: &J) -> {out} {{ match j.at(0).n() {{")
            for i, f in enumerate(d.fields):
                args = []
                if f.type[0] != "Unit":
                    args.append(parse_expr(f.type, "j.at(1)"))
                if f.rule != "req":
                    args.append(f"Box::new(parse_{n}(j.at(2)))")
                a = "(" + ", ".join(args) + ")" if args else ""
                o.append(f"  {i + 1} => {out}::{ident(pascal(f.name))}{a},")
            o.append("  _ => panic!(\"harness: case\"), } }")
            o.append(f"fn dump_{n}(x: &{inn}, o: &mut String) {{ match x {{")
            for i, f in enumerate(d.fields):
                args, st = [], f"o.push_str(\"[{i + 1},\");"
                if f.type[0] != "Unit":
                    args.append("x")
                    st += dump_stmt(f.type, "x")
                else:
                    st += "o.push_str(\"[]\");"
                if f.rule == "opt":
                    args.append("fb")
                    st += f"o.push(','); dump_{n}(fb, o);"
                a = "(" + ", ".join(args) + ")" if args else ""
                o.append(f"  {inn}::{ident(pascal(f.name))}{a} => {{ {st} o.push(']'); }}")
            o.append("} }")
    o.append("pub fn encode(t: usize, j: &J) -> (usize, Vec<u8>) { match t {")
    for d in proj.decls:
        o.append(f"{d.id} => {{ let v = parse_{d.id}(j); let mut b = vec![]; v.serialize(&mut b).expect(\"serialize\"); (v.size(), b) }}")
    o.append("_ => panic!(\"harness: type\") } }")
    o.append("pub fn convert(t: usize, j: &J, o: &mut String) { match t {")
    for d in proj.decls:
        o.append(f"{d.id} => dump_{d.id}(&{path(d, 'In')}::from(parse_{d.id}(j)), o),")
    o.append("_ => panic!(\"harness: type\") } }")
    o.append("pub fn decode<R: io::BufRead>(t: usize, r: &mut R, o: &mut String, m: &dyn Fn() -> (usize, i64)) -> "
             "(bool, String, usize, i64) { match t {")
    for d in proj.decls:
        o.append(f"{d.id} => {{ let x = {path(d, 'In')}::deserialize(&mut *r); let (a, p) = m(); match x {{ "
                 f"Ok(v) => {{ dump_{d.id}(&v, o); (true, String::new(), a, p) }} "
                 f"Err(e) => (false, format!(\"{{:?}}\", e.kind()), a, p) }} }}")
    o.append("_ => panic!(\"harness: type\") } }")
    o.append("pub fn probe<R: io::BufRead>(t: usize, r: &mut R) -> bool { match t {")
    for d in proj.decls:
        o.append(f"{d.id} => {{ let x = {path(d, 'In')}::deserialize(&mut *r); let ok = x.is_ok(); std::mem::forget(x); ok }}")
    o.append("_ => panic!(\"harness: type\") } }")
    o.append("pub fn encode_to<W: io::Write>(t: usize, j: &J, w: &mut W) -> (bool, String) { match t {")
    for d in proj.decls:
        o.append(f"{d.id} => match parse_{d.id}(j).serialize(&mut *w) {{ Ok(()) => (true, String::new()), "
                 f"Err(e) => (false, format!(\"{{:?}}\", e.kind())) }},")
    o.append("_ => panic!(\"harness: type\") } }")
    return "\n".join(o) + "\n"


def rustc(src, out, timeout=400, extra=()):
    return run(["rustc", "--edition", "2021", "-C", "debuginfo=0", "-C", "opt-level=0", "-C", "debug-assertions=on",
                "-A", "warnings", *extra, "-o", out, src],
               cwd=os.path.dirname(out), timeout=timeout, env=env_for_rust())


def build(proj, generated, directory):
    """Compiles the harness for a project; returns (binary, compiler output or None)."""
    os.makedirs(directory, exist_ok=True)
    with open(os.path.join(VERIF, "harness", "runtime.rs")) as f:
        rt = f.read()
    src = os.path.join(directory, "main.rs")
    with open(src, "w") as f:
        f.write(f'#![allow(warnings)]\n#[path = "{generated}"]\nmod gen;\nmod glue;\n' + rt)
    with open(os.path.join(directory, "glue.rs"), "w") as f:
        f.write(glue(proj))
    exe = os.path.join(directory, "harness")
    r = rustc(src, exe)
    if r.rc != 0:
        return None, r.err
    return exe, None


def requests(exe, lines, timeout=600, env=None):
    """Feeds request lines to the harness; restarts it when a request ends the process. Returns parsed replies."""
    out = []
    i = 0
    ended = 0
    while i < len(lines):
        ended += 1
        if ended > 300:
            # So many requests have ended the process that the remaining ones are not waited for.
            return out + [out[-1]] * (len(lines) - i)
        p = subprocess.Popen([exe], env=dict(os.environ, **env) if env else None, stdin=subprocess.PIPE, stdout=subprocess.PIPE, stderr=subprocess.PIPE)
        data = ("\n".join(lines[i:]) + "\n").encode()

        def feed():
            try:
                p.stdin.write(data)
                p.stdin.close()
            except (BrokenPipeError, OSError):
                pass
        th = threading.Thread(target=feed, daemon=True)
        th.start()
        eth = threading.Thread(target=p.stderr.read, daemon=True)
        eth.start()
        timer = threading.Timer(timeout, p.kill)
        timer.start()
        got = p.stdout.read().split(b"\n")
        p.wait()
        timer.cancel()
        th.join()
        got = [json.loads(g) for g in got if g]
        out += got
        i += len(got)
        if p.returncode in (78, 79) and got:
            continue
        if p.returncode == 0 and i == len(lines):
            break
        # The process died on request i.
        if i < len(lines):
            out.append({"st": "crash", "rc": p.returncode})
            i += 1
    return out
