#!/usr/bin/env python3
"""Confirms a planted bug and runs checks against it: tools/try_seed.py ID [--no-tests] [CHECK ...]

Applies seeded/ID/patch.diff to /repo, builds, runs the stable tests, the demonstration (also on the unchanged tree) and
the given checks (default: the bug's own property), and undoes the change."""
import json, os, subprocess, sys, shutil, tempfile
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def sh(cmd, **kw):
    return subprocess.run(cmd, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", **kw)


def demo(d):
    t = tempfile.mkdtemp()
    shutil.copytree(d, t + "/d", ignore=shutil.ignore_patterns("*.diff", "meta.json"))
    r = sh(f"bash {t}/d/demo.sh", cwd="/repo")
    shutil.rmtree(t)
    return r


def main():
    args = [a for a in sys.argv[1:] if not a.startswith("--")]
    sid, checks = args[0], args[1:]
    d = os.path.join(V, "seeded", sid)
    meta = json.load(open(d + "/meta.json"))
    checks = checks or [meta["property"]]
    if sh("git -C /repo status --porcelain -uno").stdout.strip():
        sys.exit("/repo is not clean")
    good = True
    if "--no-tests" not in sys.argv:
        sh("bash /opt/vp/build.sh")
        r = demo(d)
        print("demo on the unchanged tree:", r.returncode, "" if r.returncode == 0 else r.stdout[-1500:])
        good &= r.returncode == 0
    r = sh(f"git -C /repo apply {d}/patch.diff")
    if r.returncode:
        sys.exit("does not apply: " + r.stdout)
    try:
        if "--no-tests" not in sys.argv:
            r = sh("bash /opt/vp/build.sh")
            if r.returncode:
                print("does not build:", r.stdout[-2500:])
                return
            r = demo(d)
            print("demo with the bug:", r.returncode, r.stdout[-300:] if r.returncode else "DOES NOT FAIL")
            good &= r.returncode != 0
            sh("bash /opt/vp/test.sh /tmp/seedtest.json")
            base, got = json.load(open("/opt/vp/BASELINE.json")), json.load(open("/tmp/seedtest.json"))
            names = lambda j: set(j.get("passed") or j.get("stable"))
            miss = names(base) - names(got)
            print("stable tests failing:", sorted(miss)[:5])
            good &= not miss
        for c in checks:
            r = sh(f"python3 check.py {c} quick", cwd=V)
            vs = [l for l in r.stdout.splitlines() if l.startswith("VIOLATION")]
            print(f"check {c}: exit {r.returncode}, {len(vs)} violations", "CAUGHT" if r.returncode == 1 and any(f"property={meta['property']} " in l for l in vs) else "MISSED")
            i = r.stdout.find("VIOLATION")
            print("   ", r.stdout[i:i + 700].replace("\n", "\n    ") if i >= 0 else r.stdout[-600:])
    finally:
        sh("git -C /repo checkout -- .")
        if "--no-tests" not in sys.argv:
            sh("bash /opt/vp/build.sh")
    print("VALID" if good else "NOT VALID")


main()
