"""Shared plumbing of the checks: paths, building the tool, running commands, reporting."""
import atexit, fcntl, hashlib, json, os, random, shutil, subprocess, sys, tempfile, time
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("TV_REPO", "/repo")
BUILD = os.path.join(VERIF, "build")
SPEC = os.path.join(VERIF, "spec")
NODE_MODULES = "/opt/veriftools/node/node_modules"
JOBS = os.cpu_count() or 4


class ToolError(Exception):
    """Something went wrong with the machinery, not with the code under test."""


def env_for_rust():
    e = dict(os.environ)
    e.update(RUSTUP_TOOLCHAIN="1.85.0", CARGO_NET_OFFLINE="true", CARGO_TERM_COLOR="never",
             CARGO_INCREMENTAL="1", CARGO_PROFILE_DEV_DEBUG="line-tables-only", RUSTC_WRAPPER="",
             NO_COLOR="true", LC_ALL="C.UTF-8")
    for k in ("RUSTFLAGS", "CARGO_BUILD_TARGET", "RUST_BACKTRACE"):
        e.pop(k, None)
    return e


_work = None


def workdir():
    """A scratch directory of this run, removed at exit."""
    global _work
    if _work is None:
        os.makedirs(BUILD, exist_ok=True)
        _work = tempfile.mkdtemp(prefix="work-", dir=BUILD)
        os.chmod(_work, 0o711)
        if not os.environ.get("TV_KEEP"):
            atexit.register(shutil.rmtree, _work, True)
    return _work


def subdir(*names):
    d = os.path.join(workdir(), *names)
    os.makedirs(d, exist_ok=True)
    return d


def repo_files():
    out = []
    for root in ("src", "test_data", "integration_tests/types"):
        for d, _, fs in os.walk(os.path.join(REPO, root)):
            out += [os.path.join(d, f) for f in fs]
    out += [os.path.join(REPO, f) for f in ("Cargo.toml", "Cargo.lock")]
    return sorted(f for f in out if os.path.isfile(f))


def build_typical():
    """Builds the tool from /repo's working tree and returns the path of a private copy of the binary."""
    target = os.path.join(BUILD, "target")
    os.makedirs(target, exist_ok=True)
    with open(os.path.join(BUILD, "lock"), "w") as lock:
        fcntl.flock(lock, fcntl.LOCK_EX)
        h = hashlib.sha256()
        for f in repo_files():
            h.update(f.encode() + b"\0")
            with open(f, "rb") as fh:
                h.update(hashlib.sha256(fh.read()).digest())
        stamp = os.path.join(target, "tv-contents")
        old = open(stamp).read() if os.path.exists(stamp) else ""
        if old != h.hexdigest():
            fp = os.path.join(target, "debug", ".fingerprint")
            if os.path.isdir(fp):
                for n in os.listdir(fp):
                    if n.startswith("typical-"):
                        shutil.rmtree(os.path.join(fp, n), True)
        e = env_for_rust()
        e["CARGO_TARGET_DIR"] = target
        p = subprocess.run(["cargo", "build", "--locked", "--offline", "--manifest-path",
                            os.path.join(REPO, "Cargo.toml")], cwd=REPO, env=e,
                           stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        if p.returncode != 0:
            raise ToolError("building typical failed:\n" + p.stdout[-3000:])
        with open(stamp, "w") as f:
            f.write(h.hexdigest())
        dst = os.path.join(workdir(), "typical")
        shutil.copy2(os.path.join(target, "debug", "typical"), dst)
    return dst


class Run:
    def __init__(self, rc, out, err, timeout=False):
        self.rc, self.out, self.err, self.timeout = rc, out, err, timeout


def run(cmd, cwd=None, timeout=60, env=None, stdin=None, text=True, **more):
    dec = (lambda b: (b or b"").decode("utf8", "replace")) if text else (lambda b: b)
    if isinstance(stdin, str):
        stdin = stdin.encode("utf8")
    try:
        p = subprocess.run(cmd, cwd=cwd, env=env, input=stdin, stdout=subprocess.PIPE, stderr=subprocess.PIPE,
                           timeout=timeout, stdin=None if stdin is not None else subprocess.DEVNULL, **more)
        return Run(p.returncode, dec(p.stdout), dec(p.stderr))
    except subprocess.TimeoutExpired as t:
        return Run(None, dec(t.stdout), dec(t.stderr), True)


_cli_env = None
_hangs = 0


def hung():
    """Counts a hang; a check that has seen some need not wait long for the next ones."""
    global _hangs
    _hangs += 1


def patience(timeout):
    return timeout if _hangs < 4 else min(timeout, 3) if _hangs < 30 else min(timeout, 0.3)


def cli(typical, args, cwd, timeout=60, colour=False, **kw):
    global _cli_env
    if _cli_env is None:
        _cli_env = env_for_rust()
        _cli_env["RUST_BACKTRACE"] = "0"
    r = run([typical] + list(args), cwd=cwd, timeout=patience(timeout),
            env={**_cli_env, "CLICOLOR_FORCE": "1"} if colour else _cli_env, **kw)
    if r.timeout:
        hung()
    return r


def pmap(f, items, jobs=None):
    with ThreadPoolExecutor(jobs or JOBS) as ex:
        return list(ex.map(f, items))


# ---------------------------------------------------------------------------------------------------------------------

def findings_for(prop):
    """Listed known findings of a property: {id: description}."""
    out = {}
    path = os.path.join(VERIF, "known_findings.txt")
    if os.path.exists(path):
        for line in open(path):
            line = line.strip()
            if line.startswith("finding: property=" + prop + " "):
                words = line.split(" ", 3)
                out[words[2].split("=", 1)[1]] = words[3]
    return out


class Check:
    """One run of one property's check."""

    def __init__(self, prop, level, tier=None):
        self.prop, self.level = prop, level
        self.tier = tier or os.environ.get("VERIF_TIER", "quick")
        self.seed = int(os.environ.get("VERIF_SEED", "1") or 1)
        self.rng = random.Random(f"{prop}/{self.seed}")
        self.t0 = time.time()
        self.coverage, self.assumptions, self.samples = {}, [], []
        self.violations = []
        self.known_seen = {}
        self.known = findings_for(prop)
        self.replay_dir = os.path.join(VERIF, "evidence", "replay")

    @property
    def thorough(self):
        return self.tier == "thorough"

    def scale(self, quick, thorough):
        return thorough if self.thorough else quick

    def add(self, key, n=1):
        self.coverage[key] = self.coverage.get(key, 0) + n

    def sample(self, s):
        if len(self.samples) < 4:
            self.samples.append(s)

    def violate(self, what, replay):
        """Records a violation; `replay` is JSON-able data that reproduces it."""
        self.violations.append(what)
        if len(self.violations) > 20:
            return
        os.makedirs(self.replay_dir, exist_ok=True)
        path = os.path.join(self.replay_dir, f"{self.prop}-{len(self.violations)}.json")
        with open(path, "w") as f:
            json.dump({"property": self.prop, "what": what, "seed": self.seed, "tier": self.tier, "data": replay}, f,
                      indent=1, default=str)
        print(f"VIOLATION property={self.prop} replay={path}")
        print("  " + what[:600].replace("\n", "\n  "))
        sys.stdout.flush()

    def finding(self, fid, detail=""):
        """A case that belongs to a listed known finding failed, as listed."""
        if fid not in self.known:
            return False
        self.known_seen[fid] = self.known_seen.get(fid, 0) + 1
        return True

    def log(self, msg):
        print(f"[{time.time() - self.t0:6.1f}s] {msg}")
        sys.stdout.flush()

    def finish(self):
        for fid, n in sorted(self.known_seen.items()):
            print(f"KNOWN-FINDING: property={self.prop} {fid}: {self.known[fid]}")
        cov = dict(self.coverage)
        cov["samples"] = self.samples or ["(none)"]
        if self.known_seen:
            cov["known_findings_reproduced"] = {k: v for k, v in sorted(self.known_seen.items())}
        ev = {"property": self.prop, "tier": self.tier if self.tier in ("quick", "thorough") else "quick",
              "seed": self.seed, "level": self.level, "coverage": cov, "assumptions": self.assumptions,
              "wall_s": round(time.time() - self.t0, 2), "violations": len(self.violations)}
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        with open(os.path.join(VERIF, "evidence", self.prop + ".json"), "w") as f:
            json.dump(ev, f, indent=1)
        self.log(f"{self.prop} {self.tier}: " + ("violated" if self.violations else "held") + f" {len(self.violations)}")
        return 1 if self.violations else 0
