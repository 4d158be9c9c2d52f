"""Running TLC."""
import os, re, shutil, subprocess, tempfile
from .common import SPEC, ToolError, subdir, JOBS

JAR = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"


class Result:
    def __init__(self, out, rc):
        self.out, self.rc = out, rc
        m = re.findall(r"(\d+) states generated(?: \([^)]*\))?, (\d+) distinct states found", out)
        self.generated, self.distinct = (int(m[-1][0]), int(m[-1][1])) if m else (0, 0)

    def tagged(self, tag):
        """Lines printed by PrintT("TAG ..."), without the tag."""
        pre = '"' + tag + " "
        out = []
        for line in self.out.splitlines():
            if line.startswith(pre) and line.endswith('"'):
                out.append(line[len(pre):-1].replace('\\"', '"').replace("\\\\", "\\"))
        return out


def tlc(module, cfg=None, env=None, workers=None, args=(), timeout=800, heap="6g", ok=(0,), constants=None):
    """Runs TLC on spec/<module>.tla with spec/<cfg>; raises ToolError unless it ends normally."""
    d = tempfile.mkdtemp(prefix="tlc-", dir=subdir("tlc"))
    cfg_path = os.path.join(SPEC, cfg or module + ".cfg")
    if constants:
        text = open(cfg_path).read() + "\nCONSTANTS\n" + "".join(f"  {k} = {v}\n" for k, v in constants.items())
        cfg_path = os.path.join(d, "run.cfg")
        with open(cfg_path, "w") as f:
            f.write(text)
    cmd = ["java", "-XX:+UseParallelGC", f"-Xmx{heap}", "-Xss256m", "-Djava.io.tmpdir=" + d, "-cp", JAR, "tlc2.TLC",
           "-config", cfg_path, "-workers", str(workers or JOBS), "-metadir", os.path.join(d, "meta"), "-noGenerateSpecTE"]
    cmd += list(args) + [os.path.join(SPEC, module + ".tla")]
    e = dict(os.environ)
    e.update(env or {})
    try:
        p = subprocess.run(cmd, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout, cwd=d,
                           stdin=subprocess.DEVNULL)
    except subprocess.TimeoutExpired:
        raise ToolError(f"TLC on {module} exceeded {timeout} s")
    finally:
        pass
    out = p.stdout.decode("utf8", "replace")
    shutil.rmtree(d, True)
    if p.returncode not in ok:
        keep = [x for x in out.splitlines() if not x.startswith(("Parsing file", "Semantic processing", "Linting of", '"TV'))]
        raise ToolError(f"TLC on {module} ended with {p.returncode}:\n" + "\n".join(keep)[:2500])
    return Result(out, p.returncode)
