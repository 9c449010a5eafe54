"""Runs TLC on a module of /verif/spec and digests its output."""
import os, re, shutil, subprocess, tempfile
from . import build as B

SPEC = os.path.join(B.VERIF, "spec")
JARS = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"


class ToolError(Exception):
    """TLC itself failed (not a verdict about the code)."""


class Result:
    def __init__(self, rc, out):
        self.rc, self.out = rc, out
        m = re.findall(r"(\d+) states generated, (\d+) distinct states found", out)
        self.generated, self.distinct = (int(m[-1][0]), int(m[-1][1])) if m else (0, 0)
        m = re.findall(r"number of states generated: (\d+)", out)
        if m and not self.generated:
            self.generated = int(m[-1])
        self.lines = []
        for l in out.splitlines():
            if l.startswith('"@') and l.endswith('"'):
                self.lines.append(l[1:-1].replace('\\"', '"').replace("\\\\", "\\"))

    @property
    def ok(self):
        return self.rc == 0

    @property
    def violated(self):
        return self.rc in (10, 11, 12, 13)

    def tail(self, n=40):
        return "\n".join(l for l in self.out.splitlines() if not l.startswith('"@'))[-6000:]


def run(module, cfg, env=None, workers=8, timeout=800, heap="10g", extra=()):
    """cfg: text of the model configuration."""
    d = tempfile.mkdtemp(prefix="kptlc")
    try:
        c = os.path.join(d, module + ".cfg")
        with open(c, "w") as f:
            f.write(cfg)
        cmd = ["java", "-Djava.io.tmpdir=" + d, "-Xss900m", "-Xmx" + heap, "-XX:+UseParallelGC", "-XX:ParallelGCThreads=4",
               "-DTLA-Library=" + SPEC, "-cp", JARS, "tlc2.TLC", "-deadlock", "-noGenerateSpecTE",
               "-workers", str(workers), "-metadir", os.path.join(d, "m"), "-config", c] + list(extra) + \
              [os.path.join(SPEC, module + ".tla")]
        e = dict(os.environ)
        e.update({k: str(v) for k, v in (env or {}).items()})
        try:
            r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, env=e, timeout=timeout, cwd=d)
        except subprocess.TimeoutExpired:
            raise ToolError("TLC timed out on " + module)
        return Result(r.returncode, r.stdout.decode("utf-8", "replace"))
    finally:
        shutil.rmtree(d, ignore_errors=True)
