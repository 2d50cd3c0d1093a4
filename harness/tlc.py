"""Running TLC."""
import json
import os
import re
import subprocess
import tempfile

HERE = os.path.dirname(os.path.abspath(__file__))
SPEC = os.path.join(os.path.dirname(HERE), "spec")
CP = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"


class TlcError(Exception):
    pass


class Run(object):
    """A TLC process, started in the background"""

    def __init__(self, module, cfg=None, workers=1, env=None, args=(), scratch=None, mem="2g", timeout=800):
        self.module, self.timeout = module, timeout
        self.dir = tempfile.mkdtemp(prefix="tlc", dir=scratch)
        self.out = os.path.join(self.dir, "out")
        gc = "-XX:+UseSerialGC" if workers == 1 else "-XX:+UseParallelGC"
        cmd = ["java", gc, "-Xss64m", "-Xmx" + mem, "-cp", CP, "tlc2.TLC", "-nowarning", "-noGenerateSpecTE", "-metadir", os.path.join(self.dir, "md"),
               "-workers", str(workers), "-config", os.path.join(SPEC, (cfg or module) + ".cfg")] + list(args) + [os.path.join(SPEC, module + ".tla")]
        self.cmd = " ".join(cmd)
        e = dict(os.environ)
        e.pop("JAVA_TOOL_OPTIONS", None)
        e.update(env or {})
        self.f = open(self.out, "w")
        self.p = subprocess.Popen(cmd, cwd=self.dir, env=e, stdout=self.f, stderr=subprocess.STDOUT)

    def wait(self):
        try:
            self.rc = self.p.wait(self.timeout)
        except subprocess.TimeoutExpired:
            self.p.kill()
            self.p.wait()
            raise TlcError("TLC on %s ran out of time" % self.module)
        finally:
            self.f.close()
        with open(self.out, errors="replace") as f:
            self.text = f.read()
        return self

    def lines(self, tag):
        """What the specification printed with PrintT(tag \\o json)"""
        out = []
        for l in self.text.splitlines():
            if l.startswith('"' + tag + " "):
                out.append(json.loads(json.loads(l)[len(tag) + 1:]))
        return out

    def stats(self):
        m = re.findall(r"([\d,]+) states generated, ([\d,]+) distinct states found", self.text)
        if m:
            return int(m[-1][0].replace(",", "")), int(m[-1][1].replace(",", ""))
        m = re.findall(r"([\d,]+) states checked", self.text)
        if m:
            n = int(m[-1].replace(",", ""))
            return n, n
        return 0, 0

    def ok(self):
        return self.rc == 0 and "No error has been found" in self.text

    def tail(self, n=40):
        keep = [l for l in self.text.splitlines() if not l.startswith(("Parsing file", "Semantic proc", "Linting of"))]
        return "\n".join(keep[-n:])


def programs(scratch):
    """The format programs of spec/Formats.tla as a JSON file"""
    path = os.path.join(scratch, "prog.json")
    r = Run("FormatsOut", env={"OUT": path}, scratch=scratch).wait()
    if not os.path.exists(path):
        raise TlcError("FormatsOut: " + r.tail())
    return path


def validate(module, trace, scratch, workers=1):
    return Run(module, env={"TRACE": trace}, scratch=scratch, workers=workers, mem="3g")
