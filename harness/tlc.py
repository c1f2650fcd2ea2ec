"""Running TLC: models, trace judgement, output parsing."""
import json
import os
import re
import shutil
import subprocess
import tempfile
import time
import fcntl

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SPEC = os.path.join(VERIF, "spec")
BUILD = os.path.join(VERIF, "build")
CLASSES = os.path.join(BUILD, "classes")
TLA = "/opt/veriftools/tla"
CP = f"{CLASSES}:{TLA}/tla2tools.jar:{TLA}/CommunityModules-deps.jar"


def build():
    """Compiles the evaluation of Rat.tla (arbitrary precision) for TLC."""
    os.makedirs(CLASSES, exist_ok=True)
    src = os.path.join(VERIF, "java", "Rat.java")
    out = os.path.join(CLASSES, "Rat.class")
    with open(os.path.join(BUILD, ".lock"), "w") as lock:
        fcntl.flock(lock, fcntl.LOCK_EX)
        if not os.path.exists(out) or os.path.getmtime(out) < os.path.getmtime(src):
            subprocess.run(["javac", "-cp", f"{TLA}/tla2tools.jar", "-d", CLASSES, src], check=True)


class TlcResult:
    def __init__(self, rc, out):
        self.rc, self.out = rc, out
        m = re.findall(r"(\d+) states generated, (\d+) distinct states found", out)
        self.generated, self.distinct = (int(m[-1][0]), int(m[-1][1])) if m else (0, 0)
        self.strings = [json.loads(s) for s in re.findall(r'^("(?:[^"\\]|\\.)*")$', out, re.M)]


def start(module, cfg_text, env=None, workers=1, heap="2g", extra=()):
    tmp = tempfile.mkdtemp(prefix="tlc_", dir=BUILD)
    cfg = os.path.join(tmp, module + ".cfg")
    with open(cfg, "w") as f:
        f.write(cfg_text)
    e = dict(os.environ)
    e.pop("JAVA_TOOL_OPTIONS", None)
    e.update(env or {})
    cmd = ["java", "-XX:+UseParallelGC", "-XX:ParallelGCThreads=2", f"-Xmx{heap}", "-Xss256m", "-cp", CP, "tlc2.TLC",
           "-config", cfg, "-metadir", os.path.join(tmp, "states"), "-noGenerateSpecTE",
           "-workers", str(workers), "-deadlock", *extra, os.path.join(SPEC, module + ".tla")]
    out = open(os.path.join(tmp, "out"), "w+")
    p = subprocess.Popen(cmd, cwd=SPEC, env=e, stdout=out, stderr=subprocess.STDOUT)
    p.vp_tmp, p.vp_out = tmp, out
    return p


def finish(p, timeout=None):
    # TLC can take very long to print the call stack of an evaluation error:
    # once the error is in the output, it gets little more time.
    t0, err = time.time(), None
    while True:
        try:
            rc = p.wait(2 if p.poll() is None else None)
            break
        except subprocess.TimeoutExpired:
            now = time.time()
            if err is None and "\nError: " in open(p.vp_out.name).read():
                err = now
            if (timeout and now - t0 > timeout) or (err and now - err > 20):
                p.kill()
                p.wait()
                rc = -99
                break
    p.vp_out.seek(0)
    text = p.vp_out.read()
    p.vp_out.close()
    shutil.rmtree(p.vp_tmp, ignore_errors=True)
    return TlcResult(rc, text)
