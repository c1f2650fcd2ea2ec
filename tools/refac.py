"""Runs the checks on the behaviour-preserving edits of refactors/*.py; every one has to stay quiet.

  tools/refac.py [id|property ...]
"""
import glob, importlib.util, os, shutil, subprocess, sys, tempfile
from concurrent.futures import ThreadPoolExecutor
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, VERIF + "/tools")
from bug import tests_pass, sh


def load():
    out = []
    for f in sorted(glob.glob(os.environ.get("REFS_DIR", VERIF + "/refactors") + "/*.py")):
        s = importlib.util.spec_from_file_location("b", f); m = importlib.util.module_from_spec(s); s.loader.exec_module(m)
        out += m.REFS
    return out


def one(b, want):
    d = tempfile.mkdtemp(prefix="ref_", dir="/tmp")
    res = []
    try:
        repo = d + "/repo"
        shutil.copytree("/repo", repo, symlinks=True)
        for f, old, new in b["edits"]:
            s = open(f"{repo}/{f}").read()
            if s.count(old) != 1:
                return [f"edit of {f} matches {s.count(old)} times: {old[:60]!r}"]
            open(f"{repo}/{f}", "w").write(s.replace(old, new))
        if "--no-tests" not in sys.argv:
            miss = tests_pass(repo)
            if miss:
                return [f"tests fail: {miss[:5]}"]
        for p in b["props"]:
            if want and p not in want and b["id"] not in want:
                continue
            r = sh(["/opt/venv/bin/python", VERIF + "/run.py", p], env=dict(os.environ, VERIF_REPO=repo, VERIF_TIER="quick"), cwd=VERIF)
            res.append(f"{p} {'quiet' if r.returncode == 0 else 'ALARM rc=%d %s' % (r.returncode, (r.stdout + r.stderr)[-1500:])}")
        return res
    finally:
        shutil.rmtree(d, ignore_errors=True)


if __name__ == "__main__":
    want = [a for a in sys.argv[1:] if not a.startswith("-")]
    refs = [b for b in load() if not want or b["id"] in want or set(want) & set(b["props"])]
    with ThreadPoolExecutor(2) as ex:
        for b, res in zip(refs, ex.map(lambda b: one(b, want), refs)):
            print(b["id"], "; ".join(res), flush=True)
