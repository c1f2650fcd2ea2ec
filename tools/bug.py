"""Plants the bugs described in bugs/*.py: writes seeded/<id>/ after confirming each in a scratch copy.

  tools/bug.py [--no-tests] [--check-only] [id ...]      results are appended to build/bugs.json
"""
import glob, importlib.util, json, os, shutil, subprocess, sys, tempfile
from concurrent.futures import ThreadPoolExecutor
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
STABLE = set(json.load(open("/opt/vp/BASELINE.json"))["stable"])
DEMO = '''#!/bin/bash
# exit 0: the property holds on the demonstrated input
export JAX_PLATFORMS=cpu JAX_ENABLE_X64=1 PYTHONDONTWRITEBYTECODE=1 PYTHONPATH="$PWD"
exec /opt/venv/bin/python "$(dirname "$0")/demo.py"
'''

def load():
    out = []
    for f in sorted(glob.glob(os.environ.get("BUGS_DIR", VERIF + "/bugs") + "/*.py")):
        s = importlib.util.spec_from_file_location("b", f); m = importlib.util.module_from_spec(s); s.loader.exec_module(m)
        out += m.BUGS
    assert len({b["id"] for b in out}) == len(out)
    return out

def sh(cmd, **kw):
    return subprocess.run(cmd, capture_output=True, text=True, **kw)

def tests_pass(d):
    out = os.path.join(d, ".junit.xml")
    e = dict(os.environ, PYTHONDONTWRITEBYTECODE="1", PYTHONHASHSEED="0", JAX_PLATFORMS="cpu", MPLBACKEND="Agg", PYTHONPATH=d)
    r = sh(["/opt/venv/bin/python", "-m", "pytest", "-q", "-p", "no:cacheprovider", "-n", "4", "--timeout=200",
            "--continue-on-collection-errors", "-o", "junit_family=xunit2", "--junitxml=" + out], cwd=d, env=e)
    if not os.path.exists(out):
        return ["no test results"]
    import xml.etree.ElementTree as ET
    ok = set()
    for tc in ET.parse(out).getroot().iter("testcase"):
        if not any(c.tag in ("failure", "error", "skipped") for c in tc):
            ok.add(f"{tc.get('classname')}::{tc.get('name')}")
    os.remove(out)
    return sorted(STABLE - ok)

def own_lines(repo, diff):
    """Removed lines that are not in the original repository."""
    import re
    f, n, out = None, 0, []
    for l in diff.splitlines():
        if l.startswith("--- a/"): f = l[6:]
        elif l.startswith("@@"): n = int(re.match(r"@@ -(\d+)", l).group(1))
        elif l.startswith("-"):
            r = sh(["git", "blame", "-s", "-L", f"{n},{n}", "HEAD", "--", f], cwd=repo).stdout
            if not r.startswith(("049dfa4", "^049dfa4")): out.append(l[1:].strip()[:60])
            n += 1
        elif l.startswith(" "): n += 1
    return out if out and sum(1 for l in diff.splitlines() if l.startswith("-") and not l.startswith("---")) == len(out) else []

def one(b, no_tests, check_only):
    d = tempfile.mkdtemp(prefix="bug_", dir="/tmp")
    res = {"id": b["id"], "property": b["property"]}
    try:
        repo = d + "/repo"
        shutil.copytree("/repo", repo, symlinks=True)
        sd = f"{VERIF}/seeded/{b['id']}"
        for f, old, new in b["edits"]:
            p = f"{repo}/{f}"
            s = open(p).read()
            if s.count(old) != 1:
                res["error"] = f"edit of {f} matches {s.count(old)} times: {old[:60]!r}"; return res
            open(p, "w").write(s.replace(old, new))
        diff = sh(["git", "diff"], cwd=repo).stdout
        own = own_lines(repo, diff)
        if own and not check_only:
            res["error"] = f"changes lines that fix commits added: {own}"; return res
        if not check_only:
            os.makedirs(sd, exist_ok=True)
            open(sd + "/patch.diff", "w").write(diff)
            open(sd + "/demo.py", "w").write(b["demo"])
            open(sd + "/demo.sh", "w").write(DEMO)
            os.chmod(sd + "/demo.sh", 0o755)
            json.dump({"property": b["property"], "needs": b["needs"], "what_it_breaks": b["breaks"]}, open(sd + "/meta.json", "w"), indent=1)
            r0 = sh(["bash", sd + "/demo.sh"], cwd="/repo", timeout=300)
            r1 = sh(["bash", sd + "/demo.sh"], cwd=repo, timeout=300)
            if r0.returncode != 0 or r1.returncode == 0:
                res["error"] = f"demo: clean {r0.returncode}, patched {r1.returncode}: {(r0.stderr or r1.stdout)[-600:]}"; return res
            if not no_tests:
                miss = tests_pass(repo)
                if miss:
                    res["error"] = f"tests fail: {miss[:5]}"; return res
        r = sh(["/opt/venv/bin/python", VERIF + "/run.py", b["property"]], env=dict(os.environ, VERIF_REPO=repo, VERIF_TIER="quick"), cwd=VERIF)
        res["caught"] = r.returncode == 1 and f"VIOLATION property={b['property']} " in r.stdout
        res["rc"] = r.returncode
        res["out"] = (r.stdout + r.stderr)[-700:] if r.returncode not in (0, 1) else "\n".join(l for l in r.stdout.splitlines() if " x event" in l)[:500]
        return res
    finally:
        shutil.rmtree(d, ignore_errors=True)

if __name__ == "__main__":
    ids = [a for a in sys.argv[1:] if not a.startswith("-")]
    bugs = [b for b in load() if not ids or b["id"] in ids or b["property"] in ids]
    with ThreadPoolExecutor(2) as ex:
        for res in ex.map(lambda b: one(b, "--no-tests" in sys.argv, "--check-only" in sys.argv), bugs):
            tag = "ERROR " + res["error"] if "error" in res else ("caught" if res["caught"] else f"MISSED rc={res['rc']}")
            print(f"{res['id']:28s} {res['property']} {tag}")
            if "error" not in res:
                print("      " + res["out"].strip().replace("\n", "\n      "))
            sys.stdout.flush()
            if "BUGS_DIR" in os.environ:
                continue
            rf = VERIF + "/bugs/results.json"
            allr = json.load(open(rf)) if os.path.exists(rf) else {}
            known = {b["id"]: b for b in load()}
            allr[res["id"]] = {"property": res["property"], "needs": known[res["id"]]["needs"], "result": "not planted: " + res["error"][:80] if "error" in res else ("caught" if res["caught"] else "missed")}
            allr = {k: v for k, v in allr.items() if k in known}
            json.dump(allr, open(rf, "w"), indent=1, sort_keys=True)
