#!/opt/venv/bin/python
"""Runs one model: mc.py MODULE CFGFILE (debugging aid)."""
import sys, os
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from harness import tlc
import time
tlc.build()
t = time.time()
r = tlc.finish(tlc.start(sys.argv[1], open(sys.argv[2]).read(), workers=6, heap="4g"))
sc = sorted({s for s in r.strings if s.startswith("SCN ")})
if r.rc:
    print(r.out[-5000:])
print("rc", r.rc, "distinct", r.distinct, "generated", r.generated, "scenarios", len(sc), "%.1fs" % (time.time() - t))
for s in sc[:: max(1, len(sc) // 4)][:4]:
    print(s)
