"""setup_cmd: compiles the TLC overrides and runs the self-tests of the number system."""
import os, sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from harness import tlc
tlc.build()
for m in ("RatTest", "RealsTest"):
    r = tlc.finish(tlc.start(m, ""), 300)
    if r.rc != 0 or f"{m} ok" not in r.strings:
        print(r.out)
        sys.exit(1)
    print(m, "ok")
