import os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import vbuild
from checks import CHECKS
done = set()
for cid, c in sorted(CHECKS.items()):
    for s in c["parts"]:
        v = s.get("variant", "fast")
        key = (tuple([s["src"]] + s.get("more", [])) if s["kind"] == "cpp" else "py", v, tuple(s.get("extra", ())))
        if key in done:
            continue
        done.add(key)
        try:
            if s["kind"] == "cpp":
                vbuild.build([s["src"]] + s.get("more", []), v, extra=s.get("extra", ()), link=s.get("link", ("-pthread",)))
            elif s.get("module", True):
                vbuild.build_pymodule(v)
        except vbuild.BuildError as e:
            print(e)
            sys.exit(1)
print("built %d harnesses" % len(done))
