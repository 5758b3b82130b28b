#!/usr/bin/env python3
"""mkseed.py ID PROPERTY NEEDS BREAKS < demo.rs : makes seeded/ID from the current diff of /repo, then restores /repo."""
import json, os, shutil, subprocess, sys
i, prop, needs, breaks = sys.argv[1:5]
d = f"/verif/seeded/{i}"; os.makedirs(d, exist_ok=True)
diff = subprocess.run("git -C /repo diff", shell=True, capture_output=True, text=True).stdout
assert diff.strip(), "no change in /repo"
open(f"{d}/patch.diff", "w").write(diff)
open(f"{d}/demo.rs", "w").write(sys.stdin.read())
shutil.copy("/verif/tools/demo_template.sh", f"{d}/demo.sh")
json.dump(dict(property=prop, needs=needs, what_it_breaks=breaks), open(f"{d}/meta.json", "w"), indent=1)
subprocess.run("git -C /repo checkout -- .", shell=True, check=True)
