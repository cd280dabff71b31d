#!/usr/bin/env python3
"""mkseed.py ID PROPERTY needs what_it_breaks < demo.py   -- packs the working-tree change of /repo as a planted bug"""
import json, os, shutil, subprocess, sys
i, prop, needs, what = sys.argv[1:5]
d = "/verif/seeded/" + i
os.makedirs(d, exist_ok=True)
diff = subprocess.run("git -C /repo diff", shell=True, capture_output=True, text=True).stdout
assert diff
open(d + "/patch.diff", "w").write(diff)
open(d + "/demo.py", "w").write(sys.stdin.read())
shutil.copy("/verif/tools/sky.py", d)
open(d + "/demo.sh", "w").write('#!/bin/bash\nexec python3 "$(dirname "$0")/demo.py"\n')
os.chmod(d + "/demo.sh", 0o755)
json.dump(dict(property=prop, needs=needs, what_it_breaks=what), open(d + "/meta.json", "w"), indent=1)
subprocess.run("git -C /repo checkout -- .", shell=True, check=True)
