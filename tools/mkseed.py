#!/usr/bin/env python3
"""mkseed.py ID PROPERTY: packs the change in /tmp/wt as /verif/seeded/ID with the demo in /tmp/seedwork/ID.cc.
meta text comes from /tmp/seedwork/ID.json.  Confirms: demo exit 0 on /repo, nonzero on /tmp/wt."""
import json, os, shutil, subprocess, sys
sid = sys.argv[1]
d = "/verif/seeded/" + sid
w = "/tmp/seedwork/"
os.makedirs(d, exist_ok=True)
diff = subprocess.run(["git", "-C", "/tmp/wt", "diff"], stdout=subprocess.PIPE, text=True).stdout
assert diff.strip()
open(d + "/patch.diff", "w").write(diff)
shutil.copytree("/verif/tools/demo_lib/shim", d + "/shim", dirs_exist_ok=True)
for f in ("demo.sh", "no_override.h"):
    shutil.copy("/verif/tools/demo_lib/" + f, d)
shutil.copy(w + sid + ".cc", d + "/demo.cc")
if os.path.exists(w + sid + ".flags"): shutil.copy(w + sid + ".flags", d + "/flags")
for x in ("header_only", "env"):
    if os.path.exists(w + sid + "." + x): shutil.copy(w + sid + "." + x, d + "/" + x)
shutil.copy(w + sid + ".json", d + "/meta.json")
ok = True
for where, want in (("/repo", 0), ("/tmp/wt", 1)):
    p = subprocess.run(["bash", d + "/demo.sh"], cwd=where, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    print(where, "exit", p.returncode, "|", " / ".join(p.stdout.strip().split("\n")[-4:])[:500])
    ok &= (p.returncode == 0) == (want == 0)
print(sid, "CONFIRMED" if ok else "NOT CONFIRMED")
subprocess.run(["git", "-C", "/tmp/wt", "checkout", "-q", "--", "."])
