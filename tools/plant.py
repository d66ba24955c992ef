#!/usr/bin/env python3
"""Makes /verif/seeded/<id>/ from a description: plant.py FILE.py, where FILE.py defines
ID, PROPERTY, NEEDS, BREAKS, EDITS = [(path, old, new)], DEMO (C++ source) or DEMO_SH, LIB (bool), FLAGS."""
import json, os, runpy, shutil, subprocess, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
WT = "/tmp/plant_wt"

def sh(cmd, **k):
    return subprocess.run(cmd, shell=True, text=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, **k)

d = runpy.run_path(sys.argv[1])
out = os.path.join(V, "seeded", d["ID"])
shutil.rmtree(out, ignore_errors=True)
os.makedirs(out)
if not os.path.isdir(WT):
    print(sh("git clone -q /repo %s" % WT).stdout)
sh("git fetch -q && git checkout -q --detach $(git -C /repo rev-parse HEAD) && git checkout -- .", cwd=WT)
for path, old, new in d["EDITS"]:
    p = os.path.join(WT, path)
    s = open(p).read()
    assert s.count(old) == 1, (path, s.count(old), old)
    open(p, "w").write(s.replace(old, new))
diff = sh("git diff", cwd=WT).stdout
open(os.path.join(out, "patch.diff"), "w").write(diff)
json.dump({"property": d["PROPERTY"], "needs": d["NEEDS"], "what_it_breaks": d["BREAKS"]},
          open(os.path.join(out, "meta.json"), "w"), indent=1)
if "DEMO_SH" in d:
    open(os.path.join(out, "demo.sh"), "w").write(d["DEMO_SH"])
elif "DEMO_PY" in d:
    s = open(os.path.join(V, "tools/seedkit/demo_py.sh")).read().replace("@FLAGS@", d.get("FLAGS", ""))
    open(os.path.join(out, "demo.sh"), "w").write(s)
    open(os.path.join(out, "demo.py"), "w").write(d["DEMO_PY"])
    shutil.copy(os.path.join(V, "tools/seedkit/pymain.cc"), out)
    shutil.copytree(os.path.join(V, "pyshim"), os.path.join(out, "pyshim"))
else:
    s = open(os.path.join(V, "tools/seedkit/demo.sh")).read().replace("@FLAGS@", d.get("FLAGS", ""))
    open(os.path.join(out, "demo.sh"), "w").write(s)
    open(os.path.join(out, "demo.cc"), "w").write(d["DEMO"])
for name, text in d.get("FILES", {}).items():
    open(os.path.join(out, name), "w").write(text)
if d.get("LIB", True):
    shutil.copytree(os.path.join(V, "valshim/VAL"), os.path.join(out, "VAL"))
    shutil.copy(os.path.join(V, "valshim/valshim.cc"), out)
os.chmod(os.path.join(out, "demo.sh"), 0o755)
r1 = sh("bash %s/demo.sh" % out, cwd="/repo")
r2 = sh("bash %s/demo.sh" % out, cwd=WT)
print("unchanged:", r1.returncode, r1.stdout[-600:])
print("patched:  ", r2.returncode, r2.stdout[-600:])
ok = r1.returncode == 0 and r2.returncode not in (0, 3)
checks = [a for a in sys.argv[2:] or [d["PROPERTY"]] if a != "-"]
for c in checks:
    r = sh("VERIF_REPO=%s VERIF_SEED=1 VERIF_TIER=quick python3 run.py %s" % (WT, c), cwd=V)
    print("%s: exit %d  %s" % (c, r.returncode, r.stdout[:1200]))
sh("git checkout -- .", cwd=WT)
print("DEMO OK" if ok else "DEMO BAD")
