#!/usr/bin/env python3
"""mkseed.py spec.py: creates /verif/seeded/<id>/ from a spec module defining
ID, PROP, NEEDS, BREAKS, EDITS=[(file, old, new)], CRATES=[...], MAIN (demo source), optional TOML."""
import sys, os, subprocess, json, runpy
s = runpy.run_path(sys.argv[1])
d = f"/verif/seeded/{s['ID']}"
os.makedirs(d, exist_ok=True)
R = "/repo"
assert not subprocess.check_output(["git", "-C", R, "status", "--porcelain"])
try:
    for f, a, b in s["EDITS"]:
        t = open(f"{R}/{f}").read()
        assert t.count(a) == 1, (f, a, t.count(a))
        open(f"{R}/{f}", "w").write(t.replace(a, b))
    open(d + "/patch.diff", "wb").write(subprocess.check_output(["git", "-C", R, "diff"]))
finally:
    subprocess.check_call(["git", "-C", R, "checkout", "-q", "--", "."])
json.dump({"property": s["PROP"], "needs": s["NEEDS"], "what_it_breaks": s["BREAKS"]}, open(d + "/meta.json", "w"), indent=1)
if "MAIN" in s:
    open(d + "/main.rs", "w").write(s["MAIN"])
    if "TOML" in s: open(d + "/demo.toml", "w").write(s["TOML"])
    subprocess.check_call(["bash", "/verif/tools/mkdemo.sh", s["ID"]] + s["CRATES"])
if "DEMO" in s:
    open(d + "/demo.sh", "w").write(s["DEMO"]); os.chmod(d + "/demo.sh", 0o755)
