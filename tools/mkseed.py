#!/usr/bin/env python3
"""mkseed.py FILE : makes /verif/seeded/<id> from a description (a Python file with the list SEEDS of
dict(id, property, edits=[(file, old, new)], demo (body of main), needs, breaks)). Edits are made in /tmp/sw/repo."""
import sys, os, json, subprocess, shutil
g = {}
exec(open(sys.argv[1]).read(), g)
R = "/tmp/sw/repo"
subprocess.run("git checkout -q -- . && git fetch -q /repo HEAD && git checkout -q FETCH_HEAD", shell=True, cwd=R, check=True)
for s in g["SEEDS"]:
    d = "/verif/seeded/" + s["id"]
    os.makedirs(d, exist_ok=True)
    for f, old, new in s["edits"]:
        t = open(R + "/" + f).read()
        assert t.count(old) == 1, (s["id"], f, t.count(old))
        open(R + "/" + f, "w").write(t.replace(old, new))
    open(d + "/patch.diff", "w").write(subprocess.run(["git", "diff"], cwd=R, capture_output=True, text=True).stdout)
    subprocess.run("git checkout -q -- .", shell=True, cwd=R, check=True)
    open(d + "/demo.rs", "w").write("#![allow(unused_imports, dead_code)]\nuse asn1_rs::*;\n" + s.get("items", "") + "\nfn main() {\n" + s["demo"] + "\n}\n")
    shutil.copy("/verif/tools/demo.sh", d + "/demo.sh")
    os.chmod(d + "/demo.sh", 0o755)
    json.dump(dict(property=s["property"], needs=s["needs"], what_it_breaks=s["breaks"]), open(d + "/meta.json", "w"), indent=1)
    print(s["id"])
