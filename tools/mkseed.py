#!/usr/bin/env python3
"""mkseed.py ID: stores the working-tree diff of /repo as seeded/ID/patch.diff and undoes it; demo from stdin JSON
{"property","needs","what_it_breaks","program","expect"[,"demo"]}."""
import json, os, subprocess, sys
i = sys.argv[1]
d = "/verif/seeded/" + i
os.makedirs(d, exist_ok=True)
j = json.load(sys.stdin)
p = subprocess.check_output(["git", "-C", "/repo", "diff"], text=True)
assert p.strip()
open(d + "/patch.diff", "w").write(p)
subprocess.check_call(["git", "-C", "/repo", "checkout", "-q", "--", "."])
if "program" in j:
    open(d + "/a.cs", "w").write(j.pop("program"))
    open(d + "/expect.txt", "w").write(j.pop("expect"))
demo = j.pop("demo", None) or """#!/bin/bash
# Runs a.cs and compares its output.
here=$(cd "$(dirname "$0")" && pwd)
w=$(mktemp -d); trap 'rm -r "$w"' EXIT
mkdir "$w/P"; cp "$here/a.cs" "$w/P/a.cs"; cd "$w"
timeout 60 /repo/bin/april run P/a.cs /repo/System.apl > out.txt 2>&1
rc=$?
[ $rc = 0 ] || { echo "exit status $rc"; cat out.txt; exit 1; }
diff out.txt "$here/expect.txt" || exit 1
"""
open(d + "/demo.sh", "w").write(demo)
os.chmod(d + "/demo.sh", 0o755)
json.dump(j, open(d + "/meta.json", "w"), indent=1)
print("stored", d)
