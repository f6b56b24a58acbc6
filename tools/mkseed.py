#!/usr/bin/env python3
"""mkseed.py ID PROPERTY NEEDS BREAKS: store /repo's uncommitted change plus /tmp/demo.cpp as /verif/seeded/ID, and undo it"""
import sys, os, json, subprocess, shutil
i, p, needs, breaks = sys.argv[1:5]
d = "/verif/seeded/" + i
os.makedirs(d, exist_ok=True)
diff = subprocess.run(["git", "-C", "/repo", "diff"], capture_output=True, text=True).stdout
assert diff.strip(), "no change in /repo"
open(d + "/patch.diff", "w").write(diff)
json.dump({"property": p, "needs": needs, "what_it_breaks": breaks}, open(d + "/meta.json", "w"), indent=1)
shutil.copy("/tmp/demo.cpp", d + "/demo.cpp")
flags = sys.argv[5] if len(sys.argv) > 5 else ""
libs = sys.argv[6] if len(sys.argv) > 6 else ""
open(d + "/demo.sh", "w").write("""#!/bin/bash
# run with cwd /repo: builds demo.cpp against the tree and runs it
D=$(cd "$(dirname "$0")" && pwd)
T=$(mktemp -d)
trap 'rm -rf "$T"' EXIT
clang++-18 -std=gnu++20 -g -w -fsanitize=address,undefined -fno-sanitize-recover=undefined %s -I"$PWD" "$D/demo.cpp" %s -o "$T/demo" || exit 3
"$T/demo"
""" % (flags, libs))
subprocess.run(["git", "-C", "/repo", "checkout", "--", "."])
