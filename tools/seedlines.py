#!/usr/bin/env python3
"""Says which planted bugs change no line of the original repository."""
import glob, re, subprocess
for d in sorted(glob.glob("/verif/seeded/*/patch.diff")):
    old = 0
    f = n = None
    for l in open(d):
        if l.startswith("--- a/"):
            f = l[6:].strip()
        elif l.startswith("@@"):
            n = int(re.match(r"@@ -(\d+)", l).group(1))
        elif l.startswith("-") and not l.startswith("---"):
            b = subprocess.run(["git", "-C", "/repo", "blame", "-s", "-L%d,%d" % (n, n), f], capture_output=True, text=True).stdout
            old += b.startswith("^")
            n += 1
        elif l.startswith(" "):
            n += 1
    print(d.split("/")[3], old)
