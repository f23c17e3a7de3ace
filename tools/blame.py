"""blame.py ID...: do the lines a planted bug removes come from the original repository?"""
import re, subprocess, sys
for ID in sys.argv[1:]:
    f = None; n = 0; bad = []; tot = 0
    for l in open("/verif/seeded/%s/patch.diff" % ID):
        if l.startswith("--- "): f = l[6:].strip()
        elif l.startswith("@@"): n = int(re.match(r"@@ -(\d+)", l).group(1))
        elif l.startswith("+"): pass
        elif l.startswith("-"):
            c = subprocess.run(["git", "-C", "/repo", "blame", "-s", "-L%d,%d" % (n, n), f], text=True, capture_output=True).stdout
            tot += 1
            if not c.lstrip("^").startswith("763cc93"): bad.append(c.strip())
            n += 1
        elif l.startswith(" "): n += 1
    print(ID, "removed", tot, "BAD " + str(bad) if bad else "ok" if tot else "only additions")
