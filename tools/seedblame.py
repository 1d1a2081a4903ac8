"""List planted bugs whose patches change no line of the original repository."""
import os, re, subprocess, sys
BASE = "c5956c4"
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
bl = {}


def blame(f):
    if f not in bl:
        out = subprocess.run(["git", "-C", "/repo", "blame", "-s", "-l", f],
                             capture_output=True, text=True).stdout
        bl[f] = [x.startswith("^" + BASE) for x in out.split("\n")]
    return bl[f]


for d in sorted(os.listdir(root + "/seeded")):
    p = open(root + "/seeded/%s/patch.diff" % d).read()
    r = subprocess.run(["git", "-C", "/repo", "apply", "--check", "-"],
                       input=p, text=True, capture_output=True)
    if r.returncode:
        print(d, "does not apply")
        continue
    orig = mine = 0
    f = n = None
    for l in p.split("\n"):
        if l.startswith("--- a/"):
            f = l[6:]
        elif l.startswith("@@"):
            n = int(re.match(r"@@ -(\d+)", l).group(1))
        elif f and l.startswith("-") and not l.startswith("---"):
            if l[1:].strip():
                if blame(f)[n - 1]:
                    orig += 1
                else:
                    mine += 1
            n += 1
        elif l.startswith(" ") and n:
            n += 1
    if not orig:
        print(d, "changes", orig, "original lines and", mine, "later ones")
