"""Prints the table of planted bugs: who catches them, from the logs of tools/bug.sh (/tmp/x/bugs)."""
import glob, json, os, re

for d in sorted(glob.glob("/verif/seeded/*")):
    m = json.load(open(d + "/meta.json"))
    i = os.path.basename(d)
    try:
        t = open("/tmp/x/bugs/%s/check.log" % i).read()
    except OSError:
        t = ""
    cl = []
    for line in re.findall(r"fails \[(.*?)\]", t):
        for c in re.findall(r"'([\w:]+)'", line):
            if c not in cl: cl.append(c)
    print("| `%s` | %s | %s | %s |" % (i, m["what_it_breaks"], "yes" if "VIOLATION" in t else "NO", ", ".join(cl[:3])))
