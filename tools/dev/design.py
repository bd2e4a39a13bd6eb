"""Regenerates the tables of DESIGN.md that list checks and planted bugs (developer tool; reads /verif/seeded)."""
import json, os, re, sys
V = os.path.dirname(os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
def table(res):
    o = ["| planted bug | needs | caught by | observed as |", "|---|---|---|---|"]
    for i in sorted(os.listdir(V + "/seeded")):
        m = json.load(open(f"{V}/seeded/{i}/meta.json")); r = res.get(i)
        o.append(f"| {i} | {m['needs']} | {m['property'] + ' quick' if r else 'NOT CAUGHT'} | {r or ''} |")
    return "\n".join(o)
def results(files):
    res = {}
    for f in files:
        for l in open(f):
            m = re.match(r"(\S+) caught rc=1 (\d+)s (.*)", l)
            if m:
                t = m.group(3); k = "hang" if "HANG" in t else "sanitizer, assertion or crash" if "process ended" in t else "oracle"
                res[m.group(1)] = k
    return res
if __name__ == "__main__":
    p = V + "/DESIGN.md"; t = open(p).read()
    old = {m[0]: m[1] for m in re.findall(r"^\| (C\d\d-\S+) \|[^|\n]*\|[^|\n]* quick \| ([^|\n]+?) \|$", t, re.M)}
    a, b = t.index("<!-- seeded -->"), t.index("<!-- /seeded -->")
    t = t[:a] + "<!-- seeded -->\n" + table({**old, **results(sys.argv[1:])}) + "\n" + t[b:]
    open(p, "w").write(t)
