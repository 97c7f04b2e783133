#!/usr/bin/env python3
"""Rebuild known_findings.json: fixed entries from the fix: commits of /repo (FIXED maps them to properties), open ones from OPEN."""
import json, subprocess, os
FIXED = {
 "7a89e47": "P25", "3525cbd": "P25", "9720a5e": "P25", "da15229": "P25", "d935d24": "P25", "63dd302": "P18", "0335527": "P18",
 "1779ee0": "P10", "8732cd5": "P10", "45ef385": "P10", "918269b": "P22", "2a30436": "P25", "663d36d": "P14", "58a2371": "P24",
 "b4d04c1": "P24", "d8929ba": "P01", "f944b2f": "P03", "ac18c0d": "P01", "4815181": "P26", "e3ef86a": "P26", "f31ea61": "P23",
 "9dfb2e9": "P02", "3480f6c": "P03", "95b0a1d": "P27", "69b1499": "P04", "b844970": "P05", "7bf969f": "P05", "919f57a": "P05",
 "23a1446": "P06", "cfaa00b": "P06", "fdc5ad1": "P06", "79aaa1b": "P05", "6447815": "P14", "f73a5db": "P07", "d4af9f8": "P07",
 "15986f5": "P26", "c540973": "P08", "a2dcf09": "P07", "a50ae91": "P07", "b2df4b8": "P10", "7378c42": "P11", "6bda882": "P11",
 "4b9879b": "P11", "46e2d49": "P12", "877ebe1": "P13", "e5496f1": "P13", "d53cf60": "P05", "a46bc30": "P13", "7d7aa71": "P05",
 "27d4c14": "P14", "648fb85": "P14", "28133e0": "P14", "891895e": "P15", "1781add": "P15", "83a16c8": "P16", "8b0160f": "P16",
 "851e62b": "P17", "eb42ecc": "P17", "81d31b5": "P17",
}
OPEN = json.load(open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "open_findings.json")))
extra = os.path.join(os.path.dirname(os.path.abspath(__file__)), "fixed_extra.json")
if os.path.exists(extra):
    FIXED.update(json.load(open(extra)))
log = subprocess.run(["git", "-C", "/repo", "log", "--reverse", "--format=%h %s", "98792f2..HEAD"], capture_output=True, text=True).stdout
res = []
for l in log.splitlines():
    h, s = l.split(" ", 1)
    p = FIXED.get(h)
    if p is None:
        print("UNMAPPED", l)
        continue
    what = s[4:].strip() if s.startswith("fix:") else s
    res.append({"id": "F-" + h, "property": p, "status": "fixed", "commit": h, "what": what,
                "line": "fixed: property=%s %s %s" % (p, h, what)})
for o in OPEN:
    res.append({**o, "status": "open"})
json.dump(res, open("/verif/known_findings.json", "w"), indent=1)
print(len(res), "entries")
