"""Rewrite the parts of DESIGN.md that follow from other files"""
import glob
import json
import os
import re

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def replace(text, name, lines):
    return re.sub(
        f"<!-- {name} -->.*?<!-- /{name} -->", lambda _: f"<!-- {name} -->\n" + "\n".join(lines) + f"\n<!-- /{name} -->", text,
        flags=re.S)


path = os.path.join(ROOT, "DESIGN.md")
text = open(path).read()
lines = ["| property | commit | what failed |", "|---|---|---|"]
for line in json.load(open(os.path.join(ROOT, "known_findings.json")))["fixed"]:
    m = re.match(r"fixed: property=(\S+) (\S+) (.*)", line)
    lines.append(f"| {m.group(1)} | {m.group(2)} | {m.group(3)} |")
text = replace(text, "fixes", lines)
lines = ["| change | property | needs | caught by |", "|---|---|---|---|"]
for meta in sorted(glob.glob(os.path.join(ROOT, "seeded", "*", "meta.json"))):
    m = json.load(open(meta))
    name = os.path.basename(os.path.dirname(meta))
    lines.append(f"| {name} | {m['property']} | {m['needs']} | {m.get('caught_by', m['property'])} |")
text = replace(text, "seeded", lines)
claimed = len(json.load(open(os.path.join(ROOT, "vp", "claimed.json")))["claimed"])
text = re.sub(r"\b\d+ properties\b", f"{claimed} properties", text, count=1)
open(path, "w").write(text)
