#!/usr/bin/env python3
"""Writes DESIGN.md from design_head.md, props.py, the harnesses' bounds and the planted bugs."""
import glob, json, os, re, sys
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, root + "/tools")
from props import PROPS
from methods import METHOD
out = [open(root + "/tools/design_head.md").read().rstrip() + "\n"]
out.append("\n## Properties\n")
for p in PROPS:
    pid = p["id"]
    out.append(f"\n### {pid} {p['title']}\n\n{p['statement']}\n\n**Decided by** {METHOD[pid]}\n\n**Harnesses and bounds** (`harness/{pid.lower()}`):\n\n")
    src = "".join(open(f).read() for f in sorted(glob.glob(f"{root}/harness/{pid.lower()}/*.go")))
    for part in re.split(r"(?m)^func (?=H[A-Z0-9])", src)[1:]:
        name = part[:part.index("(")]
        b = re.findall(r'sym\.Bound\("((?:[^"\\]|\\.)*)"\)', part)
        out.append(f"- `{name}`: {'; '.join(b).replace(chr(92)+chr(34), chr(34)) if b else 'see source'}\n")
out.append("\n## Planted bugs\n\nEach is in `seeded/<id>`: it compiles, passes the stable tests, its demonstration fails with it and passes without it. All of them are caught by the quick check of their property (`VIOLATION` after native replay); the right column names what it takes for them to show.\n\n| bug | what breaks | shows with |\n|---|---|---|\n")
for f in sorted(glob.glob(root + "/seeded/*/meta.json")):
    m = json.load(open(f))
    out.append(f"| {f.split('/')[-2]} | {m['what_it_breaks']} | {m['needs']} |\n")
out.append("\n" + open(root + "/tools/design_tail.md").read())
open(root + "/DESIGN.md", "w").write("".join(out))
