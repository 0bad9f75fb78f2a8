#!/usr/bin/env python3
"""Regenerate DESIGN.md (documentation only; no check reads it)."""
import ast, glob, json, os, re, sys
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(root, "tools"))
from props import PROPS, NOT_APPLICABLE  # noqa
out = [open(os.path.join(root, "tools", "design_head.md")).read(), "## 3. Properties\n"]
kf = json.load(open(os.path.join(root, "known_findings.json")))["findings"]
seeds = {}
for m in sorted(glob.glob(os.path.join(root, "seeded", "*", "meta.json"))):
    d = json.load(open(m))
    seeds.setdefault(d["property"], []).append((os.path.basename(os.path.dirname(m)), d))
for p in PROPS:
    i = p["id"]
    src = os.path.join(root, "checks", i.lower() + ".py")
    if not os.path.exists(src):
        continue
    t = ast.parse(open(src).read())
    const, har = {}, []
    for n in t.body:
        if isinstance(n, ast.Assign) and isinstance(n.targets[0], ast.Name) and n.targets[0].id in ("BOUNDS", "OUTSIDE"):
            try:
                const[n.targets[0].id] = ast.literal_eval(n.value)
            except ValueError:
                pass
        if isinstance(n, ast.FunctionDef):
            for d in n.decorator_list:
                if isinstance(d, ast.Call) and getattr(d.func, "id", "") == "harness":
                    name = d.args[1].value if len(d.args) > 1 and isinstance(d.args[1], ast.Constant) else n.name
                    har.append((name, (ast.get_docstring(n) or "").split("\n")[0]))
    out.append("### %s %s\n" % (i, p["title"]))
    out.append(p["statement"] + "\n")
    out.append("*Quantifier:* %s *Why tests cannot settle it:* %s\n" % (p["text"], p["why"]))
    out.append("*Code executed:* " + ", ".join("`%s`" % f for f in p["files"]) + ".\n")
    if har:
        out.append("*Decided, harness by harness (the docstring is the assertion; details in `checks/%s.py`):*\n" % i.lower())
        out.append("\n".join("- `%s`%s" % (a, ": " + b if b else "") for a, b in har) + "\n")
    if const.get("BOUNDS"):
        out.append("*Bounds:* " + "; ".join(const["BOUNDS"]) + ".")
    if const.get("OUTSIDE"):
        out.append("*Outside:* " + "; ".join(const["OUTSIDE"]) + ".")
    ev = os.path.join(root, "tools", "cost.json")
    c = json.load(open(ev)).get(i) if os.path.exists(ev) else None
    if c:
        out.append("*Size and cost (quick, this sandbox):* %s." % c)
    for f in kf:
        if f["property"] == i and f["status"] == "known":
            out.append("*Known finding:* %s" % f["what"])
    if i in seeds:
        out.append("*Planted bugs it catches:* " + ", ".join("`%s`" % s for s, _ in seeds[i]) + ".")
    out.append("")
out.append("## 4. Genuine defects found and repaired (one `fix:` commit each, `known_findings.json`)\n")
out += ["- %s `%s` %s" % (f["property"], f.get("commit", ""), f["what"]) for f in kf if f["status"] == "fixed"]
out.append("\nRecorded, not repaired: the `known` entries above; in both cases an existing test asserts the defective behaviour, so a "
           "repair would need an edited test suite. They are matched by property, harness and label, so any other violation is still reported.\n")
out.append("## 5. Planted bugs (`seeded/`)\n")
for ss in seeds.values():
    for s, d in ss:
        out.append("- `%s` (%s): %s. Needs: %s. Caught by the %s check." % (s, d["property"], d["what_it_breaks"].rstrip("."), d["needs"].rstrip("."), d["property"]))
out.append("\n" + open(os.path.join(root, "tools", "design_tail.md")).read())
out.append("## 7. Not applicable\n")
out += ["- %s: %s" % x for x in NOT_APPLICABLE] or ["Nothing is listed: properties that the family cannot reach (section 1) were not claimed."]
open(os.path.join(root, "DESIGN.md"), "w").write("\n".join(out) + "\n")
