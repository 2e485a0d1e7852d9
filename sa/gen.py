"""Write properties.jsonl, MANIFEST.json and DESIGN.md from the specification."""
import json
import os
import sys

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
from sa import spec  # noqa: E402

TECH = ("static analysis: guarded value-flow summaries of every anchored function, in normal form, "
        "compared with a reviewed reference model; declaration and registration facts")


def main():
    with open(os.path.join(HERE, "properties.jsonl"), "w") as fh:
        for p in [*spec.PROPS, *spec.NOT_APPLICABLE]:
            over, text = p["quant"]
            fh.write(json.dumps({
                "id": p["id"], "title": p["title"], "statement": p["statement"],
                "quantifier": {"over": over, "text": text},
                "why_tests_cant": p["why"],
                "anchors": {"files": p["files"],
                            "mechanism": [{"name": n, "where": w} for n, w in p["mech"]]},
            }) + "\n")
    checks = []
    for p in spec.PROPS:
        rules = p.get("rules", ())
        checks.append({
            "property": p["id"],
            "quick_cmd": f"/usr/bin/python3 check.py {p['id']} --tier quick",
            "thorough_cmd": f"/usr/bin/python3 check.py {p['id']} --tier thorough",
            "technique": TECH + (f"; structural rules: {', '.join(rules)}" if rules else ""),
            "level": "other",
            "level_note": p["note"],
        })
    man = {"version": 1, "setup_cmd": "/usr/bin/python3 -c \"import sys; assert sys.version_info >= (3, 12)\"",
           "checks": checks,
           "not_applicable": [{"property": p["id"], "reason": p["reason"]}
                              for p in spec.NOT_APPLICABLE],
           "notes": "All checks are static: they parse /repo/src and never import or run it. "
                    "known-findings.txt lists recorded and repaired defects."}
    with open(os.path.join(HERE, "MANIFEST.json"), "w") as fh:
        json.dump(man, fh, indent=1)
        fh.write("\n")

def design():
    doc = os.path.join(HERE, "sa", "doc")
    out = [open(os.path.join(doc, "head.md")).read().rstrip(), ""]
    for p in spec.PROPS:
        out += [f"### {p['id']} {p['title']}", "", p["statement"], ""]
        out.append(f"*Quantifies over* {p['quant'][1]}. {p['why']}")
        out += ["", "Decided by:", ""]
        for owner, names, reason in p["obl"]:
            what = "all functions" if names == "*" else ", ".join(f"`{n}`" for n in names)
            out.append(f"* `{owner}`: {what} — {reason}")
        k = p.get("classes")
        if k:
            what = {"models": "every model class", "adapters": "every type adapter",
                    "types": "every type class"}.get(k) if isinstance(k, str) else \
                ", ".join(f"`{q}`" for q in k)
            out.append(f"* declaration facts of {what}")
        if p.get("modules"):
            out.append("* registrations and constants of " + ", ".join(f"`{m}`" for m in p["modules"]))
        if p.get("rules"):
            out.append("* structural rules: " + ", ".join(f"`{r}`" for r in p["rules"]))
        if p.get("fresh"):
            out.append("* must not be cached: " + ", ".join(f"`{r}`" for r in sorted(p["fresh"])))
        out += ["", f"{p['note']}", ""]
    out += ["## 4. Not applicable", ""]
    for p in spec.NOT_APPLICABLE:
        out.append(f"* **{p['id']} {p['title']}** — {p['reason']}")
    out += ["", open(os.path.join(doc, "tail.md")).read().rstrip(), "",
            "### 6.2 Planted bugs", "",
            "Each passes the repository's tests and has a demonstration; each is reported by the check of its "
            "property (last column: what reports it).", "",
            "| change | property | needs | reported as |", "|---|---|---|---|"]
    root = os.path.join(HERE, "seeded")
    by = {}
    try:
        by = json.load(open(os.path.join(doc, "caught.json")))
    except OSError:
        pass
    for d in sorted(os.listdir(root)):
        m = json.load(open(os.path.join(root, d, "meta.json")))
        cell = (m["needs"].replace("|", "/"), by.get(d, "").replace("|", "/"))
        out.append(f"| {d} | {m['property']} | {cell[0]} | {cell[1]} |")
    with open(os.path.join(HERE, "DESIGN.md"), "w") as fh:
        fh.write("\n".join(out) + "\n")


if __name__ == "__main__":
    main()
    design()
