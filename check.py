#!/usr/bin/env python3
"""Decide one property of /repo's current source statically.

usage: check.py ID [--tier quick|thorough] [--repo DIR]
"""
import json
import os
import sys
import time

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
sys.dont_write_bytecode = True
sys.setrecursionlimit(8000)

from sa import spec  # noqa: E402
from sa.runner import Run  # noqa: E402


def main(argv):
    ids = [a for a in argv if not a.startswith("-")]
    tier, repo, out = os.environ.get("VERIF_TIER", "quick"), "/repo", os.path.join(HERE, "evidence")
    it = iter(argv)
    for a in it:
        if a == "--tier":
            tier = next(it)
            ids.remove(tier)
        elif a == "--repo":
            repo = next(it)
            ids.remove(repo)
        elif a == "--out":
            out = next(it)
            ids.remove(out)
    tier = tier if tier in ("quick", "thorough") else "quick"
    props = {p["id"]: p for p in spec.PROPS}
    if not ids or any(i not in props for i in ids):
        print(f"usage: check.py ID [--tier quick|thorough]; known: {' '.join(props)}")
        return 2
    known = []
    with open(os.path.join(HERE, "known-findings.txt")) as fh:
        for line in fh:
            if line.startswith("known: "):
                known.append(line[7:].strip())
    os.makedirs(out, exist_ok=True)
    run, rc = None, 0
    for i in ids:
        t0 = time.time()
        try:
            run = run or Run(os.path.join(HERE, "ref"), repo)
        except SyntaxError as e:
            path = os.path.join(out, f"{i}.violation.txt")
            with open(path, "w") as fh:
                fh.write(f"{e.filename}:{e.lineno}: does not parse: {e.msg}\n")
            print(f"{e.filename}:{e.lineno}: does not parse: {e.msg}")
            print(f"VIOLATION property={i} replay={path}")
            rc = 1
            continue
        rep = run.property(props[i], tier)
        new, old = [], []
        for f in rep.findings:
            key = f"{i} {f['id']}"
            (old if any(key == k.split(" :: ")[0].strip() for k in known) else new).append(f)
        print(f"{i} {props[i]['title']}")
        print(f"  compared {rep.count('function')} functions, {rep.count('class')} classes, "
              f"{rep.count('module')} modules; {rep.count('rule')} constructs under "
              f"{len(rep.rules)} rules; {len(rep.undecided)} undecided")
        for u in rep.undecided:
            print(f"  undecided: {u}")
        for f in old:
            print(f"KNOWN-FINDING: property={i} {f['where']}: {f['text']}")
        path = os.path.join(out, f"{i}.violation.txt")
        if os.path.exists(path):
            os.remove(path)
        if new:
            text = "".join(f"{f['where']}: [{f['rule']}] {f['text']}\n" for f in new)
            with open(path, "w") as fh:
                fh.write(text)
            print(text, end="")
            print(f"VIOLATION property={i} replay={path}")
            rc = 1
        ev = rep.evidence(props[i], tier, int(os.environ.get("VERIF_SEED", "1") or 1), new, old,
                          round(time.time() - t0, 3))
        with open(os.path.join(out, f"{i}.json"), "w") as fh:
            json.dump(ev, fh, indent=1)
            fh.write("\n")
    return rc


if __name__ == "__main__":
    sys.exit(main(sys.argv[1:]))
