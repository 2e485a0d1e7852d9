"""Run the obligations and rules of one property."""
from __future__ import annotations

import os
import traceback

from .differ import Differ
from .facts import diff_class, diff_module, new_hooks
from .rules import RULES, Ctx

MODEL, ADAPTER, TYPE = ("arti.internal.models.Model", "arti.types.TypeAdapter", "arti.types.Type")


class Report:
    def __init__(self):
        self.findings, self.undecided, self.items, self.rules = [], [], [], []

    def count(self, kind):
        return sum(1 for k, *_ in self.items if k == kind)

    def evidence(self, prop, tier, seed, new, old, wall):
        done = [x for x in self.items if x[3]]
        return {
            "property": prop["id"], "tier": tier, "seed": seed, "level": "other",
            "coverage": {
                "explanation": "Static comparison of guarded value-flow summaries, declarations and "
                               "registrations of /repo's current source with the reviewed reference "
                               "model, and structural rules over every construct listed in `analysed`. "
                               + prop.get("note", ""),
                "obligations": len(self.items), "discharged": len(done),
                "functions": self.count("function"), "classes": self.count("class"),
                "modules": self.count("module"), "rule_constructs": self.count("rule"),
                "rules": self.rules,
                "undecided": self.undecided,
                "analysed": [{"kind": k, "construct": n, "decided_by": r, "outcome": s, **extra}
                             for k, n, r, ok, s, extra in self.items],
                "known_findings": [f["id"] for f in old],
            },
            "assumptions": [
                "the reviewed reference model under /verif/ref states the required behaviour",
                "third party libraries (pydantic, parse, pyarrow, ...) behave as documented",
                "no monkey patching and no dynamic redefinition of the analysed names",
            ],
            "wall_s": wall,
            "violations": len(new),
            "findings": [f"{f['where']}: [{f['rule']}] {f['text']}" for f in new],
        }


class Run:
    def __init__(self, ref, repo):
        self.d = Differ(ref, os.path.join(repo, "src"), repo)
        self.ctx = Ctx(self.d)

    def names(self, owner, names):
        if names != "*":
            return names
        r = self.d.ref
        if owner in r.classes:
            return [f.name for n, f in r.classes[owner].methods.items() if n == f.name]
        return [f.name for f in r.funcs.values() if f.module.name == owner and f.cls is None
                and f.qual == f"{owner}.{f.name}"]

    def class_list(self, spec):
        r = self.d.ref
        base = {"models": MODEL, "adapters": ADAPTER, "types": TYPE}.get(spec) \
            if isinstance(spec, str) else None
        if base:
            return [q for q in sorted(r.classes) if r.is_subclass(q, base)]
        return list(spec or ())

    def guarded(self, rep, kind, name, fn):
        try:
            return fn()
        except Exception as e:  # the analysis itself failed: nothing is concluded
            tb = traceback.extract_tb(e.__traceback__)[-1]
            rep.undecided.append(f"{name}: analysis failed ({type(e).__name__}: {e} at "
                                 f"{os.path.basename(tb.filename)}:{tb.lineno})")
            rep.items.append((kind, name, "analysis", False, "undecided", {}))
            return None

    def function(self, rep, owner, name, reason, fresh):
        res = self.guarded(rep, "function", f"{owner}.{name}",
                           lambda: self.d.check(owner, name, fresh))
        if res is None:
            return ()
        ok = res.status in ("ok", "inlined")
        extra = {"rule": reason}
        if res.where:
            extra["at"] = res.where
        if res.stats:
            extra.update(res.stats)
        rep.items.append(("function", res.key, "summary equal to the reference", ok, res.status, extra))
        if res.status == "violation":
            text = "; ".join(str(x.text) for x in res.diffs[:6]) or res.note
            rep.findings.append({"id": f"function:{res.key}", "rule": f"required: {reason}",
                                 "where": res.where, "text": text})
        elif not ok:
            rep.undecided.append(f"{res.key} ({res.where}): {res.note}")
        return res.hooks

    def overrides(self, owner, name, hooks=()):
        """Classes below owner where the method is newly overridden in the current tree."""
        d = self.d
        if owner not in d.ref.classes or name.startswith("__init_sub"):
            return
        base = d.ref.find_method(owner, name)
        for q in sorted(d.ref.classes):
            if q == owner or not d.ref.is_subclass(q, owner) or q not in d.cur.classes:
                continue
            if d.ref.find_method(q, name) is not base or base is None:
                continue
            here, up = d.cur.find_method(q, name), d.cur.find_method(owner, name)
            if here is not None and here is not up:
                yield q
            elif any(d.cur.find_method(q, h) is not d.cur.find_method(owner, h) for h in hooks):
                yield q

    def property(self, prop, tier):
        rep = Report()
        fresh = set(prop.get("fresh", ()))
        done = set()
        for owner, names, reason in prop["obl"]:
            for n in self.names(owner, names):
                if (owner, n) in done:
                    continue
                done.add((owner, n))
                hooks = self.function(rep, owner, n, reason, n in fresh)
                for q in self.overrides(owner, n, hooks):
                    if (q, n) not in done:
                        done.add((q, n))
                        self.function(rep, q, n, reason + " (newly overridden)", n in fresh)
        ra, ca = self.d.configs[0]
        for q in self.class_list(prop.get("classes")):
            rc = self.d.ref.classes.get(q)
            if rc is None:
                rep.undecided.append(f"class {q} is not in the reference model")
                continue
            cc = self.d.cur.classes.get(q)
            if cc is None:
                cands = [c for c in self.d.cur.classes.values() if c.name == rc.name]
                cc = cands[0] if len(cands) == 1 else None
            if cc is None:
                rep.findings.append({"id": f"class:{q}", "rule": "declared as required", "where": q,
                                     "text": "the class is gone"})
                rep.items.append(("class", q, "declarations", False, "violation", {}))
                continue
            self.declared(rep, "class", q, self.ctx.at(cc.module, cc.node, q),
                          lambda rc=rc, cc=cc: diff_class(ra, ca, rc, cc))
        owners = {o for o, _ in done if o in self.d.ref.classes}
        for b in prop.get("hooks", ()):
            owners |= {q for q in self.d.ref.classes if self.d.ref.is_subclass(q, b)}
        for q in sorted(owners | set(self.class_list(prop.get("classes")))):
            rc, cc = self.d.ref.classes.get(q), self.d.cur.classes.get(q)
            if rc is not None and cc is not None:
                self.declared(rep, "hooks", q, self.ctx.at(cc.module, cc.node, q),
                              lambda rc=rc, cc=cc: new_hooks(ra, ca, rc, cc))
        for m in prop.get("modules", ()):
            rm, cm = self.d.ref.modules[m], self.d.cur.modules.get(m)
            if cm is None:
                rep.findings.append({"id": f"module:{m}", "rule": "declared as required", "where": m,
                                     "text": "the module is gone"})
                rep.items.append(("module", m, "registrations", False, "violation", {}))
                continue
            self.declared(rep, "module", m, os.path.relpath(cm.path, self.d.repo),
                          lambda rm=rm, cm=cm: diff_module(ra, ca, rm, cm)[0])
        for r in prop.get("rules", ()):
            rep.rules.append(r)
            got = self.guarded(rep, "rule", r, lambda r=r: RULES[r](self.ctx))
            if got is None:
                continue
            findings, seen = got
            bad = {f[0] for f in findings}
            for s in seen:
                rep.items.append(("rule", s, r, True, "checked", {}))
            if not seen:
                rep.undecided.append(f"rule {r}: none of the constructs it is about exist any more")
            for i, where, text in findings:
                rep.findings.append({"id": i, "rule": r, "where": where, "text": text})
        if tier == "thorough":
            self.closure(rep, done)
        return rep

    def declared(self, rep, kind, q, where, fn):
        diffs = self.guarded(rep, kind, q, fn)
        if diffs is None:
            return
        bad = [x for x in diffs if x.decided]
        und = [x for x in diffs if not x.decided]
        status = "violation" if bad else "undecided" if und else "ok"
        rep.items.append((kind, q, {"class": "declarations", "hooks": "no new special methods or validators"}.get(
                              kind, "registrations"),
                          not diffs, status, {"at": where}))
        for x in bad:
            rep.findings.append({"id": f"{kind}:{q}:{x.text.split(' is ')[0][:80]}",
                                 "rule": "declared as required", "where": where, "text": x.text})
        for x in und:
            rep.undecided.append(f"{where}: {x.text}")

    def closure(self, rep, done):
        """Thorough: functions the obligations call, directly or not, by name in the reference."""
        import ast
        r = self.d.ref
        by_name = {}
        for f in r.funcs.values():
            if "vendored" not in f.qual:
                by_name.setdefault(f.name, []).append(f)
        todo = [r.find_method(o, n) if o in r.classes else r.funcs.get(f"{o}.{n}") for o, n in done]
        seen = {f.qual for f in todo if f is not None}
        todo = [f for f in todo if f is not None]
        while todo:
            f = todo.pop()
            for n in ast.walk(f.node):
                name = n.attr if isinstance(n, ast.Attribute) else getattr(n, "id", None)
                for g in by_name.get(name, ()):
                    if g.qual in seen or len(by_name[name]) > 8 or name.startswith("__"):
                        continue
                    seen.add(g.qual)
                    todo.append(g)
                    owner = g.qual.rpartition(".")[0]
                    res = self.guarded(rep, "callee", g.qual, lambda: self.d.check(owner, g.name))
                    if res is None:
                        continue
                    rep.items.append(("callee", g.qual, "summary equal to the reference",
                                      res.status in ("ok", "inlined"), res.status, {}))
                    if res.status == "violation":
                        rep.undecided.append(
                            f"{g.qual} ({res.where}), used by an obligation, deviates from the "
                            f"reference: " + "; ".join(str(x.text) for x in res.diffs[:3]))
