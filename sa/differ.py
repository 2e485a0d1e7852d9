"""Obligations: functions of the current tree against the reviewed reference model."""
from __future__ import annotations

import ast
import os
import signal
import time
from contextlib import contextmanager

from .compare import Diff, clip, diff_tables, hard, tabulate
from .engine import Evaluator
from .engine_base import Frame, St, TooComplex
from .facts import ann_term
from .model import Program
from .terms import Canon, Classes, T, const, glob, show, walk

PROPS = ("property", "cached_property")
CACHES = ("lru_cache", "cache")
# calls whose answer may differ from one time to the next; attributes that registration fills
OUTSIDE = ("open", "glob", "iglob", "rglob", "info", "exists", "stat", "listdir", "walk", "ls",
           "check_output", "getenv", "now", "utcnow", "time", "getmtime", "getsize", "read_bytes",
           "read_text", "isfile", "is_file")
REGISTRIES = ("_by_python_type_", "_by_type_", "_adapter_by_key", "environ", "_snapshot_tags")


class Result:
    """Outcome of one obligation."""

    def __init__(self, key, status, where="", diffs=(), note="", stats=None, hooks=()):
        self.hooks = hooks
        self.key, self.status, self.where = key, status, where
        self.diffs, self.note, self.stats = list(diffs), note, stats or {}


def deco_name(d):
    t = d.func if isinstance(d, ast.Call) else d
    return t.attr if isinstance(t, ast.Attribute) else getattr(t, "id", ast.unparse(t))


def is_accessor(f):
    """A property that only returns an attribute path of its object."""
    if not f.is_property or f.deco("cached_property"):
        return False
    body = [s for s in f.node.body
            if not (isinstance(s, ast.Expr) and isinstance(s.value, ast.Constant))]
    if len(body) != 1 or not isinstance(body[0], ast.Return):
        return False
    v = body[0].value
    parts = [v]
    if isinstance(v, ast.JoinedStr):
        parts = [x.value for x in v.values if isinstance(x, ast.FormattedValue)]
    return all(map(is_path, parts))


def is_sequence(f):
    """A method that only calls other methods of its object with its own parameters."""
    if f.cls is None or f.node.decorator_list:
        return False
    body = [s for s in f.node.body
            if not (isinstance(s, ast.Expr) and isinstance(s.value, ast.Constant))]
    return len(body) > 1 and all(
        isinstance(s, ast.Expr) and isinstance(s.value, ast.Call) and not s.value.keywords and
        isinstance(s.value.func, ast.Attribute) and isinstance(s.value.func.value, ast.Name) and
        s.value.func.value.id == "self" and all(isinstance(a, ast.Name) for a in s.value.args)
        for s in body)


def is_path(v):
    while isinstance(v, ast.Attribute):
        v = v.value
    return isinstance(v, ast.Name)


class Differ:
    per_function = 30
    total = 500

    def __init__(self, ref_root, cur_root, repo="/repo"):
        self.ref, self.cur, self.repo = Program(ref_root), Program(cur_root), repo
        self.deadline = time.monotonic() + self.total
        r = self.ref
        inv = set(r.funcs) | set(r.classes)
        for m in r.modules.values():
            inv |= {f"{m.name}.{v}" for v in (*m.vars, *m.type_aliases)}
        # methods by every class that has them (the owner may move along the hierarchy)
        names = {f.name for f in r.funcs.values()}
        cur_inv = set(inv)
        for q, f in self.cur.funcs.items():
            if f.cls is not None and q not in inv and f.name in names:
                # a known method moved to / overridden in another class
                for other in r.funcs.values():
                    if other.name == f.name and other.cls is not None:
                        oc = other.cls.qual
                        if self.cur.is_subclass(oc, f.cls.qual) or (
                                self.cur.is_subclass(f.cls.qual, oc)):
                            cur_inv.add(q)
                            break
        self.inventory, self.cur_inventory = inv, cur_inv
        virtual = set()
        for p in (self.ref, self.cur):
            for c in r.classes:
                if c not in p.classes:
                    continue
                for b in p.mro(c):
                    k = p.classes.get(b)
                    for n in (k.methods if k else ()):
                        if p.overridden_below(c, n):
                            virtual.add(f"{c}.{n}")
        deep = {q for q, f in r.funcs.items()
                if not f.name.startswith("__") and "vendored" not in q}
        acc = {q for q, f in r.funcs.items() if is_accessor(f)}
        self.configs = []
        seqs = {q for q, f in r.funcs.items() if is_sequence(f)}
        for extra in (seqs, deep):
            a = Evaluator(self.ref, inv, names, virtual, always_inline=extra, accessors=acc)
            b = Evaluator(self.cur, cur_inv, names, virtual, always_inline=extra, accessors=acc)
            self.configs.append((a, b))
        self.tabs = {}

    # -- locating --------------------------------------------------------------------------------

    def where(self, f):
        p = os.path.relpath(f.module.path, self.repo)
        return f"{p}:{f.node.lineno} {f.qual}"

    def locate(self, p, owner, name, ref_func=None):
        """The function implementing obligation (owner, name) in program p."""
        if owner in p.classes:
            f = p.find_method(owner, name)
            if f is not None:
                return f
            if ref_func is not None:
                # validators may be renamed: same decorator
                ds = [ast.unparse(d) for d in ref_func.node.decorator_list]
                if any("validator" in d or "serializer" in d for d in ds):
                    for q in p.mro(owner):
                        c = p.classes.get(q)
                        for g in (c.methods.values() if c else ()):
                            if [ast.unparse(d) for d in g.node.decorator_list] == ds:
                                return g
            return None
        q = f"{owner}.{name}"
        if q in p.funcs:
            return p.funcs[q]
        if ref_func is not None:
            # registered implementations are found by their registration
            ds = [deco_name(d) for d in ref_func.node.decorator_list]
            if any(d.startswith("register") for d in ds):
                cands = [f for f in p.funcs.values() if f.module.name == owner and f.cls is None and
                         [deco_name(d) for d in f.node.decorator_list] == ds]
                if len(cands) == 1:
                    return cands[0]
        # re-exported or moved to another module
        m = p.modules.get(owner)
        if m is not None:
            r = p.resolve_name(m, name)
            if r in p.funcs:
                return p.funcs[r]
        cands = [f for f in p.funcs.values() if f.cls is None and f.name == name]
        if len(cands) == 1:
            return cands[0]
        return None

    @contextmanager
    def limited(self):
        """Bounds the time spent on one function; beyond it the function is left undecided."""
        left = min(self.per_function, self.deadline - time.monotonic())
        if left <= 0:
            raise TooComplex("no time left")

        def stop(*_):
            raise TooComplex("time")
        old = signal.signal(signal.SIGALRM, stop)
        signal.setitimer(signal.ITIMER_REAL, left, 1)
        try:
            yield
        finally:
            signal.setitimer(signal.ITIMER_REAL, 0)
            signal.signal(signal.SIGALRM, old)

    def table(self, ev, f, self_cls, extra_defaults=()):
        k = (id(ev), f.qual, self_cls, tuple(extra_defaults))
        if k not in self.tabs:
            try:
                with self.limited():
                    s = ev.summary(f, self_cls, extra_defaults)
                    canon = Canon(Classes(ev.p), ev.t)
                    t = tabulate(s, canon)
                t.steps = ev.steps
                t.hooks = ev.hooks
                t.cached = dict(ev.cached)
                self.tabs[k] = (t, canon)
            except (TooComplex, RecursionError) as e:
                self.tabs[k] = (None, str(e) or type(e).__name__)
        return self.tabs[k]

    # -- one obligation --------------------------------------------------------------------------

    def check(self, owner, name, fresh=False):
        key = f"{owner}.{name}"
        r = self.locate(self.ref, owner, name)
        if r is None:
            return Result(key, "broken", note="not in the reference model")
        rcls = owner if owner in self.ref.classes else None
        cls_moved = owner
        if rcls is not None and owner not in self.cur.classes:
            cands = [c for c in self.cur.classes.values() if c.name == owner.rsplit(".", 1)[-1]]
            if len(cands) != 1:
                return Result(key, "violation", owner, [Diff(
                    "missing", f"class {owner} is gone", True)])
            cls_moved = cands[0].qual
        c = self.locate(self.cur, cls_moved, name, r)
        if c is None:
            if name.startswith("_") and not name.startswith("__") and not any(
                    "validator" in d or "serializer" in d or "register" in d for d in r.decorators):
                if self.still_used(cls_moved, name):
                    return Result(key, "violation", cls_moved, [Diff(
                        "missing", f"{key} is gone, but still used", True)])
                return Result(key, "inlined", note="private helper no longer exists; its callers are "
                                                   "compared with it inlined")
            return Result(key, "violation", cls_moved, [Diff(
                "missing", f"{key} is gone", True)])
        where = self.where(c)
        diffs = self.signature(r, c)
        extra = self.extra_params(r, c)
        best = None
        notes = []
        stats, hooks, cached = {}, set(), {}
        for a, b in self.configs:
            tr, canon = self.table(a, r, rcls)
            tc, canon2 = self.table(b, c, cls_moved if rcls else None, extra)
            if tr is None:
                notes.append(f"reference too complex: {canon}")
                continue
            if tc is None:
                notes.append(f"too complex: {canon2}")
                continue
            stats = {"paths": tc.paths, "returns": len(tc.returns), "raises": len(tc.raises),
                     "effects": len(tc.events)}
            hooks |= tc.hooks
            cached.update(tc.cached)
            try:
                with self.limited():
                    d = diff_tables(tr, tc, canon)
            except (TooComplex, RecursionError) as e:
                notes.append(f"comparison too complex: {e}")
                continue
            if best is None or score(d) < score(best):
                best = d
            if not d:
                break
        if best is None:
            return Result(key, "undecided", where, diffs, "; ".join(notes), stats)
        diffs += best
        diffs += self.decorators(r, c, fresh)
        for f in cached.values():
            x = self.volatile(f)
            if x:
                diffs.append(Diff("decorator", f"relies on {f.qual}, whose result is now cached, but "
                                               f"that depends on state that changes ({x})", True))
        if not diffs:
            return Result(key, "ok", where, stats=stats, hooks=hooks)
        sig = [d for d in diffs if d.what in ("signature", "decorator")]
        und = [d for d in diffs if not d.decided]
        if und and not sig:
            # part of the function is not understood: nothing is concluded from the rest either
            return Result(key, "undecided", where, diffs, "contains constructs outside the model",
                          stats)
        return Result(key, "violation", where, [d for d in diffs if d.decided], stats=stats)

    def still_used(self, owner, name):
        """Whether the class (or one derived from it) uses its attribute that is defined nowhere."""
        if owner not in self.cur.classes or self.cur.find_attr(owner, name) is not None:
            return False
        for c in self.cur.classes.values():
            if owner not in self.cur.mro(c.qual) or self.cur.find_method(c.qual, name) is not None \
                    or self.cur.find_attr(c.qual, name) is not None:
                continue
            for x in ast.walk(c.node):
                if isinstance(x, ast.Attribute) and x.attr == name and isinstance(
                        x.value, ast.Name) and x.value.id in ("self", "cls"):
                    return True
        return False

    def params(self, f):
        a = f.node.args
        pos = [*a.posonlyargs, *a.args]
        d = dict(zip([p.arg for p in pos[len(pos) - len(a.defaults):]], a.defaults))
        d.update({p.arg: x for p, x in zip(a.kwonlyargs, a.kw_defaults) if x is not None})
        return pos, a.kwonlyargs, d

    def extra_params(self, r, c):
        rp, rk, _ = self.params(r)
        cp, ck, cd = self.params(c)
        known = {p.arg for p in (*rp, *rk)}
        return tuple(p.arg for p in (*cp, *ck) if p.arg not in known and p.arg in cd)

    def signature(self, r, c):
        rp, rk, rd = self.params(r)
        cp, ck, cd = self.params(c)
        out = []
        first = 1 if r.cls is not None and not r.is_static else 0
        rn, cn = [p.arg for p in rp[first:]], [p.arg for p in cp[first:]]
        rkn, ckn = [p.arg for p in rk], [p.arg for p in ck]
        private = r.name.startswith("_") and not r.name.startswith("__")
        magic = r.name.startswith("__") and r.name not in ("__init__", "__call__", "__new__")
        if any("validator" in d or "serializer" in d for d in r.decorators) or private or magic:
            if len(rn) == len(cn) and rn != cn:
                return [Diff("signature", "renamed", True)] if False else []
        allc = set(cn) | set(ckn)
        for n in (*rn, *rkn):
            if n not in allc and not r.node.args.kwarg and not c.node.args.kwarg:
                out.append(Diff("signature", f"parameter {n!r} is gone", True))
            elif n in allc and (n in rd) != (n in cd):
                out.append(Diff("signature", f"parameter {n!r} " + (
                    "is now required" if n in rd else "is now optional"), n in rd))
            elif n in rd and n in cd and not self.same_default(r, c, rd[n], cd[n]):
                out.append(Diff("signature", f"default of {n!r} is {ast.unparse(cd[n])}; required: "
                                             f"{ast.unparse(rd[n])}", True))
        for n in (*cn, *ckn):
            if n not in rn and n not in rkn and n not in cd:
                if not out:
                    out.append(Diff("signature", f"new required parameter {n!r}", True))
        common = [n for n in cn if n in rn]
        if [n for n in rn if n in cn] != common:
            out.append(Diff("signature", f"positional parameters are {cn}; required: {rn}", True))
        return [d for d in out if d.decided]

    def same_default(self, r, c, a, b):
        def val(ev, f, n):
            try:
                return ev.freeze(ev.ev(n, St({}), Frame(f.module))[0][1])
            except TooComplex:
                return ast.dump(n)
        ea, eb = self.configs[0]
        return Canon().term(val(ea, r, a)) == Canon().term(val(eb, c, b))

    def annotations(self, ev, f):
        a = f.node.args
        out = {}
        for p in (*a.posonlyargs, *a.args, *a.kwonlyargs):
            if p.annotation is not None:
                out[p.arg] = Canon().term(ann_term(ev, f.module, p.annotation))
        return out

    def volatile(self, f):
        """State that changes over time which the function reads, itself or through what it calls."""
        seen, todo = set(), [f]
        while todo:
            g = todo.pop()
            if g.qual in seen or len(seen) > 200:
                continue
            seen.add(g.qual)
            for n in ast.walk(g.node):
                if isinstance(n, ast.Attribute) and n.attr in REGISTRIES:
                    return n.attr
                if not isinstance(n, ast.Call):
                    continue
                x = n.func
                name = x.id if isinstance(x, ast.Name) else getattr(x, "attr", None)
                if name in OUTSIDE and "log" not in ast.unparse(x):
                    return name
                if isinstance(x, ast.Attribute):
                    todo += self.cur.methods_by_name.get(name, ())
                q = self.cur.resolve_expr(g.module, x)
                if q in self.cur.funcs:
                    todo.append(self.cur.funcs[q])
        return None

    def decorators(self, r, c, fresh):
        out = []

        def kind(f):
            names = [deco_name(d) for d in f.node.decorator_list]
            k = set()
            for n in names:
                if n in PROPS:
                    k.add("property")
                elif n in ("classmethod", "staticmethod", "classproperty", "abstractmethod",
                           "contextmanager", "field_component", "register_reader",
                           "register_writer", "multipledispatch", "computed_field"):
                    k.add(n)
                elif n.endswith(("validator", "serializer")):
                    d = f.node.decorator_list[names.index(n)]
                    k.add(ast.unparse(d))
                elif n == "register":
                    k.add(ast.unparse(f.node.decorator_list[names.index(n)]))
            return k, [n for n in names if n in CACHES or n == "cached_property"]
        (ka, ca), (kb, cb) = kind(r), kind(c)
        for x in sorted(ka - kb):
            out.append(Diff("decorator", f"no longer decorated with {x}", True))
        for x in sorted(kb - ka):
            out.append(Diff("decorator", f"now decorated with {x}", True))
        if any(x.startswith("register") or x == "multipledispatch" for x in ka):
            ra, ca_ = self.annotations(self.configs[0][0], r), self.annotations(self.configs[0][1], c)
            for n in sorted(ra):
                if n in ca_ and ca_[n] != ra[n] and not (hard(ca_[n]) - hard(ra[n])):
                    out.append(Diff("signature", f"registered for {n}: {clip(show(ca_[n]), 200)}; "
                                                 f"required: {clip(show(ra[n]), 200)}", True))
        if set(cb) - set(ca):
            a = c.node.args
            for p in (*a.posonlyargs, *a.args, *a.kwonlyargs):
                t = ast.unparse(p.annotation) if p.annotation is not None else ""
                if t.split("[")[0] in ("dict", "list", "set", "MutableMapping", "MutableSequence"):
                    out.append(Diff("decorator", f"result is now cached, but {p.arg} ({t}) cannot be "
                                                 f"hashed", True))
        if fresh:
            for x in cb:
                if x not in ca:
                    out.append(Diff("decorator", f"result is now cached ({x}), but it depends on "
                                                 f"state that changes", True))
        return out


def score(diffs):
    return (sum(1 for d in diffs if d.decided), len(diffs))
