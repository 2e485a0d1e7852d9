"""Structural rules over every class and call site of the current tree.

Each rule gives (findings, checked): findings as (construct id, where, text), checked as a list of the
constructs that were decided.
"""
from __future__ import annotations

import ast
import os

from .compare import hard
from .terms import show, walk

MODEL = "arti.internal.models.Model"
EXCLUDED = {("arti.artifacts.Artifact", "producer_output"), ("arti.producers.Producer", "annotations"),
            ("arti.types.Type", "description"), ("arti.graphs.Graph", "backend")}


class Ctx:
    def __init__(self, differ):
        self.d, self.ref, self.cur = differ, differ.ref, differ.cur
        self.rev, self.cev = differ.configs[0]

    def at(self, module, node, what):
        p = os.path.relpath(module.path, self.d.repo)
        return f"{p}:{getattr(node, 'lineno', 1)} {what}"

    def models(self, p=None):
        p = p or self.cur
        return [c for q, c in sorted(p.classes.items()) if p.is_subclass(q, MODEL)]


def field_calls(ctx, c):
    """(field, Field(...) call) of a class, also inside Annotated."""
    for n, a in c.annotations.items():
        for node in (c.attrs.get(n), a):
            if node is None:
                continue
            for x in ast.walk(node):
                if isinstance(x, ast.Call) and (ctx.cur.resolve_expr(c.module, x.func) or "").endswith(
                        ("pydantic.Field", "pydantic.fields.Field")):
                    yield n, x


def exclusions(ctx):
    """Only the documented fields are left out of the serialised form, in any model class."""
    out, seen = [], []
    for c in ctx.models():
        for n, call in field_calls(ctx, c):
            for k in call.keywords:
                if k.arg == "exclude":
                    seen.append(f"{c.qual}.{n}")
                    on = not (isinstance(k.value, ast.Constant) and not k.value.value)
                    base = next((q for q in ctx.cur.mro(c.qual) if (q, n) in EXCLUDED), None)
                    if on and base is None:
                        out.append((f"excluded:{c.qual}.{n}", ctx.at(c.module, call, f"{c.qual}.{n}"),
                                    "field is excluded from serialisation and thus from the fingerprint"))
        for n, a in c.annotations.items():
            for x in (y for node in (a, c.attrs.get(n)) if node is not None for y in ast.walk(node)):
                if isinstance(x, ast.Call) and (ctx.cur.resolve_expr(c.module, x.func) or "").endswith(
                        ".SkipFingerprint"):
                    seen.append(f"{c.qual}.{n}")
                    off = x.args and isinstance(x.args[0], ast.Constant) and not x.args[0].value
                    if not off and not any((q, n) in EXCLUDED for q in ctx.cur.mro(c.qual)):
                        out.append((f"skipped:{c.qual}.{n}", ctx.at(c.module, x, f"{c.qual}.{n}"),
                                    "field is left out of the fingerprint"))
        rc = ctx.ref.classes.get(c.qual)
        for m, f in c.methods.items():
            ser = [d for d in f.decorators if "serializer" in d]
            special = m in ("fingerprint", "_arti_fingerprint_fields_", "model_dump", "model_dump_json",
                            "__get_pydantic_core_schema__")
            if not ser and not special:
                continue
            seen.append(f"{c.qual}.{m}")
            if rc is None or m in rc.methods:
                continue
            if ser and any(set(d for d in g.decorators if "serializer" in d) == set(ser)
                           for g in rc.methods.values()):
                continue
            inherited = ctx.ref.find_method(c.qual, m)
            if inherited is not None:
                continue        # compared as an override
            out.append((f"serialiser:{c.qual}.{m}", ctx.at(f.module, f.node, f.qual),
                        "new serialisation hook changes the text a fingerprint covers"))
    return out, seen


MUTATORS = {"__setitem__", "__delitem__", "update", "pop", "popitem", "clear", "setdefault", "__ior__",
            "__setattr__", "__delattr__"}


def frozen(ctx):
    """No model class relaxes the frozen configuration; the frozen mapping has no mutators."""
    out, seen = [], []
    for c in ctx.models():
        seen.append(c.qual)
        cfg = c.attrs.get("model_config")
        if cfg is None:
            if c.qual == MODEL:
                out.append((f"frozen:{c.qual}", ctx.at(c.module, c.node, c.qual),
                            "the base model has no configuration: models are not frozen"))
        else:
            kv = {}
            if isinstance(cfg, ast.Call):
                kv = {k.arg: k.value for k in cfg.keywords if k.arg}
            elif isinstance(cfg, ast.Dict):
                kv = {k.value: v for k, v in zip(cfg.keys, cfg.values) if isinstance(k, ast.Constant)}
            for key, want in (("frozen", True), ("extra", "forbid")):
                v = kv.get(key)
                if v is None:
                    continue
                if isinstance(v, ast.Constant) and v.value != want:
                    out.append((f"{key}:{c.qual}", ctx.at(c.module, v, c.qual),
                                f"{key}={v.value!r} in the model configuration; required: {want!r}"))
            for key in ("validate_assignment", "populate_by_name", "arbitrary_types_allowed"):
                pass
        for k in c.node.keywords:
            if k.arg in ("frozen", "extra") and isinstance(k.value, ast.Constant):
                want = True if k.arg == "frozen" else "forbid"
                if k.value.value != want:
                    out.append((f"{k.arg}:{c.qual}", ctx.at(c.module, k.value, c.qual),
                                f"class argument {k.arg}={k.value.value!r}; required: {want!r}"))
        for m in ("__setattr__", "__delattr__"):
            if m in c.methods and not (ctx.ref.classes.get(c.qual) and
                                       m in ctx.ref.classes[c.qual].methods):
                out.append((f"{m}:{c.qual}", ctx.at(c.module, c.methods[m].node, f"{c.qual}.{m}"),
                            "overrides attribute assignment of a frozen model"))
        for n, call in field_calls(ctx, c):
            for k in call.keywords:
                if k.arg == "frozen" and isinstance(k.value, ast.Constant) and not k.value.value:
                    out.append((f"frozen:{c.qual}.{n}", ctx.at(c.module, call, f"{c.qual}.{n}"),
                                "field is declared not frozen"))
    fd = ctx.cur.classes.get("arti.internal.mappings.frozendict")
    if fd is None:
        cands = [c for c in ctx.cur.classes.values() if c.name == "frozendict"]
        fd = cands[0] if cands else None
    if fd is not None:
        seen.append(fd.qual)
        for q in ctx.cur.mro(fd.qual):
            k = ctx.cur.classes.get(q)
            for m in (k.methods if k else ()):
                if m in MUTATORS:
                    out.append((f"mutator:{q}.{m}", ctx.at(k.module, k.methods[m].node, f"{q}.{m}"),
                                "the frozen mapping has a mutating method"))
        for q in ctx.cur.mro(fd.qual):
            if q in ("builtins.dict", "collections.abc.MutableMapping", "collections.UserDict",
                     "typing.MutableMapping"):
                out.append((f"base:{fd.qual}", ctx.at(fd.module, fd.node, fd.qual),
                            f"the frozen mapping derives from the mutable {q}"))
    return out, seen


def input_fingerprint(ctx):
    """Content fingerprints of different inputs must not be interchangeable."""
    f = ctx.cur.find_method("arti.producers.Producer", "compute_input_fingerprint")
    if f is None:
        return [], []
    tab, _ = ctx.d.table(ctx.cev, f, "arti.producers.Producer")
    out = []
    if tab is not None:
        for k in tab.returns:
            for t in walk(k):
                if t[0] == "xor":
                    for x in walk(t):
                        if x[0] in ("comp", "seq", "set") and "content_fingerprint" in repr(x) and \
                                "from_string" not in repr(x):
                            out.append(("xor-of-bare-content:arti.producers.Producer."
                                        "compute_input_fingerprint", ctx.d.where(f),
                                        "content fingerprints of the inputs are combined by a bare xor: "
                                        "two inputs of equal content cancel out, and swapping the contents "
                                        "of two inputs is not seen"))
                            return out, [f.qual]
    return out, [f.qual]


# -- writers ---------------------------------------------------------------------------------------


def registered(ctx, which):
    out = []
    for q, f in sorted(ctx.cur.funcs.items()):
        for d in f.node.decorator_list:
            r = ctx.cur.resolve_expr(f.module, d) or ""
            u = ast.unparse(d)
            if r.endswith(f"register_{which}") or u.endswith(f"register_{which}") or \
                    u.endswith(("_write" if which == "writer" else "_read") + ".register"):
                out.append(f)
    return out


SERIALISERS = ("json.dump", "json.dumps", "pickle.dump", "pickle.dumps", "json.JSONEncoder",
               "pickle.Pickler", "marshal.dump", "marshal.dumps")


class Steps(ast.NodeVisitor):
    """Serialisation after opening for writing, in evaluation order; repository helpers followed."""

    def __init__(self, ctx, f, depth=0, opened=False):
        self.ctx, self.f, self.depth, self.opened, self.bad, self.opens = ctx, f, depth, opened, [], 0
        self.hidden = set()

    def run(self, body):
        for s in body:
            self.visit(s)

    def visit_FunctionDef(self, n):
        pass

    visit_AsyncFunctionDef = visit_ClassDef = visit_Lambda = visit_FunctionDef

    def branch(self, bodies):
        start, ends = self.opened, []
        for b in bodies:
            self.opened = start
            self.run(b)
            ends.append(self.opened)
        self.opened = any(ends) or start

    def visit_If(self, n):
        self.visit(n.test)
        self.branch([n.body, n.orelse])

    def visit_Match(self, n):
        self.visit(n.subject)
        self.branch([c.body for c in n.cases])

    def visit_With(self, n):
        for i in n.items:
            self.visit(i.context_expr)
        self.run(n.body)

    def visit_Call(self, n):
        self.generic_visit(n)
        q = self.ctx.cur.resolve_expr(self.f.module, n.func) or ""
        name = n.func.attr if isinstance(n.func, ast.Attribute) else getattr(n.func, "id", "")
        if any(q == s or q.startswith(s + ".") for s in SERIALISERS):
            if self.opened:
                self.bad.append((self.f, n, q))
        if name == "open" and writes(n, isinstance(n.func, ast.Attribute)):
            self.opened = True
            self.opens += 1
        g = self.ctx.cur.funcs.get(q)
        if g is None and isinstance(n.func, ast.Name):
            g = None
        if g is not None and self.depth < 6 and g.qual.startswith("arti.io"):
            sub = Steps(self.ctx, g, self.depth + 1, self.opened)
            sub.run(g.node.body)
            self.bad += [(self.f, n, b[2]) for b in sub.bad]
            self.opens += sub.opens
            # a context manager helper, or one that leaves the file open
            self.opened = self.opened or sub.opened


def writes(call, method):
    args = [a for a in call.args if isinstance(a, ast.Constant) and isinstance(a.value, str)]
    for k in call.keywords:
        if k.arg == "mode" and isinstance(k.value, ast.Constant):
            args.append(k.value)
    return any(isinstance(a.value, str) and set(a.value) <= set("rwaxbt+") and set(a.value) & set("wax+")
               for a in args if isinstance(a, ast.Constant))


def serialise_first(ctx):
    """In every registered writer serialisation happens before the destination is opened."""
    out, seen = [], []
    for f in registered(ctx, "writer"):
        s = Steps(ctx, f)
        s.run(f.node.body)
        seen.append(f"{f.qual} ({s.opens} opens)")
        for g, n, q in s.bad:
            out.append((f"serialise:{f.qual}", ctx.at(g.module, n, f.qual),
                        f"{q} runs after the destination was opened for writing: failing data leaves "
                        f"a truncated file"))
    return out, seen


def in_place(ctx):
    """Local writers replace the destination, instead of rewriting it in place."""
    out, seen = [], []
    for f in registered(ctx, "writer"):
        if "localfile" not in f.module.name:
            continue
        s = Steps(ctx, f)
        s.run(f.node.body)
        seen.append(f.qual)
        names = {n.attr for n in ast.walk(f.node) if isinstance(n, ast.Attribute)}
        if s.opens and not names & {"replace", "rename"}:
            anns = ctx.d.annotations(ctx.cev, f)
            kind = "/".join(show(anns[n]).rsplit(".", 1)[-1] for n in ("format", "storage_partition")
                            if n in anns)
            out.append((f"in-place:{kind or f.qual}", ctx.d.where(f),
                        "rewrites the destination in place: a crash during the write leaves a truncated "
                        "file that is later taken for a complete one"))
    return out, seen


INVERSE = {"json": "json", "pickle": "pickle"}


def used_serialisers(ctx, f, depth=0, seen=None):
    seen = seen if seen is not None else set()
    out = set()
    if f.qual in seen or depth > 5:
        return out
    seen.add(f.qual)
    for n in ast.walk(f.node):
        if isinstance(n, (ast.Name, ast.Attribute)):
            q = ctx.cur.resolve_expr(f.module, n) or ""
            head, _, tail = q.rpartition(".")
            if head in ("json", "pickle", "marshal") and tail in ("dump", "dumps", "load", "loads"):
                out.add((head, tail[:4]))
            g = ctx.cur.funcs.get(q)
            if g is not None and g.qual.startswith("arti.io"):
                out |= used_serialisers(ctx, g, depth + 1, seen)
    return out


def io_pairs(ctx):
    """Readers and writers come in pairs for the same kinds, with inverse serialisers."""
    out, seen = [], []
    table = {}
    for which in ("reader", "writer"):
        for f in registered(ctx, which):
            anns = ctx.d.annotations(ctx.cev, f)
            a = f.node.args
            kinds = []
            for p in (*a.posonlyargs, *a.args, *a.kwonlyargs):
                t = anns.get(p.arg)
                if p.arg in ("data",) or t is None:
                    continue
                if t[0] == "i" and t[1] == ("g", "collections.abc.Sequence"):
                    t = t[2][1]
                kinds.append(show(t).replace("tuple(", "").replace(")", ""))
            key = tuple(kinds)
            seen.append(f.qual)
            table.setdefault(key, {})[which] = f
            use = used_serialisers(ctx, f)
            want = "load" if which == "reader" else "dump"
            for mod, verb in sorted(use):
                if verb != want:
                    out.append((f"serialiser:{f.qual}", ctx.d.where(f),
                                f"a {which} uses {mod}.{verb}"))
    for key, fs in sorted(table.items()):
        if set(fs) != {"reader", "writer"}:
            f = next(iter(fs.values()))
            other = "writer" if "reader" in fs else "reader"
            out.append((f"unpaired:{f.qual}", ctx.d.where(f),
                        f"no {other} is registered for {', '.join(key)}"))
            continue
        r = {m for m, _ in used_serialisers(ctx, fs["reader"])}
        w = {m for m, _ in used_serialisers(ctx, fs["writer"])}
        if r and w and r != w:
            out.append((f"inverse:{fs['reader'].qual}", ctx.d.where(fs["reader"]),
                        f"reads with {sorted(r)} what {fs['writer'].qual} writes with {sorted(w)}"))
    return out, seen


# -- type systems ----------------------------------------------------------------------------------

ADAPTER = "arti.types.TypeAdapter"
# The systems that can mark a nested value as (not) nullable.
NULLABLE = ("arti.types.bigquery", "arti.types.pydantic", "arti.types.pyarrow", "arti.types.python")


def reads_nullable(ctx, f, cls, depth=0, seen=None):
    """Whether a conversion looks at `.nullable`, in itself or in what it calls in its module."""
    seen = seen if seen is not None else set()
    if f is None or f.qual in seen or depth > 6:
        return False
    seen.add(f.qual)
    for n in ast.walk(f.node):
        if isinstance(n, ast.Attribute) and n.attr in ("nullable", "is_nullable"):
            return True
        if isinstance(n, ast.keyword) and n.arg == "nullable":
            return True
        if not isinstance(n, (ast.Name, ast.Attribute)):
            continue
        g = None
        if isinstance(n, ast.Attribute) and isinstance(n.value, ast.Name) and n.value.id in ("cls", "self"):
            g = ctx.cur.find_method(cls, n.attr)
        elif isinstance(n, ast.Attribute) and ast.unparse(n.value) == "super()":
            owner = f.cls.qual if f.cls else cls
            after = ctx.cur.mro(owner)[1:]
            g = next((ctx.cur.classes[b].methods[n.attr] for b in after
                      if b in ctx.cur.classes and n.attr in ctx.cur.classes[b].methods), None)
        else:
            g = ctx.cur.funcs.get(ctx.cur.resolve_expr(f.module, n) or "")
        if g is not None and g.module is f.module and reads_nullable(ctx, g, cls, depth + 1, seen):
            return True
    return False


def nested_nullability(ctx):
    """An adapter of a type with parts carries the nullability of the parts.

    Either every adapter of the system carries its own (the leaves do), or one adapter claims all
    nullable types, or the adapter converting the parts looks at it.
    """
    out, seen = [], []
    for m in NULLABLE:
        mod = ctx.cur.modules.get(m)
        if mod is None:
            continue
        cs = [c for q, c in sorted(ctx.cur.classes.items())
              if c.module is mod and ctx.cur.is_subclass(q, ADAPTER)]
        claims = any(
            "matches_artigraph" in c.methods and any(
                isinstance(n, ast.Attribute) and n.attr == "nullable"
                for n in ast.walk(c.methods["matches_artigraph"].node)) for c in cs)
        base = [c for c in cs if c.name.startswith("_") and "to_system" in c.methods]
        leaves = bool(base) and all(
            reads_nullable(ctx, c.methods[d], c.qual) for c in base for d in ("to_system", "to_artigraph")
            if d in c.methods)
        for c in cs:
            for d in ("to_system", "to_artigraph"):
                f = c.methods.get(d)
                if f is None or not any(
                        isinstance(n, ast.Attribute) and n.attr == d and isinstance(n.value, ast.Name)
                        and n.value.id == "type_system" for g in nest(ctx, f, c.qual)
                        for n in ast.walk(g.node)):
                    continue
                seen.append(f.qual)
                if not (claims or leaves or reads_nullable(ctx, f, c.qual)):
                    out.append((f"nullability:{f.qual}", ctx.d.where(f),
                                "the nullability of the converted parts is dropped"))
    return out, seen


def nest(ctx, f, cls):
    """A conversion and the functions of its class and module it calls."""
    out, todo = [], [f]
    while todo:
        g = todo.pop()
        if g in out:
            continue
        out.append(g)
        for n in ast.walk(g.node):
            if isinstance(n, ast.Attribute) and isinstance(n.value, ast.Name) and n.value.id == "cls":
                h = ctx.cur.find_method(cls, n.attr)
            elif isinstance(n, (ast.Name, ast.Attribute)):
                h = ctx.cur.funcs.get(ctx.cur.resolve_expr(g.module, n) or "")
            else:
                h = None
            if h is not None and h.module is f.module:
                todo.append(h)
    return out


# -- graphs ----------------------------------------------------------------------------------------


def cache_invalidation(ctx):
    """Every cached view of a graph is dropped when the graph is opened or sealed."""
    q = "arti.graphs.Graph"
    out, seen = [], []
    if q not in ctx.cur.classes:
        return out, seen
    cached = {}
    for b in ctx.cur.mro(q):
        k = ctx.cur.classes.get(b)
        for m, f in (k.methods if k else {}).items():
            if any("cached_property" in d for d in f.decorators):
                cached.setdefault(m, f)
    for entry in ("__enter__", "__exit__"):
        f = ctx.cur.find_method(q, entry)
        if f is None:
            continue
        tab, _ = ctx.d.table(ctx.cev, f, q)
        if tab is None:
            continue
        dropped, unclear = set(), False
        for k in tab.events:
            t = k[1]
            if hard(t, k[2]):
                unclear = True
            if "__dict__" in repr(t):
                if k[2]:
                    unclear = True
                if k[0] == "call" and t[1][0] == "a" and t[1][2] == "clear":
                    dropped |= set(cached)
                for x in walk(t):
                    if x[0] == "c" and isinstance(x[2], str):
                        dropped.add(x[2])
            if t[0] in ("setattr", "delattr") or "setattr" in t[0]:
                for x in walk(t):
                    if x[0] == "c" and x[2] in cached:
                        dropped.add(x[2])
        for n, g in sorted(cached.items()):
            seen.append(f"{entry}: {n}")
            if n not in dropped and not unclear and depends_on_artifacts(ctx, g, q):
                out.append((f"stale:{n}", ctx.d.where(g),
                            f"cached view {n!r} is not dropped by {f.qual}, so it stays stale"))
    return out, seen


def depends_on_artifacts(ctx, f, cls, depth=0):
    for n in ast.walk(f.node):
        if isinstance(n, ast.Attribute):
            if n.attr in ("artifacts", "artifact_to_key", "_artifact_to_key", "dependencies", "producers",
                          "producer_outputs", "fingerprint"):
                return True
            g = ctx.cur.find_method(cls, n.attr)
            if g is not None and g is not f and depth < 3 and depends_on_artifacts(
                    ctx, g, cls, depth + 1):
                return True
    return f.name == "fingerprint" or "model_dump" in ast.unparse(f.node)


# -- what a with statement acquires --------------------------------------------------------------------

ACQUIRES = ("connect", "open", "NamedTemporaryFile", "TemporaryDirectory", "TemporaryFile", "scandir",
            "ThreadPoolExecutor", "ProcessPoolExecutor", "named_temporary_file")
LAZY = ("map", "filter", "zip", "enumerate", "iter", "reversed")
CLOSED_OK = ("name", "closed", "mode")


def scopes(tree):
    """(function or module node, its own nodes without those of nested functions)"""
    todo = [tree]
    while todo:
        fn = todo.pop()
        own, stack = [], list(ast.iter_child_nodes(fn))
        while stack:
            n = stack.pop()
            own.append(n)
            if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef)):
                todo.append(n)
            else:
                stack.extend(ast.iter_child_nodes(n))
        yield fn, own


def callee(n):
    f = n.func if isinstance(n, ast.Call) else n
    return f.attr if isinstance(f, ast.Attribute) else getattr(f, "id", "")


def acquired(own):
    """(with statement, name bound, acquiring call)"""
    for w in own:
        if isinstance(w, ast.With):
            for i in w.items:
                if isinstance(i.optional_vars, ast.Name) and isinstance(i.context_expr, ast.Call) and \
                        callee(i.context_expr) in ACQUIRES:
                    yield w, i.optional_vars.id, i.context_expr


def inner(n):
    """Nodes below n in the same function (lambdas and comprehensions included)."""
    stack = [n]
    while stack:
        x = stack.pop()
        yield x
        if not isinstance(x, (ast.FunctionDef, ast.AsyncFunctionDef)):
            stack.extend(ast.iter_child_nodes(x))


def released(ctx):
    """Connections and files are used only inside of the with statement that acquired them."""
    out, seen = [], []
    for m in ctx.cur.modules.values():
        if "vendored" in m.name:
            continue
        for fn, own in scopes(m.tree):
            label = f"{m.name}.{getattr(fn, 'name', '')}".rstrip(".")
            lazy = any(isinstance(x, (ast.Yield, ast.YieldFrom)) for x in own)
            stores = {}
            for x in own:
                if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store):
                    stores.setdefault(x.id, []).append((x.lineno, x.col_offset))
            parents = {c: x for x in own for c in ast.iter_child_nodes(x)}
            for w, name, call in acquired(own):
                what = callee(call)
                seen.append(f"{label}: {what}")
                inside = set(inner(w))
                bound = next((i.optional_vars.lineno, i.optional_vars.col_offset) for i in w.items
                             if isinstance(i.optional_vars, ast.Name) and i.optional_vars.id == name)
                for x in own:
                    if not (isinstance(x, ast.Name) and x.id == name and isinstance(x.ctx, ast.Load)):
                        continue
                    up = parents.get(x)
                    if isinstance(up, ast.Attribute) and up.attr in CLOSED_OK or x in inside:
                        continue
                    at = (x.lineno, x.col_offset)
                    last = max((s for s in stores[name] if s < at), default=None)
                    if last == bound:
                        out.append((f"released:{label}:{what}", ctx.at(m, x, label),
                                    f"{name!r} is used after the block of {ast.unparse(call)} ended, "
                                    f"when it is closed already"))
                if lazy:
                    continue
                for r in inside:
                    v = r.value if isinstance(r, ast.Return) else None
                    if v is None:
                        continue
                    bad = isinstance(v, ast.Name) and v.id == name
                    if isinstance(v, (ast.GeneratorExp, ast.Lambda)):
                        bad = any(isinstance(y, ast.Name) and y.id == name for y in ast.walk(
                            v.elt if isinstance(v, ast.GeneratorExp) else v)) or (
                            isinstance(v, ast.GeneratorExp) and any(
                                isinstance(g.iter, ast.Name) and g.iter.id == name
                                for g in v.generators))
                    elif isinstance(v, ast.Call) and isinstance(v.func, ast.Name) and \
                            v.func.id in LAZY:
                        bad = any(isinstance(y, ast.Name) and y.id == name for a in v.args[:]
                                  for y in ([a] if isinstance(a, ast.Name) else ast.walk(a)
                                            if isinstance(a, ast.Lambda) else ()))
                    if bad:
                        out.append((f"escapes:{label}:{what}", ctx.at(m, r, label),
                                    f"{name!r} leaves the block of {ast.unparse(call)} and is used "
                                    f"when it is closed already"))
            # files that are opened without a block that closes them
            managed = {i.context_expr for w in own if isinstance(w, (ast.With, ast.AsyncWith))
                       for i in w.items}
            for x in own:
                if isinstance(x, ast.Call) and callee(x) == "open" and x not in managed:
                    if not opens_file(ctx, m, x):
                        continue
                    up = parents.get(x)
                    seen.append(f"{label}: open")
                    if isinstance(up, ast.Return) or isinstance(up, ast.Call) and callee(up) in (
                            "enter_context", "closing", "nullcontext"):
                        continue
                    if isinstance(up, ast.Assign) and isinstance(up.targets[0], ast.Name) and (
                            kept_open_closed(own, up.targets[0].id)):
                        continue
                    out.append((f"unclosed:{label}", ctx.at(m, x, label),
                                f"{ast.unparse(x)} is not closed: what was written to it may not be "
                                f"stored when the function returns"))
    return out, seen


def opens_file(ctx, m, x):
    if isinstance(x.func, ast.Name):
        q = ctx.cur.resolve_expr(m, x.func)
        return q in (None, "builtins.open", "open", "io.open")
    return not isinstance(x.func.value, ast.Name) or (
        ctx.cur.resolve_expr(m, x.func) or "io.open") in ("io.open", "gzip.open", "codecs.open") or \
        bool(x.args or x.keywords)


def kept_open_closed(own, name):
    for x in own:
        if isinstance(x, ast.Attribute) and x.attr == "close" and isinstance(
                x.value, ast.Name) and x.value.id == name:
            return True
        if isinstance(x, (ast.With, ast.AsyncWith)) and any(
                isinstance(y, ast.Name) and y.id == name for i in x.items
                for y in ast.walk(i.context_expr)):
            return True
        if isinstance(x, ast.Return) and isinstance(x.value, ast.Name) and x.value.id == name:
            return True
    return False


# -- discovery before lookup ---------------------------------------------------------------------------


def registries(ctx):
    """Names of attributes that registration functions fill."""
    names = set()
    for m in ctx.cur.modules.values():
        for n in ast.walk(m.tree):
            if isinstance(n, ast.Call) and callee(n) == "register" and n.args and isinstance(
                    n.args[0], ast.Attribute):
                names.add(n.args[0].attr)
    return names


def discovers(ctx):
    """Functions that import the submodules with implementations, directly or through helpers."""
    found = {"import_submodules"}
    while True:
        new = {f.name for f in ctx.cur.funcs.values() if f.name not in found and not f.name.startswith(
            "__") and any(isinstance(n, ast.Call) and callee(n) in found for n in ast.walk(f.node))}
        # only helpers below the lookup: functions that read a registry themselves are lookups
        new = {n for n in new if n.startswith("_") or "import" in n or "discover" in n and
               "partitions" not in n}
        if not new:
            return found
        found |= new


def discover_first(ctx):
    """Implementations are imported before the registry is read, where a function does both."""
    out, seen = [], []
    regs, disc = registries(ctx), discovers(ctx) | {"discovery_func"}

    def reads(n, f, depth=0):
        if isinstance(n, ast.Attribute) and isinstance(n.ctx, ast.Load) and n.attr in regs:
            return True
        if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr in ("lookup", "__missing__") and \
                isinstance(n.func.value, ast.Call) and callee(n.func.value) == "super":
            return True
        if isinstance(n, ast.Call) and depth < 3 and callee(n) not in disc:
            g = None
            if isinstance(n.func, ast.Attribute) and isinstance(n.func.value, ast.Name) and \
                    n.func.value.id in ("self", "cls") and f.cls is not None:
                g = ctx.cur.find_method(f.cls.qual, n.func.attr)
            elif isinstance(n.func, ast.Name):
                g = ctx.cur.funcs.get(ctx.cur.resolve_expr(f.module, n.func) or "")
            if g is not None and g is not f and g.name not in ("register",) and "util" not in g.qual:
                return any(reads(x, g, depth + 1) for x in ast.walk(g.node))
        return False
    for q, f in sorted(ctx.cur.funcs.items()):
        calls = [(n.lineno, n.col_offset) for n in ast.walk(f.node)
                 if isinstance(n, ast.Call) and callee(n) in disc]
        if not calls or f.name in disc:
            continue
        at = [(n.lineno, n.col_offset) for n in ast.walk(f.node) if n is not f.node and reads(n, f)]
        if not at:
            continue
        seen.append(q)
        if max(at) < min(calls):
            out.append((f"discovery:{q}", ctx.d.where(f), "the registry is read before the modules with "
                        "the implementations are imported: what they register is not found"))
    return out, seen


RULES = {f.__name__: f for f in (exclusions, frozen, input_fingerprint, serialise_first, in_place,
                                 io_pairs, cache_invalidation, nested_nullability,
                                 released, discover_first)}
