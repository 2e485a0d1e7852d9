"""Program model: modules, classes, functions and name resolution for one source tree.

Nothing of the analysed program is imported or executed: everything here is read off the syntax
trees of `<root>/arti/**/*.py`.
"""
from __future__ import annotations

import ast
import builtins
import os

BUILTINS = set(dir(builtins))


class Func:
    """One function or method definition."""

    def __init__(self, qual, node, module, cls=None, outer=None):
        self.qual, self.node, self.module, self.cls, self.outer = qual, node, module, cls, outer
        self.name = node.name
        self.decorators = [ast.unparse(d) for d in node.decorator_list]

    def deco(self, *names):
        """Whether one of the decorators is (called as) one of the given (last component) names."""
        for d in self.node.decorator_list:
            t = d.func if isinstance(d, ast.Call) else d
            n = t.attr if isinstance(t, ast.Attribute) else getattr(t, "id", None)
            if n in names:
                return True
        return False

    @property
    def is_property(self):
        return self.deco("property", "cached_property", "classproperty", "field_component",
                         "computed_field")

    @property
    def is_static(self):
        return self.deco("staticmethod")

    @property
    def is_classmethod(self):
        return self.deco("classmethod") or self.name in (
            "__class_getitem__", "__init_subclass__", "__pydantic_init_subclass__", "__new__")

    def params(self):
        a = self.node.args
        return [*a.posonlyargs, *a.args, *a.kwonlyargs]

    def is_generator(self):
        return has_yield(self.node)

    def __repr__(self):
        return f"<Func {self.qual}>"


def has_yield(fn):
    stack = list(fn.body)
    while stack:
        n = stack.pop()
        if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef, ast.Lambda, ast.ClassDef)):
            continue
        if isinstance(n, (ast.Yield, ast.YieldFrom)):
            return True
        stack.extend(ast.iter_child_nodes(n))
    return False


class Class:
    def __init__(self, qual, node, module):
        self.qual, self.node, self.module = qual, node, module
        self.name = node.name
        self.methods: dict[str, Func] = {}
        self.attrs: dict[str, ast.AST] = {}  # class level assignments (value)
        self.annotations: dict[str, ast.AST] = {}
        self.bases: list[str] = []  # resolved qualnames, where known
        self._mro = None

    def __repr__(self):
        return f"<Class {self.qual}>"


class Module:
    def __init__(self, name, path, tree, is_pkg):
        self.name, self.path, self.tree, self.is_pkg = name, path, tree, is_pkg
        self.imports: dict[str, str] = {}  # local alias -> dotted target
        self.defs: dict[str, object] = {}  # Func | Class
        self.vars: dict[str, ast.AST] = {}  # simple module level assignments
        self.type_aliases: dict[str, ast.AST] = {}


LAYOUTS = frozenset(f"builtins.{n}" for n in (
    "tuple", "list", "set", "frozenset", "dict", "str", "bytes", "int", "float", "complex"))


class Program:
    def __init__(self, root):
        """`root` is the directory holding the `arti` package."""
        self.root = root
        self.modules: dict[str, Module] = {}
        self.funcs: dict[str, Func] = {}
        self.classes: dict[str, Class] = {}
        self._load()
        for m in self.modules.values():
            self._index(m)
        for c in self.classes.values():
            c.bases = [b for b in (self._base_qual(c, n) for n in c.node.bases) if b]
        self.subclasses: dict[str, set[str]] = {}
        self._disjoint: dict[tuple[str, str], bool] = {}
        for c in self.classes.values():
            for b in self.mro(c.qual)[1:]:
                self.subclasses.setdefault(b, set()).add(c.qual)
        self.methods_by_name: dict[str, list[Func]] = {}
        for c in self.classes.values():
            for n, f in c.methods.items():
                self.methods_by_name.setdefault(n, []).append(f)
        self.field_owners: dict[str, list[Class]] = {}
        for c in self.classes.values():
            for n in c.annotations:
                self.field_owners.setdefault(n, []).append(c)

    # -- loading -----------------------------------------------------------------------------

    def _load(self):
        base = os.path.join(self.root, "arti")
        for d, dirs, files in os.walk(base):
            dirs[:] = sorted(x for x in dirs if x != "__pycache__")
            for f in sorted(files):
                if not f.endswith(".py"):
                    continue
                path = os.path.join(d, f)
                rel = os.path.relpath(path, self.root)[:-3].split(os.sep)
                is_pkg = rel[-1] == "__init__"
                if is_pkg:
                    rel = rel[:-1]
                name = ".".join(rel)
                with open(path, encoding="utf-8") as fh:
                    src = fh.read()
                self.modules[name] = Module(name, path, ast.parse(src, path), is_pkg)

    def _index(self, m):
        def visit(stmts, top=True):
            for s in stmts:
                if isinstance(s, ast.Import):
                    for a in s.names:
                        if a.asname:
                            m.imports[a.asname] = a.name
                        else:
                            m.imports[a.name.split(".")[0]] = a.name.split(".")[0]
                elif isinstance(s, ast.ImportFrom):
                    mod = s.module or ""
                    if s.level:
                        parts = m.name.split(".")
                        if not m.is_pkg:
                            parts = parts[:-1]
                        parts = parts[: len(parts) - (s.level - 1)]
                        mod = ".".join([*parts, mod] if mod else parts)
                    for a in s.names:
                        m.imports[a.asname or a.name] = f"{mod}.{a.name}"
                elif isinstance(s, (ast.FunctionDef, ast.AsyncFunctionDef)):
                    if any("overload" in ast.unparse(d) for d in s.decorator_list):
                        continue
                    f = Func(f"{m.name}.{s.name}", s, m)
                    m.defs[s.name] = f
                    self.funcs[f.qual] = f
                elif isinstance(s, ast.ClassDef):
                    self._index_class(m, s)
                elif isinstance(s, ast.Assign):
                    for t in s.targets:
                        if isinstance(t, ast.Name):
                            m.vars[t.id] = s.value
                elif isinstance(s, ast.AnnAssign):
                    if isinstance(s.target, ast.Name) and s.value is not None:
                        m.vars[s.target.id] = s.value
                elif isinstance(s, ast.TypeAlias):
                    m.type_aliases[s.name.id] = s.value
                elif isinstance(s, ast.If):
                    visit(s.body, top)
                    visit(s.orelse, top)
                elif isinstance(s, ast.Try):
                    visit(s.body, top)

        visit(m.tree.body)

    def _index_class(self, m, node, prefix=None):
        c = Class(f"{prefix or m.name}.{node.name}", node, m)
        if prefix is None:
            m.defs[node.name] = c
        self.classes[c.qual] = c

        def visit(stmts):
            for s in stmts:
                if isinstance(s, (ast.FunctionDef, ast.AsyncFunctionDef)):
                    if any("overload" in ast.unparse(d) for d in s.decorator_list):
                        continue
                    f = Func(f"{c.qual}.{s.name}", s, m, cls=c)
                    c.methods[s.name] = f
                    c.attrs.pop(s.name, None)
                    self.funcs[f.qual] = f
                elif isinstance(s, ast.AnnAssign) and isinstance(s.target, ast.Name):
                    c.annotations[s.target.id] = s.annotation
                    if s.value is not None:
                        c.attrs[s.target.id] = s.value
                elif isinstance(s, ast.Assign):
                    for t in s.targets:
                        for n in ([t] if isinstance(t, ast.Name) else
                                  t.elts if isinstance(t, ast.Tuple) else []):
                            if isinstance(n, ast.Name):
                                v = s.value
                                if isinstance(t, ast.Tuple) and isinstance(v, ast.Tuple):
                                    v = v.elts[t.elts.index(n)]
                                # `a = b` where b is a method: an alias
                                if isinstance(v, ast.Name) and v.id in c.methods:
                                    c.methods[n.id] = c.methods[v.id]
                                else:
                                    c.attrs[n.id] = v
                                    c.methods.pop(n.id, None)
                elif isinstance(s, ast.ClassDef):
                    self._index_class(m, s, prefix=c.qual)
                elif isinstance(s, ast.If):
                    # `if TYPE_CHECKING: ... else: ...` -> the runtime branch
                    test = ast.unparse(s.test)
                    if test == "TYPE_CHECKING":
                        visit(s.orelse)
                    elif test == "not TYPE_CHECKING":
                        visit(s.body)
                    else:
                        visit(s.body)
                        visit(s.orelse)

        visit(node.body)

    def _base_qual(self, c, n):
        if isinstance(n, ast.Subscript):
            n = n.value
        if isinstance(n, (ast.Name, ast.Attribute)):
            return self.resolve_expr(c.module, n)
        return None

    # -- resolution --------------------------------------------------------------------------

    def canonical(self, dotted, seen=()):
        """Follow re-exports: `arti.Fingerprint` -> `arti.fingerprints.Fingerprint`."""
        if dotted in seen:
            return dotted
        if dotted in self.modules or dotted in self.funcs or dotted in self.classes:
            return dotted
        head, _, tail = dotted.rpartition(".")
        if not head:
            return dotted
        if head in self.modules:
            m = self.modules[head]
            if tail in m.defs:
                return m.defs[tail].qual
            if tail in m.vars or tail in m.type_aliases:
                return dotted
            if tail in m.imports:
                return self.canonical(m.imports[tail], (*seen, dotted))
            return dotted
        h = self.canonical(head, (*seen, dotted))
        if h != head:
            return self.canonical(f"{h}.{tail}", (*seen, dotted))
        return dotted

    def resolve_name(self, m, name):
        """Resolve a module level name to a dotted qualname (or None)."""
        if name in m.defs:
            return m.defs[name].qual
        if name in m.vars or name in m.type_aliases:
            return f"{m.name}.{name}"
        if name in m.imports:
            return self.canonical(m.imports[name])
        if name in BUILTINS:
            return f"builtins.{name}"
        return None

    def resolve_expr(self, m, n):
        if isinstance(n, ast.Name):
            return self.resolve_name(m, n.id)
        if isinstance(n, ast.Attribute):
            b = self.resolve_expr(m, n.value)
            return self.canonical(f"{b}.{n.attr}") if b else None
        return None

    def var(self, qual):
        """The (module, value AST) of a module level variable, by qualname."""
        head, _, tail = qual.rpartition(".")
        m = self.modules.get(head)
        if m is None:
            return None
        if tail in m.vars:
            return m, m.vars[tail]
        if tail in m.type_aliases:
            return m, m.type_aliases[tail]
        return None

    # -- classes -----------------------------------------------------------------------------

    def mro(self, qual):
        c = self.classes.get(qual)
        if c is None:
            return [qual]
        if c._mro is None:
            c._mro = [qual]  # guard against cycles
            seqs = [self.mro(b)[:] for b in c.bases] + [list(c.bases)]
            out = [qual]
            while any(seqs):
                seqs = [s for s in seqs if s]
                for s in seqs:
                    h = s[0]
                    if not any(h in t[1:] for t in seqs):
                        break
                else:
                    h = seqs[0][0]
                out.append(h)
                for s in seqs:
                    if s and s[0] == h:
                        del s[0]
            c._mro = out
        return c._mro

    def is_subclass(self, a, b):
        return b in self.mro(a)

    def disjoint(self, a, b):
        """No object is an instance of both: two models of this code base of which neither derives
        from the other and that share no subclass (a data model is not mixed into another), or two
        builtins of conflicting layouts."""
        if a in LAYOUTS and b in LAYOUTS:
            return a != b
        k = (a, b) if a < b else (b, a)
        r = self._disjoint.get(k)
        if r is None:
            r = a in self.classes and b in self.classes and all(
                "arti.internal.models.Model" in self.mro(q) for q in k) and not any(
                a in m and b in m for m in map(self.mro, self.classes))
            self._disjoint[k] = r
        return r

    def find_method(self, cls_qual, name, after=None):
        """Find the implementation of `name` along the MRO (optionally after class `after`)."""
        mro = self.mro(cls_qual)
        if after is not None:
            mro = mro[mro.index(after) + 1 :] if after in mro else []
        for q in mro:
            c = self.classes.get(q)
            if c is not None and name in c.methods:
                return c.methods[name]
            if c is not None and name in c.attrs:
                return None
        return None

    def find_attr(self, cls_qual, name):
        for q in self.mro(cls_qual):
            c = self.classes.get(q)
            if c is not None and (name in c.attrs or name in c.methods):
                return (c, c.attrs.get(name))
        return None

    def find_annotation(self, cls_qual, name):
        for q in self.mro(cls_qual):
            c = self.classes.get(q)
            if c is not None and name in c.annotations:
                return c, c.annotations[name]
        return None

    def overridden_below(self, cls_qual, name):
        """Whether a subclass of `cls_qual` (re)defines `name`."""
        return any(name in self.classes[s].methods or name in self.classes[s].attrs
                   for s in self.subclasses.get(cls_qual, ()))
