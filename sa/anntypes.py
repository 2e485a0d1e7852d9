"""Light-weight type inference from annotations: enough to resolve receivers."""
from __future__ import annotations

import ast

SEQ = {"list", "tuple", "set", "frozenset", "Iterator", "Iterable", "Sequence", "Generator",
       "Collection", "AbstractSet", "deque"}
MAPS = {"dict", "Mapping", "MutableMapping", "frozendict", "FrozenMapping", "defaultdict",
        "OrderedDict", "MappingProxyType", "NoCopyDict"}


def last(q):
    return q.rsplit(".", 1)[-1]


def bound(n):
    """The bound of a type variable; any other definition as it is."""
    if isinstance(n, ast.Call) and isinstance(n.func, (ast.Name, ast.Attribute)):
        if (n.func.id if isinstance(n.func, ast.Name) else n.func.attr) == "TypeVar":
            return next((k.value for k in n.keywords if k.arg == "bound"), None)
    return n


class Types:
    def __init__(self, program):
        self.p = program

    def ann(self, m, n, cls=None, depth=0):
        """Type descriptor for annotation AST `n` in module `m`."""
        if n is None or depth > 12:
            return None
        if isinstance(n, ast.Constant):
            if n.value is None:
                return ("none",)
            if isinstance(n.value, str):
                try:
                    return self.ann(m, ast.parse(n.value, mode="eval").body, cls, depth + 1)
                except SyntaxError:
                    return None
            return None
        if isinstance(n, ast.BinOp) and isinstance(n.op, ast.BitOr):
            a, b = (self.ann(m, x, cls, depth + 1) for x in (n.left, n.right))
            if a == ("none",):
                return ("opt", b)
            if b == ("none",):
                return ("opt", a)
            if a and a[0] == "opt":
                return ("opt", None)
            return None
        if isinstance(n, ast.Subscript):
            q = self.p.resolve_expr(m, n.value)
            if q is None:
                return None
            args = n.slice.elts if isinstance(n.slice, ast.Tuple) else [n.slice]
            nm = last(q)
            if nm in ("Annotated", "ClassVar", "Final", "TypeGuard"):
                return self.ann(m, args[0], cls, depth + 1)
            if nm == "Literal" and all(isinstance(a, ast.Constant) and a.value is not None
                                       for a in args):
                return ("lit", tuple(sorted((a.value for a in args), key=repr)))
            if nm == "Optional":
                return ("opt", self.ann(m, args[0], cls, depth + 1))
            if nm in ("type", "Type") and not q.startswith("arti."):
                return ("type", self.ann(m, args[0], cls, depth + 1))
            if nm == "tuple":
                if len(args) == 2 and isinstance(args[1], ast.Constant) and args[1].value is ...:
                    return ("seq", self.ann(m, args[0], cls, depth + 1), "tuple")
                return ("tup", tuple(self.ann(m, a, cls, depth + 1) for a in args))
            if nm in SEQ and not q.startswith("arti."):
                return ("seq", self.ann(m, args[0], cls, depth + 1), nm)
            if nm in MAPS and len(args) == 2:
                return ("map", *(self.ann(m, a, cls, depth + 1) for a in args))
            if q in self.p.classes:
                return ("cls", q)
            v = self.p.var(q)
            if v is not None:
                return self.ann(v[0], v[1], cls, depth + 1)
            return None
        if isinstance(n, (ast.Name, ast.Attribute)):
            q = self.p.resolve_expr(m, n)
            if q is None:
                return None
            if last(q) == "Self" and cls is not None:
                return ("cls", cls.qual)
            if q in self.p.classes:
                return ("cls", q)
            if q.startswith("builtins."):
                nm = last(q)
                if nm in ("list", "tuple", "set", "frozenset"):
                    return ("seq", None, nm)
                if nm == "dict":
                    return ("map", None, None)
                return ("cls", q)
            v = self.p.var(q)
            if v is not None:
                return self.ann(v[0], bound(v[1]), cls, depth + 1)
            if last(q) in ("Any", "TypeVar"):
                return None
            if "." in q and not q.startswith("arti."):
                return ("cls", q)
            return None
        return None

    def field(self, cls_qual, name):
        """Declared type of attribute `name` of an instance of the class."""
        r = self.p.find_annotation(cls_qual, name)
        f = self.p.find_method(cls_qual, name)
        if f is not None and f.is_property:
            return self.ann(f.module, f.node.returns, self.p.classes.get(cls_qual))
        if r is not None:
            c, a = r
            return self.ann(c.module, a, self.p.classes.get(cls_qual))
        if f is None:
            # attributes annotated in __init__: `self.x: T = ...`
            for q in self.p.mro(cls_qual):
                c = self.p.classes.get(q)
                init = c.methods.get("__init__") if c else None
                if init is not None:
                    ps = {a.arg: a.annotation for a in init.params()}
                    for n in ast.walk(init.node):
                        if (isinstance(n, ast.AnnAssign) and isinstance(n.target, ast.Attribute)
                                and isinstance(n.target.value, ast.Name)
                                and n.target.value.id == "self" and n.target.attr == name):
                            return self.ann(c.module, n.annotation, c)
                        if (isinstance(n, ast.Assign) and len(n.targets) == 1
                                and isinstance(n.targets[0], ast.Attribute)
                                and isinstance(n.targets[0].value, ast.Name)
                                and n.targets[0].value.id == "self"
                                and n.targets[0].attr == name
                                and isinstance(n.value, ast.Name) and n.value.id in ps):
                            return self.ann(c.module, ps[n.value.id], c)
                    if name.startswith("_") and ps.get(name) is not None:
                        # the parameter of that name, or else a default
                        t = self.ann(c.module, ps[name], c)
                        if t and t[0] == "opt" and t[1] and t[1][0] == "cls":
                            return t[1]
        if name == "root" and f is None:
            for q in self.p.mro(cls_qual):
                c = self.p.classes.get(q)
                for b in c.node.bases if c else ():
                    if isinstance(b, ast.Subscript) and ast.unparse(b.value).endswith("RootModel"):
                        return self.ann(c.module, b.slice, c)
        return None

    def ret(self, f, recv=None):
        c = self.p.classes.get(recv) if recv else f.cls
        return self.ann(f.module, f.node.returns, c)

    @staticmethod
    def strip_opt(t):
        while t is not None and t[0] == "opt":
            t = t[1]
        return t

    def elem(self, t):
        t = self.strip_opt(t)
        if t is None:
            return None
        if t[0] == "seq":
            return t[1]
        if t[0] == "map":
            return t[1]
        if t[0] == "cls":
            b = self._map_base(t[1])
            if b:
                return b[1]
        return None

    def value(self, t):
        t = self.strip_opt(t)
        if t is None:
            return None
        if t[0] == "map":
            return t[2]
        if t[0] == "seq":
            return t[1]
        if t[0] == "cls":
            b = self._map_base(t[1])
            if b:
                return b[2]
        return None

    def _map_base(self, qual):
        """('map', K, V) if the class derives from a subscripted mapping."""
        for q in self.p.mro(qual):
            c = self.p.classes.get(q)
            if c is None:
                continue
            for b in c.node.bases:
                if isinstance(b, ast.Subscript):
                    t = self.ann(c.module, b, c)
                    if t and t[0] == "map":
                        return t
        return None
