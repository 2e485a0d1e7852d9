"""State, frames, truthiness and typed-term helpers shared by the evaluator."""
from __future__ import annotations

from .terms import (F, FALSE, NONE, T, TRUE, const, f_and, f_not, f_or, fresh, glob, is_const,
                    subst, unk)
from .anntypes import Types

MAX_STATES = 400

# Calls that change something outside of the function (by the name called), hence are compared even
# when their result is used.
EFFECTS = {
    "write", "_write", "write_graph", "write_snapshot", "write_snapshot_tag",
    "write_artifact_partitions", "write_snapshot_partitions",
    "write_artifact_and_graph_partitions", "writelines", "write_text", "write_bytes", "dump",
    "build", "build_producer_partition", "discover_producer_partitions", "validate_outputs",
    "register", "register_adapter", "generate", "mkdir", "makedirs", "unlink", "rename", "replace_file",
    "rmtree", "remove", "pop", "popitem", "clear", "update", "add", "discard", "append", "extend",
    "insert", "setdefault", "setattr", "__setattr__", "delattr", "__delattr__", "import_module",
    "import_submodules", "sort", "reverse", "_toggle", "move", "copyfile", "truncate", "putFile",
    "put", "get_file", "touch", "rm", "rmdir", "acquire", "release", "model_rebuild", "setstate",
    "appendleft", "difference_update", "intersection_update", "symmetric_difference_update",
}
IGNORED_MODULES = ("logging.", "warnings.")


class St:
    __slots__ = ("env", "pc", "ev", "out")

    def __init__(self, env, pc=T, ev=(), out=None):
        self.env, self.pc, self.ev, self.out = env, pc, ev, out

    def copy(self):
        return St(dict(self.env), self.pc, self.ev, self.out)

    def assume(self, f):
        s = self.copy()
        s.pc = f_and(s.pc, f)
        return s

    def bind(self, name, value):
        s = self.copy()
        s.env[name] = value
        return s

    def emit(self, e):
        s = self.copy()
        s.ev = (*s.ev, e)
        return s

    def leave(self, out):
        s = self.copy()
        s.out = out
        return s


class Frame:
    """One activation of a function body."""

    def __init__(self, module, func=None, cls=None, stack=(), node=None):
        self.module, self.func, self.cls, self.stack, self.node = module, func, cls, stack, node
        self.handlers = 0


class TooComplex(Exception):
    pass


# -- truthiness ------------------------------------------------------------------------------


def type_name(t):
    """A global name of the standard library that can only be a type or a special form."""
    if t[0] != "g":
        return False
    mod, _, n = t[1].rpartition(".")
    return n == "NoneType" or mod in ("typing", "types", "builtins") and (
        n[:1].isupper() or n in ("int", "str", "float", "bytes", "bool", "list", "tuple", "dict",
                                 "set", "frozenset", "type", "object"))


def truth(t):
    k = t[0]
    if k == "i" and t[2][0] == "slice" and t[2][2:] == (NONE, NONE) and is_const(t[2][1]) and \
            isinstance(t[2][1][2], int) and t[2][1][2] >= 0:
        return ge(("call", glob("builtins.len"), (t[1],), ()), t[2][1][2] + 1)
    if k == "i" and t[2] == ("slice", NONE, NONE, NONE):
        return truth(t[1])
    if k == "c":
        return T if t[2] else F
    if k == "bool":
        return t[1]
    if k in ("tuple", "list", "set", "dict"):
        els = t[1:]
        if not els:
            return F
        if any(e[0] not in ("star",) for e in els):
            return T
        return f_or(*(truth(e[1]) for e in els))
    if k == "comp":
        v = f_or(*(g for g, _ in t[3]))
        return ("exists", t[2], v)
    if k == "co":
        return truth(t[2])
    if k == "frozen":
        return truth(t[1])
    if k == "merge":
        return f_or(*(truth(x) for x in t[1:]))
    if k == "uni":
        return f_or(*(truth(x) for x in t[1:]))
    if k == "cat":
        return f_or(*(truth(x) for x in t[1:]))
    if k == "xor" and len(t) == 3:  # two sets that are not the same
        xs = [x[1][1] if x[0] == "call" and x[1][0] == "a" and x[1][2] == "keys" and not x[2] else
              x[2] if x[0] == "co" and x[1] in ("set", "frozenset") else None for x in t[1:]]
        if None not in xs:
            return f_not(eq(*sorted((("co", "set", x) for x in xs), key=repr)))
    if k == "diff":
        v = fresh()
        return ("exists", ((v, strip_co(t[1])),), f_not(contains(v, t[2])))
    if k == "inter":
        v = fresh()
        return ("exists", ((v, strip_co(t[1])),), f_and(*(contains(v, x) for x in t[2:])))
    if k == "fstr":
        if any(is_const(p) and p[2] for p in t[1]):
            return T
    if k == "ite":
        return f_or(f_and(t[1], truth(t[2])), f_and(f_not(t[1]), truth(t[3])))
    if k in ("lam", "clo", "partial"):
        return T
    if k == "call":
        if t[1] in (glob("builtins.len"), glob("builtins.bool")) and len(t[2]) == 1:
            return truth(t[2][0])
        if t[1] == glob("math.truth") and len(t[2]) == 1:
            return truth(t[2][0])
    return ("truth", t)


def strip_co(t):
    while t[0] == "co":
        t = t[2]
    return t


def mk_bool(f):
    if f == T:
        return TRUE
    if f == F:
        return FALSE
    return ("bool", f)


# methods of strings that return strings (of no other class with methods of these names)
STR_RESULT = ("rstrip", "lstrip", "strip", "removesuffix", "removeprefix", "lower", "upper", "title",
              "capitalize")


def eq(a, b):
    if a == b:
        return T
    if is_const(a) and is_const(b):
        return T if a[2] == b[2] and (a[1] == b[1] or {a[1], b[1]} <= {"int", "bool", "float"}) else F
    for x, y in ((a, b), (b, a)):
        if x[0] == "call" and x[1] == glob("builtins.len") and len(x[2]) == 1 and is_const(y) \
                and isinstance(y[2], int):
            return f_and(ge(x, y[2]), f_not(ge(x, y[2] + 1)))
        if y == NONE:
            return isnone(x)
        if x[0] == "bool" and y in (TRUE, FALSE):
            return x[1] if y == TRUE else f_not(x[1])
        if y == const("") and x[0] == "call" and x[1][0] == "a" and x[1][2] in STR_RESULT:
            return f_not(truth(x))
    if a[0] == "co" and a[1] == "frozenset" and b[0] == "set":
        a = ("co", "set", a[2])
    if b[0] == "co" and b[1] == "frozenset" and a[0] == "set":
        b = ("co", "set", b[2])
    if a[0] == "bool" and b[0] == "bool":
        return f_or(f_and(a[1], b[1]), f_and(f_not(a[1]), f_not(b[1])))
    # a set against a literal set of constants is order independent
    return ("eq", a, b)


def ge(x, k):
    """x >= k, for len() calls and integer constants."""
    if x[0] == "call" and x[1] == glob("builtins.len"):
        if k <= 0:
            return T
        if k == 1:
            return truth(x[2][0])
    return ("ge", x, k)


# calls that build a value, also through their `from...` class methods
CONSTRUCTORS = {"datetime.date", "datetime.datetime", "datetime.timedelta", "builtins.int",
                "builtins.str", "builtins.float", "builtins.bool", "builtins.len", "builtins.hash",
                "builtins.repr", "builtins.sorted", "builtins.bytes", "pathlib.Path",
                "builtins.isinstance", "builtins.issubclass", "builtins.hasattr",
                "typing.get_args", "builtins.staticmethod", "builtins.classmethod",
                # CPython supports frame inspection
                "arti.internal.utils.get_module_name"}


def isnone(t):
    k = t[0]
    if t == NONE:
        return T
    if k in ("c", "tuple", "list", "set", "dict", "comp", "fstr", "co", "bool", "lam", "clo", "uni",
             "cat", "partial", "merge"):
        return F
    if k == "call":
        f = t[1][1] if t[1][0] == "a" and t[1][2].startswith("from") and t[1][1][0] == "g" else t[1]
        if f[0] == "g" and f[1].rpartition(".from")[0 if ".from" in f[1] else 2] in CONSTRUCTORS:
            return F
    if k == "g" and t[1].startswith(("arti.", "builtins.")) and t[1].rsplit(".", 1)[-1][:1].isupper():
        return F
    if k == "ite":
        return f_or(f_and(t[1], isnone(t[2])), f_and(f_not(t[1]), isnone(t[3])))
    return ("isnone", t)


def contains(x, s):
    k = s[0]
    if k == "co":
        return contains(x, s[2])
    if k in ("tuple", "list", "set") and not any(e[0] == "star" for e in s[1:]):
        return f_or(*(eq(x, e) for e in s[1:]))
    if k == "dict" and not any(e[0] == "star" for e in s[1:]):
        return f_or(*(eq(x, e[1]) for e in s[1:]))
    if k == "c" and isinstance(s[2], (tuple, frozenset)):
        return f_or(*(eq(x, const(e)) for e in s[2]))
    if k == "comp":
        fs = []
        for g, e in s[3]:
            if e[0] == "kv":
                e = e[1]
            fs.append(f_and(g, eq(x, e)))
        # `x in {v for v in xs if g(v)}` is `x in xs and g(x)`
        if len(s[2]) == 1 and len(s[3]) == 1:
            (v, it), (g, e) = s[2][0], s[3][0]
            if e[0] == "kv":
                e = e[1]
            if e == v:
                return f_and(contains(x, it), subst(g, {v: x}))
        return ("exists", s[2], f_or(*fs))
    if k in ("uni", "cat"):
        return f_or(*(contains(x, y) for y in s[1:]))
    if k == "diff":
        return f_and(contains(x, s[1]), f_not(contains(x, s[2])))
    if k == "inter":
        return f_and(*(contains(x, y) for y in s[1:]))
    if k == "call" and s[1][0] == "a" and s[1][2] == "keys" and not s[2]:
        return contains(x, s[1][1])
    return ("in", x, s)


# -- terms -----------------------------------------------------------------------------------


def fstr(parts):
    out = []
    for p in parts:
        if p[0] == "fstr":
            ps = p[1]
        else:
            ps = (p,)
        for q in ps:
            if q[0] == "call" and q[1] == glob("builtins.str") and len(q[2]) == 1 and not q[3]:
                q = q[2][0]
                if q[0] == "fstr":
                    for z in q[1]:
                        _push(out, z)
                    continue
            _push(out, q)
    if not out:
        return const("")
    if len(out) == 1 and is_const(out[0]) and isinstance(out[0][2], str):
        return out[0]
    if len(out) == 1:
        return ("call", glob("builtins.str"), (out[0],), ())
    return ("fstr", tuple(out))


def _push(out, q):
    if is_const(q) and isinstance(q[2], (str, int)) and not isinstance(q[2], bool):
        q = const(str(q[2]))
        if not q[2]:
            return
        if out and is_const(out[-1]):
            out[-1] = const(out[-1][2] + q[2])
            return
    out.append(q)


def cat(*xs):
    out = []
    for x in xs:
        ys = x[1:] if x[0] == "cat" else (x,)
        for y in ys:
            whole = y
            if y[0] == "co" and y[1] in ("seq", "list", "tuple"):
                y = y[2]
            if y[0] in ("tuple", "list") and not y[1:]:
                continue
            if y[0] in ("tuple", "list"):
                y = ("tuple", *y[1:])
                if out and out[-1][0] == "tuple":
                    out[-1] = ("tuple", *out[-1][1:], *y[1:])
                    continue
            out.append(y)
            last = whole
    if not out:
        return ("tuple",)
    if len(out) == 1:
        return out[0] if out[0][0] == "tuple" else last
    return ("cat", *out)


def attr(base, name):
    if base[0] == "ite":
        return ("ite", base[1], attr(base[2], name), attr(base[3], name))
    return ("a", base, name)


class Typing:
    """Types of terms, derived from annotations of the analysed program."""

    def __init__(self, program):
        self.p = program
        self.types = Types(program)
        self.ptypes = {}
        self.vtypes = {}

    def type_of(self, t, depth=0):
        if depth > 30:
            return None
        k = t[0]
        ty = self.types
        if k == "p":
            return self.ptypes.get(t)
        if k in ("v", "acc", "sofar"):
            return self.vtypes.get(t)
        if k == "before":
            return self.type_of(t[2], depth + 1)
        if k == "c":
            return ("cls", "builtins." + t[1])
        if k == "fstr":
            return ("cls", "builtins.str")
        if k == "bool":
            return ("cls", "builtins.bool")
        if k == "a":
            b = ty.strip_opt(self.type_of(t[1], depth + 1))
            if b and b[0] == "cls":
                return ty.field(b[1], t[2])
            if b and b[0] == "type" and b[1] and b[1][0] == "cls":
                f = self.p.find_method(b[1][1], t[2])
                if f is not None and not f.is_property:
                    return None
                return ty.field(b[1][1], t[2])
            return None
        if k == "g":
            q = t[1]
            if q in self.p.classes:
                return ("type", ("cls", q))
            v = self.p.var(q)
            if v is not None:
                m, node = v
                import ast as _ast
                if isinstance(node, _ast.Call):
                    fq = self.p.resolve_expr(m, node.func)
                    if fq in self.p.classes:
                        return ("cls", fq)
            return None
        if k == "i":
            b = ty.strip_opt(self.type_of(t[1], depth + 1))
            if t[2][0] == "slice":
                return b if b and (b[0] == "seq" or b == ("cls", "builtins.str")) else None
            if b and b[0] == "tup":
                if is_const(t[2]) and isinstance(t[2][2], int) and -len(b[1]) <= t[2][2] < len(b[1]):
                    return b[1][t[2][2]]
                return None
            return ty.value(b)
        if k == "enter":
            r = self.type_of(t[1], depth + 1)
            r = ty.strip_opt(r)
            if r and r[0] == "seq":
                return r[1]
            return r
        if k == "call":
            fn = t[1]
            if fn[0] == "super":
                return self.vtypes.get(fn)
            if fn[0] == "g":
                q = fn[1]
                if q in self.p.classes:
                    return ("cls", q)
                if q in self.p.funcs:
                    return ty.ret(self.p.funcs[q])
                v = self.p.var(q)
                if v is not None:
                    return ty.ann(v[0], v[1])
                if q.startswith("builtins."):
                    n = q[9:]
                    if n in ("list", "tuple", "set", "frozenset"):
                        return ("seq", self.elem(t[2][0]) if t[2] else None, n)
                    if n == "sorted" and t[2]:
                        return ("seq", self.elem(t[2][0]), "list")
                    if n in ("str", "int", "bool", "float"):
                        return ("cls", q)
                return None
            if fn[0] == "a":
                b = ty.strip_opt(self.type_of(fn[1], depth + 1))
                if b and b[0] == "type" and b[1]:
                    b = b[1]
                if b and b[0] == "cls":
                    f = self.p.find_method(b[1], fn[2])
                    if f is not None:
                        return ty.ret(f, b[1])
                    if fn[2] == "model_copy":
                        return b
                if fn[2] == "get" and b:
                    return ty.value(b)
                if fn[2] == "values" and b and not t[2]:
                    return ("seq", ty.value(b), "seq")
                return None
            if fn[0] == "p":
                b = self.type_of(fn)
                if b and b[0] == "type":
                    return b[1]
            b = self.type_of(fn, depth + 1)
            if b and b[0] == "type":
                return b[1]
            return None
        if k == "co":
            e = self.elem(t[2])
            if t[1] == "map":
                return ("map", e, ty.value(self.type_of(t[2], depth + 1)))
            return ("seq", e, t[1])
        if k == "comp":
            e = self.type_of(t[3][0][1], depth + 1) if t[3] and t[3][0][1][0] != "kv" else None
            if t[1] == "map":
                kv = t[3][0][1] if t[3] else None
                if kv and kv[0] == "kv":
                    return ("map", self.type_of(kv[1], depth + 1), self.type_of(kv[2], depth + 1))
                return ("map", None, None)
            return ("seq", e, t[1])
        if k in ("xor", "uni", "cat"):
            return self.type_of(t[1], depth + 1)
        if k == "upd":
            return self.type_of(t[1], depth + 1)
        if k == "ite":
            return self.type_of(t[2], depth + 1) or self.type_of(t[3], depth + 1)
        if k in ("first", "last"):
            return self.type_of(t[2][0][1], depth + 1) if t[2] else None
        if k in ("tuple", "list", "set"):
            return ("seq", self.type_of(t[1], depth + 1) if len(t) > 1 else None, k)
        if k == "dict":
            return ("map", None, None)
        return None

    def elem(self, t):
        return self.types.elem(self.type_of(t))

    def nullness(self, t):
        """'never' None | 'object' (never None, always true) | 'optobject' | None."""
        ty = self.type_of(t)
        if ty is None or ty[0] == "none":
            return None
        opt = ty[0] == "opt"
        ty = self.types.strip_opt(ty)
        if ty is None:
            return None
        plain = ty[0] == "type" or (ty[0] == "cls" and ty[1] in self.p.classes and not any(
            self.p.find_method(ty[1], m) is not None for m in ("__bool__", "__len__")) and not any(
            b.startswith(("builtins.", "collections.")) or b.rsplit(".", 1)[-1] in (
                "int", "float", "str", "bytes", "list", "dict", "tuple", "set", "frozenset",
                "Mapping", "MutableMapping", "RootModel") for b in self.p.mro(ty[1])))
        if opt:
            return "optobject" if plain else None
        return "object" if plain else "never"

    def cls_of(self, t):
        """(class qualname, is_class_object) of a term, if known."""
        ty = self.types.strip_opt(self.type_of(t))
        if ty is None:
            return None, False
        if ty[0] == "cls":
            return ty[1], False
        if ty[0] == "type" and ty[1] and ty[1][0] == "cls":
            return ty[1][1], True
        return None, False
