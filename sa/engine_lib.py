"""Models of the builtins and standard library calls the analysed code uses."""
from __future__ import annotations

import ast
import re
import string

from .engine_base import (St, attr, cat, contains, eq, fstr, ge, isnone, mk_bool, strip_co, truth)
from .engine_iter import alike, assuming, exists
from .terms import (F, FALSE, NONE, T, TRUE, const, f_and, f_not, f_or, fresh, glob, is_const, subst, unk)

FP_COMBINE = "arti.fingerprints.Fingerprint.combine"
SETOPS = {"union", "issubset", "issuperset", "isdisjoint", "difference", "intersection"}
OPERATORS = {"operator.xor": "^", "operator.or_": "|", "operator.add": "+", "operator.and_": "&",
             "operator.sub": "-", "operator.mul": "*"}
CMPS = {"operator.eq": ast.Eq, "operator.ne": ast.NotEq, "operator.lt": ast.Lt,
        "operator.le": ast.LtE, "operator.gt": ast.Gt, "operator.ge": ast.GtE,
        "operator.is_": ast.Is, "operator.is_not": ast.IsNot}


def hasstar(ts):
    return any(t[0] == "star" for t in ts)


class LibMixin:
    # -- methods ---------------------------------------------------------------------------------

    def with_first(self, first, rest):
        """The sequence made of `first` and the elements of `rest`, when those are its others."""
        while rest[0] == "co" and rest[1] in ("seq", "list", "tuple"):
            rest = rest[2]
        tail = ("slice", const(1), NONE, NONE)
        if rest[0] == "i" and rest[2] == tail:
            return rest[1] if alike(first, self.index(rest[1], const(0))) else None
        if rest[0] == "comp" and rest[1] == "seq" and len(rest[2]) == len(rest[3]) == 1 and \
                rest[3][0][0] == T:
            (v, src), e = rest[2][0], rest[3][0][1]
            if src[0] == "i" and src[2] == tail and \
                    alike(subst(e, {v: self.index(src[1], const(0))}), first):
                loops, e2 = self.refresh(((v, src[1]),), e)
                return ("comp", "seq", loops, ((T, e2),))
        return None

    def lib_method(self, recv, name, args, kwargs, st, fr):
        """Result of calling method `name`, when it is one of the modelled ones (or None)."""
        q, iscls = self.t.cls_of(recv)
        if name == "combine" and not kwargs and q == "arti.fingerprints.Fingerprint" and not iscls:
            return [(st, self.xor(recv, *map(self.star_arg, args)))]
        if q in self.p.classes and self.p.find_method(q, name) is not None:
            return None
        if name in ("write_text", "write_bytes", "read_text", "read_bytes") and \
                recv[0] == "call" and recv[1] == glob("pathlib.Path") and len(recv[2]) == 1 and \
                len(args) == name.startswith("write") and not hasstar(args):
            # the file is opened, written or read as a whole, and closed
            mode = name[0] + ("b" if name.endswith("bytes") else "")
            out = []
            for s, f in self.lib_open([recv[2][0], const(mode)], dict(kwargs), st, fr):
                f = self.freeze(f)
                s = s.emit(("with", f, (), T))
                out.extend(self.call_method(("enter", f), name.split("_")[0], args, {}, s, fr))
            return out
        if name == "format" and is_const(recv) and isinstance(recv[2], str):
            t = self.template(recv[2], args, kwargs)
            if t is not None:
                return [(st, t)]
        if name == "intersection" and len(args) == 1 and hasstar(args) and not kwargs:
            rows = self.with_first(recv, args[0][1])
            if rows is not None:
                # first, *rest = sets; first.intersection(*rest)
                return self.opaque(glob("builtins.set.intersection"), [("star", rows)], {},
                                   st)
        if kwargs or hasstar(args):
            if name == "join" or name not in ("get", *SETOPS):
                return None
            if hasstar(args) and name == "union" and self.setlike(recv):
                parts = []
                for a in args:
                    if a[0] == "star":
                        src = self.sources(a[1], False)
                        flat = [(lp + lp2, f_and(g, g2), e2) for lp, g, e in src
                                for lp2, g2, e2 in self.sources(e, False)]
                        parts.append(self.build_comp("set", flat))
                    else:
                        parts.append(a)
                return [(st, self.union(recv, *parts))]
            return None
        if name in ("update", "add") and len(args) == 1 and not self.is_local(recv) and \
                self.is_mutable_set(recv):
            a = self.to_set(args[0]) if name == "update" else ("set", args[0])
            return self.opaque(attr(recv, "update"), [a[2] if a[0] == "co" else a], {}, st)
        if name == "update" and len(args) < 2 and not self.is_local(recv) and "**" not in kwargs and (
                args or kwargs) and all(a[0] == "dict" and len(a) > 1 and all(
                    kv[0] == "kv" and kv[2][0] != "app" for kv in a[1:]) for a in args):
            for kv in (*(args[0][1:] if args else ()),
                       *(("kv", const(k), v) for k, v in kwargs.items())):
                st = st.emit(("set", ("setitem", self.freeze(recv), self.freeze(kv[1]),
                                      self.freeze(kv[2])), (), T))
            return [(st, NONE)]
        if name == "get" and len(args) in (1, 2) and self.maplike(recv):
            f = contains(args[0], recv)
            d = args[1] if len(args) == 2 else NONE
            out = []
            for g, v in ((f, self.index(recv, args[0])), (f_not(f), d)):
                s = st.assume(g)
                if s.pc != F:
                    out.append((s, v))
            return out
        if name == "setdefault" and len(args) == 2 and not self.is_local(recv):
            f = contains(args[0], recv)
            a, b = st.assume(f), st.assume(f_not(f))
            out = [(a, self.index(recv, args[0]))] if a.pc != F else []
            if b.pc != F:
                v = self.freeze(args[1])
                out.append((b.emit(("set", ("setitem", recv, args[0], v), (), T)), v))
            return out
        if name == "get" and len(args) == 2 and args[1] == NONE:
            return self.opaque(attr(recv, "get"), args[:1], {}, st)
        if name in SETOPS and (self.setlike(recv) or name in ("issubset", "isdisjoint")) and args:
            a = args[0]
            if name == "union":
                return [(st, self.union(recv, *args))]
            if name == "difference" and len(args) == 1:
                return [(st, self.difference(recv, a))]
            if name == "intersection" and len(args) == 1:
                return [(st, ("inter", *sorted({strip_co(recv), strip_co(a)}, key=repr)))]
            if name == "issubset":
                return [(st, mk_bool(self.subset(recv, a)))]
            if name == "issuperset":
                return [(st, mk_bool(self.subset(a, recv)))]
            if name == "isdisjoint":
                v = ("inter", *sorted({strip_co(recv), strip_co(a)}, key=repr))
                return [(st, mk_bool(f_not(truth(v))))]
        if name == "join" and len(args) == 1 and args[0][0] == "tuple" and (
                is_const(recv) or len(args[0]) > 1 and not hasstar(args[0][1:]) and recv[0] == "a"):
            parts = []
            for i, x in enumerate(args[0][1:]):
                if i:
                    parts.append(recv)
                parts.append(x)
            return [(st, fstr(parts))]
        if name in ("lower", "upper", "title", "capitalize", "strip") and is_const(recv) and \
                isinstance(recv[2], str) and not args:
            return [(st, const(getattr(recv[2], name)()))]
        if name == "__contains__" and len(args) == 1:
            return [(st, mk_bool(contains(args[0], recv)))]
        if name == "joinpath" and args:
            r = recv
            for a in args:
                r = self.binop("/", r, a)
            return [(st, r)]
        if name == "copy" and not args and self.is_local(recv):
            return [(st, recv)]
        if name == "open" and recv[0] == "call" and recv[1] == glob("pathlib.Path") and \
                len(recv[2]) == 1:
            return self.lib_call("builtins.open", [recv[2][0], *args], kwargs, st, fr)
        return None

    def template(self, text, args, kwargs):
        """`"...{}...".format(...)` of a literal template, as an f-string."""
        if hasstar(args) or "**" in kwargs:
            return None
        parts, auto = [], 0
        try:
            pieces = list(string.Formatter().parse(text))
        except ValueError:
            return None
        for lit, field, spec, conv in pieces:
            if lit:
                parts.append(const(lit))
            if field is None:
                continue
            if field == "":
                field, auto = str(auto), auto + 1
            if field.isdigit() and int(field) < len(args):
                t = args[int(field)]
            elif field in kwargs:
                t = kwargs[field]
            else:
                return None
            if conv not in (None, "r", "s") or "{" in (spec or ""):
                return None
            if conv == "r":
                t = ("call", glob("builtins.repr"), (t,), ())
            if spec:
                spec = ast.unparse(ast.JoinedStr([ast.Constant(spec)]))
                t = ("call", glob("builtins.format"), (t, const(spec)), ())
            parts.append(t)
        return fstr(parts)

    def percent(self, text, args):
        """`"...%s..." % (...)` of a literal template, as an f-string."""
        pieces = re.split(r"(%.)", text)
        args = list(args)
        parts = []
        for p in pieces:
            if p == "%%":
                parts.append(const("%"))
            elif p in ("%s", "%r") and args:
                t = args.pop(0)
                parts.append(t if p == "%s" else ("call", glob("builtins.repr"), (t,), ()))
            elif p[:1] == "%":
                return None
            elif p:
                parts.append(const(p))
        return None if args else fstr(parts)

    def star_arg(self, a):
        """`f(*xs)` as the starred term of an xor/union."""
        if a[0] != "star":
            return a
        if a[1][0] == "comp" and a[1][1] == "set" or a[1][0] == "co" and a[1][1] in (
                "set", "frozenset") and not self.setlike(a[1][2]):
            return a  # equal elements count once
        src = self.sources(a[1], False)
        if all(not lp and g == T for lp, g, _ in src) and len(src) == 1:
            return src[0][2]
        return ("star", self.build_comp("seq", src))

    def maplike(self, t):
        if t[0] in ("dict", "merge") or (t[0] == "comp" and t[1] == "map") or (
                t[0] == "co" and t[1] == "map"):
            return True
        ty = self.t.types.strip_opt(self.t.type_of(t))
        return bool(ty) and (ty[0] == "map" or (ty[0] == "cls" and self.is_maplike(ty[1])))

    # -- functions -------------------------------------------------------------------------------

    def lib_call(self, q, args, kwargs, st, fr):
        head, _, n = q.rpartition(".")
        if q == "builtins.dict" and "**" in kwargs and len(args) < 2 and not hasstar(args):
            return self.lib_dict(args, kwargs, st, fr)
        if hasstar(args) or "**" in kwargs:
            if q == "itertools.chain" and len(args) == 1 and args[0][0] == "star":
                return self.lib_call("itertools.chain.from_iterable", [args[0][1]], {}, st, fr)
            return self.opaque(glob(q), args, kwargs, st)
        if head == "builtins":
            m = getattr(self, "lib_" + n, None)
            if m is not None:
                r = m(args, kwargs, st, fr)
                if r is not None:
                    return r
            return self.opaque(glob(q), args, kwargs, st)
        if q in OPERATORS and len(args) == 2:
            return [(st, self.binop(OPERATORS[q], *args))]
        if q in CMPS and len(args) == 2:
            return [(st, mk_bool(self.compare(CMPS[q](), *args)))]
        if q == "operator.contains" and len(args) == 2:
            return [(st, mk_bool(contains(args[1], args[0])))]
        if q == "operator.getitem" and len(args) == 2:
            return [(st, self.index(*args))]
        if q == "operator.itemgetter":
            return [(st, ("itemgetter", *args))]
        if q == "operator.attrgetter" and len(args) == 1 and is_const(args[0]):
            return [(st, ("attrgetter", args[0][2]))]
        if q == "functools.partial" and args:
            return [(st, ("partial", args[0], tuple(args[1:]), tuple(sorted(kwargs.items()))))]
        if q == "functools.reduce" and len(args) == 2:
            xs = args[1]
            head = xs[1] if xs[0] == "cat" else xs
            if head[0] in ("tuple", "list") and len(head) > 1 and head[1][0] != "star":
                rest = (head[0], *head[2:])
                args = [args[0], cat(rest, *xs[2:]) if xs[0] == "cat" else rest, head[1]]
        if q == "functools.reduce" and len(args) in (2, 3):
            if args[0] == glob("operator.xor") and len(args) == 3:
                return [(st, self.xor(args[2], self.star_arg(("star", args[1]))))]
            if args[0][0] == "clo" and len(args) == 3:
                a, b = fresh(), fresh()
                r = self.call(args[0], [a, b], {}, St({}), fr)
                if len(r) == 1 and r[0][0].out is None and r[0][0].pc == T and not r[0][0].ev:
                    for op, name in (("^", "xor"), ("|", "or_")):
                        if r[0][1] in (self.binop(op, a, b), self.binop(op, b, a)):
                            return self.lib_call(q, [glob("operator." + name), *args[1:]], {}, st, fr)
            if args[0] == glob("operator.or_") and len(args) == 3 and self.setlike(args[2]):
                return self.lib_method(args[2], "union", [("star", args[1])], {}, st, fr)
        if q == "builtins.dict.fromkeys" and len(args) == 2 and not kwargs and not hasstar(args):
            return [(st, self.build_comp("map", [
                (lp, g, ("kv", e, args[1])) for lp, g, e in self.sources(args[0], True)]))]
        if q in ("collections.defaultdict", "collections.OrderedDict") and len(args) <= 1:
            if q.endswith("OrderedDict"):
                return [(st, self.mapping(glob("builtins.dict"), args, kwargs))]
            return [(st, ("dict",))]
        if q == "itertools.chain":
            return [(st, cat(*args))]
        if q == "itertools.chain.from_iterable" and len(args) == 1:
            parts = []
            for lp, g, e in self.sources(args[0]):
                for lp2, g2, e2 in self.sources(e):
                    parts.append((lp + lp2, f_and(g, g2), e2))
            return [(st, self.build_comp("seq", parts))]
        if q == "itertools.starmap" and len(args) == 2:
            return self.map_call(args[0], args[1], st, fr, star=True)
        if q in ("pathlib.Path", "os.fspath") and len(args) == 1 and args[0][0] == "call" and \
                args[0][1] == glob("pathlib.Path"):
            return [(st, args[0])]
        if q == "io.open":
            return self.lib_open(args, kwargs, st, fr)
        if q in ("pydantic.Field", "pydantic.PrivateAttr") and "**" not in kwargs and kwargs.get(
                "default_factory", NONE)[0] == "partial":
            # called without arguments
            res = self.call(kwargs["default_factory"], [], {}, St({}), fr)
            if all(s.out is None and not s.ev for s, _ in res):
                kwargs = {**kwargs, "default_factory": (
                    "lam", (), tuple((s.pc, self.freeze(x)) for s, x in res))}
        if q == "copy.copy" and len(args) == 1 and self.is_local(args[0]):
            return [(st, args[0])]
        return self.opaque(glob(q), args, kwargs, st)

    def lib_isinstance(self, args, kwargs, st, fr):
        if len(args) == 2:
            return [(st, mk_bool(self.inst("inst", *args)))]

    def lib_issubclass(self, args, kwargs, st, fr):
        if len(args) == 2:
            return [(st, mk_bool(self.inst("subcls", *args)))]

    def inst(self, kind, x, c):
        if c[0] in ("tuple", "utype") and not hasstar(c[1:]):
            return f_or(*(self.inst(kind, x, e) for e in c[1:]))
        if kind == "inst" and c in (glob("types.NoneType"), NONE,
                                    ("call", glob("builtins.type"), (NONE,), ())):
            return isnone(x)
        if kind == "inst" and is_const(x) and c[0] == "g" and c[1].startswith("builtins."):
            n = c[1][9:]
            if n == x[1]:
                return T
            if n in ("str", "int", "bool", "float", "list", "dict", "tuple", "bytes") and \
                    not (x[1] == "bool" and n == "int"):
                return F
        if kind == "subcls" and x[0] == "call" and x[1] == glob("builtins.type") and len(x[2]) == 1 \
                and c[0] == "g" and (c[1].startswith("builtins.") or c[1] in self.p.classes):
            return self.inst("inst", x[2][0], c)
        return (kind, x, c)

    def lib_any(self, args, kwargs, st, fr):
        if len(args) == 1:
            f = f_or(*(exists(lp, f_and(g, truth(e))) for lp, g, e in self.sources(args[0], False)))
            return [(st, mk_bool(f))]

    def lib_all(self, args, kwargs, st, fr):
        if len(args) == 1:
            f = f_or(*(exists(lp, f_and(g, f_not(truth(e))))
                       for lp, g, e in self.sources(args[0], False)))
            return [(st, mk_bool(f_not(f)))]

    def lib_len(self, args, kwargs, st, fr):
        if len(args) == 1:
            t = args[0]
            while t[0] == "co" and t[1] in ("seq", "tuple", "list", "map"):
                t = t[2]
            if t[0] == "tuple" and not hasstar(t[1:]):
                return [(st, const(len(t) - 1))]
            if t[0] == "c" and isinstance(t[2], (tuple, str)):
                return [(st, const(len(t[2])))]
            if t[0] == "call" and t[1][0] == "a" and t[1][2] in ("items", "keys", "values") and \
                    not t[2]:
                t = t[1][1]
            return [(st, ("call", glob("builtins.len"), (self.freeze(t),), ()))]

    def lib_bool(self, args, kwargs, st, fr):
        if len(args) == 1:
            return [(st, mk_bool(truth(args[0])))]

    def lib_str(self, args, kwargs, st, fr):
        if len(args) == 1:
            t = args[0]
            if t[0] == "fstr" or (is_const(t) and isinstance(t[2], str)):
                return [(st, t)]
            if is_const(t) and isinstance(t[2], int):
                return [(st, const(str(t[2])))]
        elif not args:
            return [(st, const(""))]

    def to_seq(self, t):
        if t[0] in ("tuple", "cat") or (t[0] == "comp" and t[1] == "seq"):
            return t
        if t[0] == "list":
            return ("tuple", *t[1:])
        if t[0] == "co" and t[1] == "seq":
            return t
        if t[0] == "c" and isinstance(t[2], tuple):
            return ("tuple", *map(const, t[2]))
        if t[0] == "call" and t[1][0] == "g" and t[1][1] in (
                "builtins.sorted", "builtins.reversed", "builtins.zip", "builtins.enumerate",
                "builtins.range"):
            if t[1][1] == "builtins.sorted":
                return t
            src = self.sources(t)
            if len(src) > 1 or src[0][0] and src[0][0][0][1] != t or not src[0][0]:
                return self.build_comp("seq", src)
        if t[0] == "call" and t[1][0] == "a" and t[1][2] in ("items", "values", "keys") and \
                not t[2]:
            return self.build_comp("seq", self.sources(t))
        if t[0] == "comp" and t[1] == "set" and len(t[2]) == 1 and self.setlike(t[2][0][1]) and \
                all(e == t[2][0][0] for _, e in t[3]):
            # a filtered set: each element once
            return ("comp", "seq", *t[2:])
        return ("co", "seq", t)

    def lib_list(self, args, kwargs, st, fr):
        if not args:
            return [(st, ("tuple",))]
        return [(st, self.to_seq(args[0]))]

    lib_tuple = lib_list

    def lib_iter(self, args, kwargs, st, fr):
        if len(args) == 1:
            return [(st, args[0])]

    def to_set(self, t, kind="set"):
        if t[0] in ("tuple", "list"):
            t = ("set", *t[1:])
        elif t[0] == "comp" and t[1] in ("seq", "set"):
            parts = [(lp, g, e) for lp, g, e in self.sources(t, False)]
            t = self.build_comp("set", parts)
        elif t[0] == "co" and t[1] in ("seq", "tuple", "set", "frozenset"):
            t = ("co", "set", t[2])
        elif t[0] == "cat":
            t = self.union(*(self.to_set(x) for x in t[1:]))
        elif t[0] == "call" and t[1][0] == "a" and t[1][2] in ("items", "values") and not t[2]:
            t = self.build_comp("set", self.sources(t, False))
        elif t[0] == "call" and t[1][0] == "a" and t[1][2] == "keys" and not t[2]:
            t = ("co", "set", t[1][1])
        elif t[0] not in ("set", "uni", "diff", "inter"):
            t = ("co", "set", t)
        if kind == "frozenset":
            if t[0] == "co":
                return ("co", "frozenset", t[2])
            return ("co", "frozenset", t)
        return t

    def lib_set(self, args, kwargs, st, fr):
        return [(st, self.to_set(args[0]) if args else ("set",))]

    def lib_frozenset(self, args, kwargs, st, fr):
        return [(st, self.to_set(args[0], "frozenset") if args else ("co", "frozenset", ("set",)))]

    def lib_dict(self, args, kwargs, st, fr):
        return [(st, self.mapping(glob("builtins.dict"), args, dict(kwargs)))]

    def lib_sorted(self, args, kwargs, st, fr):
        if len(args) == 1:
            t = args[0]
            while t[0] == "co" and t[1] == "seq":
                t = t[2]
            if kwargs.get("reverse") == FALSE:
                kwargs.pop("reverse")
            if kwargs.get("key") == NONE:
                kwargs.pop("key")
            key = self.freeze(kwargs["key"]) if "key" in kwargs else NONE
            if key[0] == "lam" and len(key[1]) == 1 and kwargs.get("reverse", TRUE) == TRUE and all(
                    x[:2] == ("un", "USub") for _, x in key[2]):
                # both keep the order of equal elements
                kwargs["key"] = ("lam", key[1], tuple((g, x[2]) for g, x in key[2]))
                if kwargs.pop("reverse", None) is None:
                    kwargs["reverse"] = TRUE
            if t[0] == "call" and t[1][0] == "a" and t[1][2] in ("items", "values") and not t[2]:
                t = self.build_comp("seq", self.sources(t))
            return self.opaque(glob("builtins.sorted"), [t], kwargs, st)

    def lib_map(self, args, kwargs, st, fr):
        if len(args) == 2:
            return self.map_call(args[0], args[1], st, fr)

    def lib_filter(self, args, kwargs, st, fr):
        if len(args) == 2:
            return self.map_call(args[0], args[1], st, fr, keep=True)

    def map_call(self, fn, it, st, fr, keep=False, star=False):
        parts, out = [], []
        state = st
        for lp, g, e in self.sources(it):
            if fn == NONE:
                parts.append((lp, f_and(g, truth(e)), e))
                continue
            if star:
                n = len(e) - 1 if e[0] == "tuple" else None
                if n is None:
                    return self.opaque(glob("itertools.starmap"), [fn, it], {}, st)
                a = list(e[1:])
            else:
                a = [e]
            res = self.call(fn, a, {}, St(dict(st.env)), fr)
            ev, rs = self.collect(res, lp, g)
            raised, state = self.close_round(state, lp, ev, rs)
            out.extend((s, NONE) for s in raised)
            for s, v in res:
                if s.out is None:
                    if keep:
                        f = f_and(g, s.pc, truth(v))
                        if f != F:
                            parts.append((lp, f, e))
                    else:
                        parts.append((lp, f_and(g, s.pc), v))
        if not keep:
            return [*out, (state, self.build_comp("seq", parts))]
        for s, f in self.split_fixed(state, parts):
            out.append((s, self.build_comp("seq", [(lp, assuming(g, f), v) for lp, g, v in parts
                                                   if assuming(g, f) != F])))
        return out

    def lib_vars(self, args, kwargs, st, fr):
        if len(args) == 1 and not kwargs:
            return self.getattr(args[0], "__dict__", st, fr)

    def lib_getattr(self, args, kwargs, st, fr):
        if len(args) == 2 and is_const(args[1]) and isinstance(args[1][2], str):
            return self.getattr(args[0], args[1][2], st, fr)

    def lib_setattr(self, args, kwargs, st, fr):
        if len(args) == 3 and is_const(args[1]) and isinstance(args[1][2], str):
            v = self.freeze(args[2])
            return [(st.emit(("set", ("setattr", args[0], args[1], v), (), T)), NONE)]

    def lib_next(self, args, kwargs, st, fr):
        if len(args) == 2 and args[0][0] == "comp" and args[0][1] == "seq" and not args[0][2]:
            out, none = [], st  # the first of a few
            for g, e in args[0][3]:
                out.append((none.assume(g), e))
                none = none.assume(f_not(g))
            return [(s, e) for s, e in (*out, (none, args[1])) if s.pc != F]
        if len(args) == 2 and args[0][0] == "comp" and len(args[0][2]) >= 1:
            _, _, loops, alts = args[0]
            some = exists(loops, f_or(*(g for g, _ in alts)))
            return [(st.assume(some), ("first", loops, alts, NONE)),
                    (st.assume(f_not(some)), args[1])]

    def lib_open(self, args, kwargs, st, fr):
        names = ["file", "mode", "buffering", "encoding", "errors", "newline"]
        kw = dict(zip(names, args))
        kw.update(kwargs)
        if kw.get("mode") in (const("r"), const("rt")):
            del kw["mode"]
        f = kw.get("file")
        if f is not None and f[0] == "call" and f[1] in (glob("pathlib.Path"), glob("builtins.str")) \
                and len(f[2]) == 1:
            kw["file"] = f[2][0]
        return self.opaque(glob("builtins.open"), [], kw, st)

    def lib_print(self, args, kwargs, st, fr):
        return [(st, NONE)]

    def lib_hasattr(self, args, kwargs, st, fr):
        if len(args) == 2:
            t = ("call", glob("builtins.hasattr"), tuple(args), ())
            return [(st, mk_bool(("truth", t)))]

    def lib_type(self, args, kwargs, st, fr):
        if len(args) == 1 and args[0] == NONE:
            return [(st, glob("types.NoneType"))]

    def lib_max(self, args, kwargs, st, fr):
        return None
