"""Expressions."""
from __future__ import annotations

import ast

from .engine_base import St, TooComplex
from .engine_base import (attr, cat, contains, eq, fstr, ge, isnone, mk_bool, strip_co, truth,
                          type_name)
from .engine_iter import LOCAL_CONTAINERS, exists, mentions
from .terms import (F, FALSE, NONE, T, TRUE, const, f_and, f_not, f_or, fresh, glob, is_const, subst, unk)

BINOPS = {ast.Add: "+", ast.Sub: "-", ast.Mult: "*", ast.Div: "/", ast.FloorDiv: "//", ast.Mod: "%",
          ast.Pow: "**", ast.LShift: "<<", ast.RShift: ">>", ast.BitOr: "|", ast.BitXor: "^",
          ast.BitAnd: "&", ast.MatMult: "@"}
FOLDABLE = {"+": lambda a, b: a + b, "-": lambda a, b: a - b, "*": lambda a, b: a * b,
            "**": lambda a, b: a ** b, "<<": lambda a, b: a << b, "//": lambda a, b: a // b,
            "%": lambda a, b: a % b, "|": lambda a, b: a | b, "&": lambda a, b: a & b}

PARAM_CONSTS = ("empty", "POSITIONAL_ONLY", "POSITIONAL_OR_KEYWORD", "VAR_POSITIONAL", "KEYWORD_ONLY",
                "VAR_KEYWORD")


MODULE_INFO = ("module_finder", "name", "ispkg")


def just_set(st, name):
    """What the statements right before this one stored in an attribute of the object."""
    for kind, t, loops, g in reversed(st.ev):
        if kind != "set" or loops or g != T or t[0] != "setattr" or t[1] != ("p", "self"):
            return None
        if t[2] in (name, const(name)):
            return t[3]
    return None


class ExprMixin:
    def evs(self, nodes, st, fr):
        """Evaluate expressions left to right: [(state, [terms])]."""
        res = [(st, [])]
        for n in nodes:
            nxt = []
            for s, ts in res:
                if s.out is not None:
                    nxt.append((s, ts))
                    continue
                for s2, t in self.ev(n, s, fr):
                    nxt.append((s2, [*ts, t]))
            res = nxt
            if len(res) > self.max_states:
                raise TooComplex("expression paths")
        return res

    def ev(self, n, st, fr):
        if st.out is not None:
            return [(st, NONE)]
        m = getattr(self, "ev_" + type(n).__name__, None)
        if m is None:
            return [(st, unk(type(n).__name__))]
        return m(n, st, fr)

    def ev_Constant(self, n, st, fr):
        return [(st, const(n.value))]

    def ev_Name(self, n, st, fr):
        if n.id in st.env:
            return [(st, st.env[n.id])]
        return [(st, self.global_name(n.id, fr))]

    def global_name(self, name, fr):
        q = self.p.resolve_name(fr.module, name)
        if q is None:
            tps = [*getattr(fr.node, "type_params", ()), *getattr(
                getattr(fr.func, "node", None), "type_params", ())]
            c = self.p.classes.get(fr.cls)
            if c is not None:
                tps += getattr(c.node, "type_params", ())
            if any(t.name == name for t in tps):
                return glob(f"typevar.{name}")
            f = fr.func
            if f is not None and f.module is fr.module and not self.binds(f, name):
                return glob(f"undefined.{name}")
            return unk(f"name {name}")
        return self.glob(q)

    def binds(self, f, name):
        """Whether anything in the function (or what is around it) may define that name."""
        tops = [x for x in f.module.tree.body
                if x.lineno <= f.node.lineno <= (x.end_lineno or x.lineno)]
        k = (f.module.name, tops[0].lineno if tops else 0)
        names = self.bound_names.get(k)
        if names is None:
            names = self.bound_names[k] = set()
            for x in (y for top in (tops or [f.module.tree]) for y in ast.walk(top)):
                if isinstance(x, ast.Name) and not isinstance(x.ctx, ast.Load):
                    names.add(x.id)
                elif isinstance(x, ast.arg):
                    names.add(x.arg)
                elif isinstance(x, ast.alias):
                    names.add((x.asname or x.name).split(".")[0])
                elif isinstance(x, ast.MatchMapping):
                    names.add(x.rest)
                elif isinstance(x, (ast.FunctionDef, ast.ClassDef, ast.ExceptHandler, ast.MatchAs,
                                    ast.MatchStar, ast.TypeVar)):
                    names.add(x.name)
            if any(isinstance(x, ast.ImportFrom) and any(a.name == "*" for a in x.names)
                   for x in ast.walk(f.module.tree)):
                names.add("*")
        return name in names or "*" in names or name.startswith("__")

    def glob(self, q):
        if q == "builtins.Ellipsis":
            return const(...)
        return self.named(q)

    def named(self, q):
        """A global by qualified name: constants are folded, new helpers evaluated."""
        if q in self.gcache:
            return self.gcache[q]
        self.gcache[q] = glob(q)
        v = self.p.var(q)
        r = glob(q)
        if v is not None:
            m, node = v
            c = self.const_expr(node)
            if c is not None:
                r = const(c[0])
            elif isinstance(node, ast.Name):
                q2 = self.p.resolve_name(m, node.id)
                if q2 is not None and q2 != q:
                    r = self.glob(q2)
            elif self.inventory is not None and q not in self.inventory:
                from .engine_base import Frame
                try:
                    res = self.ev(node, St({}), Frame(m))
                    if len(res) == 1 and res[0][0].out is None and res[0][1][0] not in ("clo", "unk"):
                        r = res[0][1]
                except TooComplex:
                    pass
        self.gcache[q] = r
        return r

    def const_expr(self, node):
        if isinstance(node, ast.Constant) and not isinstance(node.value, type(...)):
            return (node.value,)
        if isinstance(node, ast.Tuple):
            xs = [self.const_expr(e) for e in node.elts]
            if all(x is not None for x in xs):
                return (tuple(x[0] for x in xs),)
        if isinstance(node, ast.UnaryOp) and isinstance(node.op, ast.USub):
            x = self.const_expr(node.operand)
            if x is not None and isinstance(x[0], (int, float)):
                return (-x[0],)
        return None

    def ev_NamedExpr(self, n, st, fr):
        return [(s if s.out is not None else s.bind(n.target.id, t), t)
                for s, t in self.ev(n.value, st, fr)]

    def ev_Tuple(self, n, st, fr, kind="tuple"):
        elts = [e.value if isinstance(e, ast.Starred) else e for e in n.elts]
        out = []
        for s, ts in self.evs(elts, st, fr):
            if s.out is not None:
                out.append((s, NONE))
                continue
            items = []
            for e, t in zip(n.elts, ts):
                if isinstance(e, ast.Starred):
                    if t[0] in ("tuple", "list"):
                        items.extend(t[1:])
                    else:
                        items.append(("star", t))
                else:
                    items.append(t)
            out.append((s, self.seq_lit(kind, items)))
        return out

    def seq_lit(self, kind, items):
        if any(i[0] == "star" for i in items) and kind in ("tuple", "list"):
            if len(items) == 1:
                return ("co", "seq", items[0][1]) if items[0][1][0] not in ("comp", "cat") else items[0][1]
            parts = [i[1] if i[0] == "star" else ("tuple", i) for i in items]
            return cat(*parts)
        if kind == "set" and any(i[0] == "star" for i in items):
            return self.union(*(("co", "set", i[1]) if i[0] == "star" else ("set", i) for i in items))
        if kind == "list":
            kind = "tuple"
        return (kind, *items)

    def ev_List(self, n, st, fr):
        return self.ev_Tuple(n, st, fr, "list")

    def ev_Set(self, n, st, fr):
        return self.ev_Tuple(n, st, fr, "set")

    def ev_Dict(self, n, st, fr):
        nodes = []
        for k, v in zip(n.keys, n.values):
            if k is not None:
                nodes.append(k)
            nodes.append(v)
        out = []
        for s, ts in self.evs(nodes, st, fr):
            if s.out is not None:
                out.append((s, NONE))
                continue
            it = iter(ts)
            parts = []
            for k, v in zip(n.keys, n.values):
                if k is None:
                    parts.append(next(it))
                else:
                    parts.append(("dict", ("kv", next(it), next(it))))
            t = self.merge(("dict",), *parts)
            if t[0] not in ("dict", "comp", "merge", "acc"):
                t = ("co", "map", t)
            out.append((s, t))
        return out

    def ev_Starred(self, n, st, fr):
        return [(s, ("star", t)) for s, t in self.ev(n.value, st, fr)]

    def ev_Slice(self, n, st, fr):
        nodes = [x for x in (n.lower, n.upper, n.step)]
        out = []
        for s, ts in self.evs([x for x in nodes if x is not None], st, fr):
            it = iter(ts)
            lo, hi, step = (NONE if x is None else next(it) for x in nodes)
            if step == const(1):
                step = NONE
            out.append((s, ("slice", NONE if lo == const(0) and step == NONE else lo, hi, step)))
        return out

    def ev_JoinedStr(self, n, st, fr):
        nodes = [v.value for v in n.values if isinstance(v, ast.FormattedValue)]
        out = []
        for s, ts in self.evs(nodes, st, fr):
            if s.out is not None:
                out.append((s, NONE))
                continue
            it = iter(ts)
            parts = []
            for v in n.values:
                if isinstance(v, ast.Constant):
                    parts.append(const(v.value))
                else:
                    t = next(it)
                    if v.conversion == 114:
                        t = ("call", glob("builtins.repr"), (t,), ())
                    if v.format_spec is not None:
                        spec = ast.unparse(v.format_spec)
                        t = ("call", glob("builtins.format"), (t, const(spec)), ())
                    parts.append(t)
            out.append((s, fstr(parts)))
        return out

    def ev_IfExp(self, n, st, fr):
        out = []
        for s, f in self.cond(n.test, st, fr):
            if s.out is not None:
                out.append((s, NONE))
                continue
            a, b = s.assume(f), s.assume(f_not(f))
            if a.pc != F:
                out.extend(self.ev(n.body, a, fr))
            if b.pc != F:
                out.extend(self.ev(n.orelse, b, fr))
        return self.merge_results(out)

    def merge_results(self, res):
        """Merge results with the same environment, events and value."""
        if len(res) < 2:
            return res
        by = {}
        for s, t in res:
            if s.pc == F:
                continue
            key = (tuple(sorted(s.env.items(), key=lambda kv: kv[0])), s.ev, s.out, t)
            if key in by:
                by[key][0].pc = f_or(by[key][0].pc, s.pc)
            else:
                by[key] = (s.copy(), t)
        return list(by.values())

    def ev_BoolOp(self, n, st, fr):
        # pure boolean operands stay formulas; everything else forks
        vals, rest = n.values, None
        isand = isinstance(n.op, ast.And)
        out = []

        def rec(i, s, acc):
            for s2, t in self.ev(vals[i], s, fr):
                if s2.out is not None:
                    out.append((s2, NONE))
                    continue
                last = i == len(vals) - 1
                isb = t[0] == "bool" or t in (TRUE, FALSE)
                f = truth(t)
                if last:
                    if isb and acc is not None:
                        out.append((s2, mk_bool(f_and(acc, f) if isand else f_or(acc, f))))
                    elif acc is not None:
                        # acc is a formula deciding whether this operand is reached
                        a = s2.assume(acc if isand else f_not(acc))
                        b = s2.assume(f_not(acc) if isand else acc)
                        if a.pc != F:
                            out.append((a, t))
                        if b.pc != F:
                            out.append((b, FALSE if isand else TRUE))
                    else:
                        out.append((s2, t))
                    continue
                if isb:
                    base = acc if acc is not None else (T if isand else F)
                    nacc = f_and(base, f) if isand else f_or(base, f)
                    # is the next operand effect free? evaluate it under the assumption
                    go = s2.assume(nacc if isand else f_not(nacc))
                    nxt = self.probe(vals[i + 1], s2, fr)
                    if nxt:
                        rec(i + 1, s2, nacc)
                    else:
                        stop = s2.assume(f_not(nacc) if isand else nacc)
                        if stop.pc != F:
                            out.append((stop, FALSE if isand else TRUE))
                        if go.pc != F:
                            rec(i + 1, go, None)
                else:
                    if acc is not None:
                        stop = s2.assume(f_not(acc) if isand else acc)
                        if stop.pc != F:
                            out.append((stop, FALSE if isand else TRUE))
                        s2 = s2.assume(acc if isand else f_not(acc))
                    go = s2.assume(f if isand else f_not(f))
                    stop = s2.assume(f_not(f) if isand else f)
                    if stop.pc != F:
                        out.append((stop, t))
                    if go.pc != F:
                        rec(i + 1, go, None)

        rec(0, st, None)
        return self.merge_results(out)

    def probe(self, node, st, fr):
        """Whether evaluating the node yields one value, no events, no exception, no binding."""
        if any(isinstance(x, ast.NamedExpr) for x in ast.walk(node)):
            return False
        res = self.ev(node, St(dict(st.env)), fr)
        return all(s.out is None and not s.ev for s, _ in res) and len(res) == 1

    def cond(self, n, st, fr):
        """Evaluate as a condition: [(state, formula)]."""
        if st.out is not None:
            return [(st, F)]
        if isinstance(n, ast.UnaryOp) and isinstance(n.op, ast.Not):
            return [(s, f_not(f)) for s, f in self.cond(n.operand, st, fr)]
        if isinstance(n, ast.BoolOp):
            isand = isinstance(n.op, ast.And)
            out = []

            def rec(i, s, acc):
                # acc: formula of the operands so far (for this path)
                for s2, f in self.cond(n.values[i], s, fr):
                    if s2.out is not None:
                        out.append((s2, F))
                        continue
                    a2 = f if acc is None else (f_and(acc, f) if isand else f_or(acc, f))
                    if i == len(n.values) - 1:
                        out.append((s2, a2))
                        continue
                    go = s2.assume(a2 if isand else f_not(a2))
                    if go.pc == F:
                        out.append((s2, a2))
                        continue
                    nxt = self.cond(n.values[i + 1], St(dict(s2.env)), fr)
                    if len(nxt) == 1 and nxt[0][0].out is None and not nxt[0][0].ev and \
                            nxt[0][0].pc == T:
                        if nxt[0][0].env == s2.env:
                            rec(i + 1, s2, a2)
                        else:
                            # only binds names (walrus): keep one path
                            rec(i + 1, s2, a2)
                    else:
                        stop = s2.assume(f_not(a2) if isand else a2)
                        if stop.pc != F:
                            out.append((stop, F if isand else T))
                        rec(i + 1, go, None)
            rec(0, st, None)
            return out
        return [(s, truth(t)) for s, t in self.ev(n, st, fr)]

    def ev_UnaryOp(self, n, st, fr):
        if isinstance(n.op, ast.Not):
            return [(s, mk_bool(f_not(f)) if s.out is None else NONE)
                    for s, f in self.cond(n.operand, st, fr)]
        out = []
        for s, t in self.ev(n.operand, st, fr):
            if is_const(t) and isinstance(t[2], (int, float)):
                if isinstance(n.op, ast.USub):
                    out.append((s, const(-t[2])))
                    continue
                if isinstance(n.op, ast.Invert):
                    out.append((s, const(~t[2])))
                    continue
            out.append((s, ("un", type(n.op).__name__, t)))
        return out

    def ev_Compare(self, n, st, fr):
        out = []
        for s, ts in self.evs([n.left, *n.comparators], st, fr):
            if s.out is not None:
                out.append((s, NONE))
                continue
            f = f_and(*(self.compare(op, a, b) for op, a, b in zip(n.ops, ts, ts[1:])))
            out.append((s, mk_bool(f)))
        return out

    def is_mutable_set(self, t):
        ty = self.t.types.strip_opt(self.t.type_of(t))
        return bool(ty) and ty[0] == "seq" and len(ty) > 2 and ty[2] == "set"

    def setlike(self, t):
        t0 = t
        if t[0] in ("set", "diff", "inter", "uni"):
            return True
        if t[0] == "co":
            return t[1] in ("set", "frozenset")
        if t[0] == "comp":
            return t[1] == "set"
        ty = self.t.types.strip_opt(self.t.type_of(t0))
        return bool(ty) and ty[0] == "seq" and len(ty) > 2 and ty[2] in (
            "set", "frozenset", "AbstractSet")

    def subset(self, a, b):
        v = None
        srcs = self.sources(a, False)
        return f_not(f_or(*(exists(lp, f_and(g, f_not(contains(e, b)))) for lp, g, e in srcs)))

    def compare(self, op, a, b):
        if isinstance(op, (ast.Eq, ast.NotEq)):
            a, b = (("co", "set", x[1][1]) if x[0] == "call" and x[1][0] == "a" and
                    x[1][2] == "keys" and not x[2] else x for x in (a, b))
            if self.setlike(a) and self.setlike(b):
                a, b = self.as_set(a), self.as_set(b)
            for x, y in ((a, b), (b, a)):
                d = self.sorted_unique(x)
                if d is not None and y[0] == "list" and all(map(is_const, y[1:])):
                    # the sorted keys are given ones exactly when the set of keys is
                    ks = [k[2] for k in y[1:]]
                    try:
                        same = sorted(set(ks)) == ks
                    except TypeError:
                        same = False
                    return self.compare(op, ("co", "set", d), ("set", *y[1:])) if same else \
                        F if isinstance(op, ast.Eq) else T
            f = eq(a, b)
            return f if isinstance(op, ast.Eq) else f_not(f)
        if isinstance(op, (ast.Is, ast.IsNot)):
            if b == NONE:
                f = isnone(a)
            elif a == NONE:
                f = isnone(b)
            elif is_const(b) or is_const(a):
                f = eq(a, b)
            elif a == b:
                f = T
            elif type_name(a) or type_name(b):
                # types and special forms are equal to themselves only
                f = eq(a, b)
            else:
                f = ("is", *sorted((a, b), key=repr))
            return f if isinstance(op, ast.Is) else f_not(f)
        if isinstance(op, (ast.In, ast.NotIn)):
            f = contains(a, b)
            return f if isinstance(op, ast.In) else f_not(f)
        if isinstance(op, (ast.LtE, ast.GtE)) and (self.setlike(a) or self.setlike(b)):
            if isinstance(op, ast.GtE):
                a, b = b, a
            return self.subset(a, b)
        # orderings
        def lenk(x, k):
            return x[0] == "call" and x[1] == glob("builtins.len") and is_const(k) and isinstance(
                k[2], int)
        if isinstance(op, ast.Lt):
            if lenk(a, b):
                return f_not(ge(a, b[2]))
            if lenk(b, a):
                return ge(b, a[2] + 1)
            if self.int_bound(b, a):
                return ge(b, a[2] + 1)
            if self.int_bound(a, b):
                return f_not(ge(a, b[2]))
            return ("lt", a, b)
        if isinstance(op, ast.GtE):
            if lenk(a, b):
                return ge(a, b[2])
            if lenk(b, a):
                return f_not(ge(b, a[2] + 1))
            if self.int_bound(b, a):
                return f_not(ge(b, a[2] + 1))
            if self.int_bound(a, b):
                return ge(a, b[2])
            return f_not(("lt", a, b))
        if isinstance(op, ast.Gt):
            return self.compare(ast.Lt(), b, a)
        return self.compare(ast.GtE(), b, a)

    def sorted_unique(self, t):
        """What is sorted, when it has no element twice."""
        while t[0] == "co" and t[1] in ("list", "seq"):
            t = t[2]
        if t[0] != "call" or t[1] != glob("builtins.sorted") or len(t[2]) != 1 or t[3]:
            return None
        d = t[2][0]
        ty = self.t.types.strip_opt(self.t.type_of(d))
        return d if self.setlike(d) or ty and ty[0] == "map" else None

    def int_bound(self, x, k):
        """An integer compared with an integer constant."""
        return is_const(k) and isinstance(k[2], int) and not isinstance(k[2], bool) and \
            self.t.type_of(x) == ("cls", "builtins.int")

    def as_set(self, t):
        """Set-valued terms compared for equality: drop the flavour of set."""
        if t[0] == "co" and t[1] in ("set", "frozenset"):
            return t[2] if self.setlike(t[2]) else ("co", "set", t[2])
        return t

    def ev_BinOp(self, n, st, fr):
        out = []
        for s, ts in self.evs([n.left, n.right], st, fr):
            out.append((s, NONE if s.out is not None else self.binop(BINOPS[type(n.op)], *ts)))
        return out

    def is_class(self, t):
        if t == NONE:
            return True
        if t[0] == "g":
            return t[1] in self.p.classes or t[1].rsplit(".", 1)[-1][:1].isupper() or t[1] in (
                "builtins.int", "builtins.str", "builtins.list", "builtins.tuple", "builtins.set",
                "builtins.frozenset", "builtins.dict", "builtins.bool", "builtins.float",
                "builtins.bytes", "builtins.classmethod", "builtins.staticmethod", "builtins.type",
                "datetime.date", "datetime.datetime", "datetime.time", "builtins.property")
        if t[0] == "i":
            return self.is_class(t[1])
        return t[0] == "utype"

    def binop(self, op, a, b):
        if is_const(a) and is_const(b) and op in FOLDABLE:
            try:
                r = FOLDABLE[op](a[2], b[2])
                if isinstance(r, (int, str, float, tuple)) and len(repr(r)) < 500:
                    return const(r)
            except Exception:
                pass
        if op == "%" and is_const(a) and isinstance(a[2], str):
            t = self.percent(a[2], b[1:] if b[0] == "tuple" else (b,))
            if t is not None:
                return t
        if op == "+":
            if a[0] == "fstr" or b[0] == "fstr" or (is_const(a) and isinstance(a[2], str)) or (
                    is_const(b) and isinstance(b[2], str)):
                return fstr([a, b])
            ta, tb = (self.t.types.strip_opt(self.t.type_of(x)) for x in (a, b))
            if ta == ("cls", "builtins.str") or tb == ("cls", "builtins.str"):
                return fstr([a, b])
            seqk = ("tuple", "list", "cat")
            if a[0] in seqk or b[0] in seqk or (a[0] == "comp" and a[1] == "seq") or (
                    b[0] == "comp" and b[1] == "seq") or (a[0] == "co" and a[1] != "set") or (
                    self.acc_kind(a) == "seq"):
                return cat(a, b)
            if a[0] == "c" and isinstance(a[2], tuple):
                return cat(("tuple", *map(const, a[2])), b)
            for t in (ta, tb):
                if t and t[0] == "seq" and t[2] in ("tuple", "list"):
                    return cat(a, b)
        if op in ("-", "&", "|"):
            # `x.keys()` is the set of the keys of x
            a, b = (self.to_set(x) if x[0] == "call" and x[1][0] == "a" and x[1][2] == "keys" and
                    not x[2] and not x[3] else x for x in (a, b))
        if op == "^":
            return self.xor(a, b)
        if op == "|":
            if self.is_class(a) and self.is_class(b):
                xs = []
                for x in (a, b):
                    xs.extend(x[1:] if x[0] == "utype" else [x])
                return ("utype", *sorted(set(xs), key=repr))
            if self.setlike(a) or self.setlike(b) or self.acc_kind(a) == "set":
                return self.union(a, b)
            ta, tb = (self.t.types.strip_opt(self.t.type_of(x)) for x in (a, b))
            if a[0] in ("dict", "merge") or b[0] in ("dict", "merge") or (
                    a[0] == "comp" and a[1] == "map") or (b[0] == "comp" and b[1] == "map") or (
                    ta and ta[0] == "map") or self.acc_kind(a) == "map":
                return self.merge(a, b)
        if op == "-" and (self.setlike(a) or self.setlike(b)):
            return self.difference(a, b)
        if op == "&" and (self.setlike(a) or self.setlike(b)):
            return ("inter", *sorted({strip_co(a), strip_co(b)}, key=repr))
        if op in ("+", "-"):
            return self.linear(("bin", op, a, b))
        return ("bin", op, a, b)

    def linear(self, t):
        """A sum of integers, in a fixed order and with one constant."""
        leaves, todo = [], [(1, t)]
        while todo:
            sign, x = todo.pop()
            if x[0] == "bin" and x[1] in ("+", "-"):
                todo += [(sign, x[2]), (sign if x[1] == "+" else -sign, x[3])]
            else:
                leaves.append((sign, x))
        if len(leaves) < 3 or not any(x[0] == "call" and x[1] == ("g", "builtins.int")
                                      for _, x in leaves):
            return t
        total = sum(s * x[2] for s, x in leaves if is_const(x) and type(x[2]) is int)
        rest = sorted(((-s, x) for s, x in leaves if not (is_const(x) and type(x[2]) is int)),
                      key=lambda p: (p[0], repr(p[1])))
        if not rest or rest[0][0] != -1:
            return t
        out = rest[0][1]
        for s, x in rest[1:]:
            out = ("bin", "+" if s < 0 else "-", out, x)
        if total:
            out = ("bin", "+" if total > 0 else "-", out, const(abs(total)))
        return out

    def difference(self, a, b):
        a, b = self.as_set(a), strip_co(b)
        if b[0] in ("tuple", "list"):
            b = ("set", *b[1:])
        if a[0] == "set" and b[0] == "set" and all(map(is_const, a[1:] + b[1:])):
            return ("set", *(x for x in a[1:] if x not in b[1:]))
        return ("diff", a, b)

    def acc_kind(self, t):
        """'seq' | 'set' | 'map' for a loop carried local container."""
        while t[0] == "acc" and t in self.acc_init:
            t = self.acc_init[t]
        k = t[0]
        if k in ("list", "cat", "tuple"):
            return "seq"
        if k in ("set", "uni"):
            return "set"
        if k in ("dict", "merge"):
            return "map"
        if k == "comp":
            return t[1]
        if k == "co":
            return {"set": "set", "frozenset": "set", "map": "map"}.get(t[1], "seq")
        return None

    def xor(self, *xs):
        out = []
        for x in xs:
            if x[0] == "xor":
                out.extend(x[1:])
            else:
                out.append(x)
        if len(out) == 1 and out[0][0] != "star":
            return out[0]
        return ("xor", *out)

    def union(self, *xs):
        out = []
        # the union is of the kind of the left operand
        frozen = bool(xs) and xs[0][0] == "co" and xs[0][1] == "frozenset"
        for x in xs:
            while x[0] == "co" and x[1] in ("set", "frozenset") and x[2][0] in (
                    "uni", "set", "diff", "inter", "comp"):
                x = x[2]
            ys = x[1:] if x[0] == "uni" else (x,)
            for y in ys:
                if y[0] in ("tuple", "list", "cat") or y[0] == "co" or (
                        y[0] == "comp" and y[1] == "seq") or y[0] == "call" and \
                        y[1][0] == "a" and y[1][2] in ("items", "values", "keys") and not y[2]:
                    y = self.to_set(y)
                if y[0] == "co" and self.setlike(y[2]):
                    y = y[2]
                for z in (y[1:] if y[0] == "uni" else (y,)):
                    if z[0] == "set" and out and any(w[0] == "set" for w in out):
                        i = next(i for i, w in enumerate(out) if w[0] == "set")
                        out[i] = ("set", *dict.fromkeys((*out[i][1:], *z[1:])))
                    elif z != ("set",) and z not in out:
                        out.append(z)
        r = ("set",) if not out else out[0] if len(out) == 1 else ("uni", *out)
        return ("co", "frozenset", r) if frozen else r

    def merge(self, *xs):
        out = []
        for x in xs:
            ys = x[1:] if x[0] == "merge" else (x,)
            for y in ys:
                if y[0] == "co" and y[1] == "map" and (y[2][0] != "p" or self.maplike(y[2])):
                    y = y[2]  # (a parameter of no known type may be pairs as well)
                if y == ("dict",) or y == ("tuple",):
                    continue
                if y[0] == "dict" and out and out[-1][0] == "dict":
                    items = list(out[-1][1:])
                    for kv in y[1:]:
                        if kv[0] == "kv" and kv[2][0] != "app":
                            items = [i for i in items if i[0] != "kv" or i[1] != kv[1]]
                        items.append(kv)
                    out[-1] = ("dict", *items)
                    continue
                out.append(y)
        if not out:
            return ("dict",)
        if len(out) == 1:
            return out[0]
        return ("merge", *out)

    def ev_Lambda(self, n, st, fr):
        return [(st, self.closure(n, st, fr))]

    def ev_ListComp(self, n, st, fr):
        return self.comp("seq", n.generators, lambda s: self.ev(n.elt, s, fr), st, fr,
                         (n.elt,))

    def ev_GeneratorExp(self, n, st, fr):
        return self.comp("gen", n.generators, lambda s: self.ev(n.elt, s, fr), st, fr,
                         (n.elt,))

    def ev_SetComp(self, n, st, fr):
        return self.comp("set", n.generators, lambda s: self.ev(n.elt, s, fr), st, fr,
                         (n.elt,))

    def ev_DictComp(self, n, st, fr):
        def elt(s):
            return [(s2, NONE if s2.out else ("kv", *ts))
                    for s2, ts in self.evs([n.key, n.value], s, fr)]
        return self.comp("map", n.generators, elt, st, fr, (n.key, n.value))

    def ev_Yield(self, n, st, fr):
        if n.value is None:
            res = [(st, NONE)]
        else:
            res = self.ev(n.value, st, fr)
        out = []
        for s, t in res:
            if s.out is None:
                s = s.bind("$y", cat(s.env.get("$y", ("tuple",)), ("tuple", t)))
            out.append((s, unk("sent value")))
        return out

    def ev_YieldFrom(self, n, st, fr):
        out = []
        for s, t in self.ev(n.value, st, fr):
            if s.out is None:
                s = s.bind("$y", cat(s.env.get("$y", ("tuple",)), t))
            out.append((s, unk("sent value")))
        return out

    def ev_Await(self, n, st, fr):
        return [(st, unk("await"))]

    # -- attributes and items --------------------------------------------------------------------

    def ev_Attribute(self, n, st, fr):
        q = None
        # a dotted global
        root = n
        while isinstance(root, ast.Attribute):
            root = root.value
        if isinstance(root, ast.Name) and root.id not in st.env:
            q = self.p.resolve_expr(fr.module, n)
            if q is not None:
                r = self.dotted(q, n, fr)
                if r is not None:
                    return [(st, r)]
        out = []
        for s, b in self.ev(n.value, st, fr):
            if s.out is not None:
                out.append((s, NONE))
                continue
            out.extend(self.getattr(b, n.attr, s, fr))
        return out

    def dotted(self, q, n, fr):
        head, _, tail = q.rpartition(".")
        if head in ("inspect.Parameter", "inspect.Signature") and tail in PARAM_CONSTS:
            return glob(f"inspect.Parameter.{tail}")
        if head in self.p.classes:
            a = self.p.find_attr(head, tail)
            if a is not None and a[1] is not None:
                c = self.const_expr(a[1])
                if c is not None:
                    return const(c[0])
            return attr(glob(head), tail)
        if head in self.p.modules:
            if q in self.p.modules or self.p.resolve_name(self.p.modules[head], tail) is not None:
                return self.glob(q)
            return glob(q)
        v = self.p.var(head)
        if v is not None:
            return None
        # attributes of attributes of classes etc: leave to the generic path
        base = head
        while base:
            if base in self.p.classes or self.p.var(base) is not None:
                return None
            base = base.rpartition(".")[0]
        return glob(q)

    def global_attr(self, b, name):
        """An attribute of a module, function or class held in a local name."""
        if b[0] != "g" or b[1] in self.p.classes:
            return None
        q = self.p.canonical(f"{b[1]}.{name}")
        return self.dotted(q, None, None) if q else None

    def getattr(self, b, name, st, fr):
        r = self.global_attr(b, name)
        if r is not None:
            return [(st, r)]
        if b[0] == "super":
            f = self.p.find_method(b[2], name, after=b[1])
            if f is not None and f.is_property:
                return self.call_func(f, [b[3]], {}, st, fr, self_cls=b[2])
            return [(st, ("superattr", b, name))]
        if name in MODULE_INFO and (it := self.viter.get(b)) and it[0] == "call" and \
                it[1] == glob("pkgutil.iter_modules"):
            return [(st, self.index(b, const(MODULE_INFO.index(name))))]
        if name == "__class__":
            return [(st, ("call", glob("builtins.type"), (b,), ()))]
        if b[0] == "g" and b[1] in self.p.classes:
            a = self.p.find_attr(b[1], name)
            if a is not None and a[1] is not None:
                c = self.const_expr(a[1])
                if c is not None:
                    return [(st, const(c[0]))]
            return [(st, attr(b, name))]
        if b[0] == "g" and b[1] in self.p.modules:
            return [(st, self.glob(f"{b[1]}.{name}"))]
        # attributes of a freshly constructed instance of a NamedTuple-like helper are not modelled
        q, iscls = self.t.cls_of(b)
        if q is not None and q in self.p.classes:
            f = self.p.find_method(q, name)
            if f is None and not iscls and self.t.types.field(q, name) is None:
                # only there for instances of one of the derived classes
                own = [c for c in self.p.subclasses.get(q, ()) if name in self.p.classes[c].methods]
                if len(own) == 1:
                    q = own[0]
                    f = self.p.classes[q].methods[name]
            if f is not None and f.is_property and not iscls and self.inline_property(f, q, fr):
                return self.call_func(f, [b], {}, st, fr, self_cls=q)
            if f is not None and f.is_property and iscls and f.deco("classproperty") and \
                    self.inline_property(f, q, fr):
                return self.call_func(f, [b], {}, st, fr, self_cls=q)
        elif q is None:
            f = self.unique_new_method(name)
            if f is not None and f.is_property:
                return self.call_func(f, [b], {}, st, fr, self_cls=f.cls.qual)
        v = self.given_field(b, name)
        if v is None and b == ("p", "self"):
            v = just_set(st, name)
        if v is None and iscls:
            v = self.fixed_attr(q, name)
        return [(st, attr(b, name) if v is None else v)]

    def class_attr(self, b, name):
        q, iscls = self.t.cls_of(b)
        return self.fixed_attr(q, name) if iscls else None

    def fixed_attr(self, q, name):
        """What an attribute of a class that nothing derives from names in the class body."""
        c = self.p.classes.get(q)
        if c is None or self.p.subclasses.get(q) or name not in c.attrs:
            return None
        v = c.attrs[name]
        if not isinstance(v, (ast.Name, ast.Attribute)):
            return None
        r = self.p.resolve_expr(c.module, v)
        if r is None or r.rpartition(".")[0] in self.p.modules and r not in self.p.classes:
            return None
        return self.glob(r)

    def of_signature(self, b):
        if b[0] == "i" and b[1][0] == "a" and b[1][2] == "parameters":
            b = b[1][1]
        if self.t.cls_of(b)[0] == "inspect.Signature":
            return True
        return b[0] == "call" and b[1][0] == "g" and b[1][1].rpartition(".")[2] == "signature"

    def given_field(self, b, name):
        """The field of a model just built, when what was passed for it is kept as it is."""
        if name in PARAM_CONSTS and ((self.t.cls_of(b)[0] or "").startswith("inspect.") or (
                name != "empty" and b[0] != "g") or self.of_signature(b)):
            return glob(f"inspect.Parameter.{name}")
        if name == "name" and b[0] == "i" and b[1][0] == "a" and b[1][2] == "parameters":
            return b[2]
        if b[0] != "call" or b[2]:
            return None
        v = dict(b[3]).get(name)
        q, iscls = self.t.cls_of(b[1])
        if b[1][0] == "a" and b[1][2] == "model_copy":
            q, iscls = self.t.cls_of(b[1][1])
            up = dict(b[3]).get("update")
            if iscls or up is None or up[0] != "dict" or any(
                    kv[0] != "kv" or kv[1][0] != "c" or kv[2][0] == "app" for kv in up[1:]):
                return None
            iscls = True
            up = {kv[1][2]: kv[2] for kv in up[1:]}
            v = up.get(name)
            if name not in up and q in self.p.classes and self.t.types.field(q, name) is not None \
                    and not name.startswith("_") and self.find_field(q, name) and \
                    not self.validated(q, name):
                return attr(b[1][1], name)
        if v is None or not iscls or q not in self.p.classes:
            return None
        ty = self.t.types.field(q, name)
        model = "arti.internal.models.Model"
        if ty is None or ty[0] != "cls" or model not in self.p.mro(ty[1]) or \
                model not in self.p.mro(q):
            return None
        return None if self.validated(q, name) else v

    def find_field(self, q, name):
        """A field (no property or constant of the class)."""
        a = self.p.find_annotation(q, name)
        return a is not None and "ClassVar" not in ast.unparse(a[1])

    def validated(self, q, name):
        """Whether a validator sees what is passed for a field."""
        for c in (*self.p.mro(q), *self.p.subclasses.get(q, ())):
            for m in self.p.classes[c].methods.values() if c in self.p.classes else ():
                for d in m.node.decorator_list:
                    if isinstance(d, ast.Call) and "validator" in ast.unparse(d.func) and (
                            "model" in ast.unparse(d.func) or any(
                            not isinstance(x, ast.Constant) or x.value in ("*", name)
                            for x in d.args)):
                        return True
        return False

    def ev_Subscript(self, n, st, fr):
        out = []
        for s, ts in self.evs([n.value, n.slice], st, fr):
            if s.out is not None:
                out.append((s, NONE))
                continue
            v = self.index(*ts)
            if v[0] == "i":
                v = self.entry(s, *ts) or v
            cases = self.by_literal(v)
            for k, x in cases or ():
                s2 = s.assume(eq(ts[1], k))
                if s2.pc != F:
                    out.append((s2, x))
            if not cases:
                out.append((s, v))
        return out

    def entry(self, st, b, k):
        """{v: f(v) for v in X if g(v)}[k], where g(k) is known to hold."""
        while b[0] in ("co", "frozen"):
            b = b[-1]
        if b[0] != "comp" or b[1] != "map" or len(b[2]) != 1 or not all(
                e[0] == "kv" and e[1] == b[2][0][0] and e[2][0] != "app" for _, e in b[3]):
            return None
        known = set(st.pc[1:] if st.pc[0] == "and" else (st.pc,))
        held = self.vguard.get(k, T)
        known.update(held[1:] if held[0] == "and" else (held,))
        for g, e in b[3]:
            m = {b[2][0][0]: k}
            g = subst(g, m)
            if g == T or set(g[1:] if g[0] == "and" else (g,)) <= known:
                return subst(e[2], m)
        return None

    def by_literal(self, t):
        """[(key, value)] of a literal table looked up with a value of a few literals."""
        if t[0] != "i" or t[1][0] != "dict" or len(t[1]) > 6 or not all(
                e[0] == "kv" and is_const(e[1]) for e in t[1][1:]):
            return None
        ty = self.t.type_of(t[2])
        if ty is None or ty[0] != "lit":
            return None
        table = {e[1]: e[2] for e in t[1][1:]}
        if not all(const(x) in table for x in ty[1]):
            return None
        return [(const(x), table[const(x)]) for x in ty[1]]

    def index(self, b, k):
        if k[0] == "idx" and self.viter.get(k[1]) == b:
            return k[1]
        if k[0] == "idx" and b[0] == "co" and b[1] in ("seq", "list", "tuple") and self.viter.get(
                k[1]) == b[2]:
            return k[1]
        if k[0] == "idx" and b[0] == "comp" and b[1] in ("seq", "list", "tuple") and \
                len(b[2]) == len(b[3]) == 1 and b[3][0][0] == T and b[2][0][1] == self.viter.get(k[1]):
            # [f(v) for v in X][i], i the position in X
            v = b[2][0][0]
            return subst(b[3][0][1], {("idx", v): k, v: k[1]})
        # what is at a position of a mapping's items
        if k[0] == "idx" and b[0] == "call" and b[1][0] == "a" and b[1][2] == "keys" and not b[2]:
            return self.index(b[1][1], k)
        if b[0] == "i" and b[2][0] == "idx" and b[1][0] == "call" and b[1][1][0] == "a" and \
                b[1][1][2] == "items" and not b[1][2] and k in (const(0), const(1)):
            d = b[1][1][1]
            return self.index(d if k == const(0) else ("call", ("a", d, "values"), (), ()), b[2])
        if b[0] in ("tuple", "list") and is_const(k) and isinstance(k[2], int) and not any(
                e[0] == "star" for e in b[1:]):
            if -len(b) + 1 <= k[2] < len(b) - 1:
                return b[1:][k[2]]
        if b[0] == "c" and isinstance(b[2], tuple) and is_const(k) and isinstance(k[2], int):
            if -len(b[2]) <= k[2] < len(b[2]):
                return const(b[2][k[2]])
        if b[0] == "tuple" and k[0] == "slice" and all(is_const(x) for x in k[1:]) and not any(
                e[0] == "star" for e in b[1:]):
            return ("tuple", *b[1:][slice(*(x[2] for x in k[1:]))])
        if b[0] == "dict" and all(e[0] == "kv" for e in b[1:]) and is_const(k):
            hits = [e[2] for e in b[1:] if e[1] == k]
            if hits and all(is_const(e[1]) for e in b[1:]):
                return hits[-1]
        if b[0] == "merge" and b[-1][0] == "dict" and b[-1][-1][0] == "kv" and \
                b[-1][-1][1] == k and b[-1][-1][2][0] != "app":
            return b[-1][-1][2]
        if b[0] == "dict" and len(b) > 1 and b[-1][0] == "kv" and b[-1][1] == k and \
                b[-1][2][0] != "app":
            return b[-1][2]
        if b[0] == "frozen":
            return self.index(b[1], k)
        if b[0] == "co" and b[1] in ("map", "seq", "list", "tuple") and k[0] != "slice":
            if b[2][0] == "call" and b[2][1] == glob("builtins.zip"):
                return self.index(b[2], k)
            return ("i", b[2], k)
        if b[0] == "comp" and b[1] in ("seq", "list", "tuple") and len(b[2]) == 1 and \
                len(b[3]) == 1 and b[3][0][0] == T and k[0] not in ("slice", "idx") and (
                not is_const(k) or isinstance(k[2], int)) and \
                (self.t.type_of(b[2][0][1]) or ("seq",))[0] in ("seq", "tup"):
            # [f(v) for v in X][n]
            v, src = b[2][0]
            if not (is_const(k) and k[2] < 0 and mentions(b[3][0][1], ("idx", v))):
                return subst(b[3][0][1], {("idx", v): k, v: self.index(src, k)})
        if b[0] == "comp" and b[1] in ("seq", "list", "tuple") and len(b[3]) == 1 and \
                b[3][0][0] == T and (k[0] == "slice" or is_const(k) and isinstance(k[2], int)):
            v, e = b[2][-1][0], b[3][0][1]
            if len(b[2]) > 1 and e != v and not any(mentions(e, x) for x, _ in b[2][:-1]):
                # [f(v) for w in X for v in Y(w)][k]: look into the values looped over
                inner = self.index(("comp", b[1], b[2], ((T, v),)), k)
                if k[0] != "slice":
                    return subst(e, {v: inner})
                loops, e2 = self.refresh(((v, inner),), e)
                return ("comp", b[1], loops, ((T, e2),))
            if len(b[2]) == 1 and k[0] == "slice" and e != v and (
                    self.t.type_of(b[2][0][1]) or ("seq",))[0] in ("seq", "tup"):
                loops, e2 = self.refresh(((v, self.index(b[2][0][1], k)),), e)
                return ("comp", b[1], loops, ((T, e2),))
        if b[0] == "comp" and b[1] == "map" and len(b[2]) == 1 and len(b[3]) == 1 and \
                b[3][0][0] == T and b[3][0][1][0] == "kv" and b[3][0][1][1] == b[2][0][0]:
            # {v: f(v) for v in X}[k], with k drawn from X
            if self.viter.get(k) == b[2][0][1]:
                    return subst(b[3][0][1][2], {b[2][0][0]: k})
        if b[0] == "call" and b[1] == glob("builtins.zip") and len(b[2]) > 1 and k[0] != "slice" and \
                not (is_const(k) and k[2] < 0) and not any(a[0] == "star" for a in b[2]):
            return ("tuple", *(self.index(a, k) for a in b[2]))
        if b[0] == "comp" and b[1] == "map" and len(b[3]) == 1 and b[3][0][0] == T and \
                b[3][0][1][0] == "kv" and self.distinct_keys(b[2], [b[3][0][1][1]]):
            # {K(v): f(v) for v in X}[K(w)], with w drawn from X
            m = {}
            if self.unify(b[3][0][1][1], k, {v for v, _ in b[2]}, m) and all(
                    v in m and self.viter.get(m[v]) == subst(src, m) for v, src in b[2]):
                return subst(b[3][0][1][2], m)
        return ("i", b, k)

    def unify(self, a, b, free, m):
        """Whether `a` is `b` once its `free` variables are replaced (recorded in `m`)."""
        if a in free:
            return m.setdefault(a, b) == b
        if not isinstance(a, tuple) or not isinstance(b, tuple):
            return a == b
        return len(a) == len(b) and all(self.unify(x, y, free, m) for x, y in zip(a, b))
