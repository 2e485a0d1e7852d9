"""Iteration: sources of an iterable, comprehensions and loops."""
from __future__ import annotations

import ast

from .engine_base import (St, TooComplex, cat, contains, fstr, is_const, mk_bool, truth,
                          type_name)
from .terms import (Canon, F, FALSE, NONE, T, TRUE, const, f_and, f_not, f_or, fresh, glob, subst, unk,
                    walk)

UNROLL = 8
LOCAL_CONTAINERS = ("list", "set", "dict", "comp", "cat", "uni", "merge")
ORDER_ONLY = ("sorted", "reversed", "list", "tuple", "iter")


def exists(loops, g):
    if g == F:
        return F
    if not loops:
        return g
    if len(loops) == 1:
        # a loop that looks for one particular element
        ps = [one_point(loops[0][0], x) for x in (g[1:] if g[0] == "or" else (g,))]
        if all(p is not None for p in ps):
            return f_or(*(f_and(contains(c, loops[0][1]), r) for c, r in ps))
    return ("exists", tuple(loops), g)


def one_point(v, g):
    """(c, rest) when the formula says that `v` is `c` and `rest`."""
    cs = g[1:] if g[0] == "and" else (g,)
    for c in cs:
        if c[0] == "eq" and v in c[1:]:
            x = c[2] if c[1] == v else c[1]
            if is_const(x) or type_name(x) or not mentions(x, v):
                return x, f_and(*(subst(y, {v: x}) for y in cs if y != c))
    return None


def mentions(t, x):
    return any(s == x for s in walk(t))


MUTATED = {}
MUTATING = {}


def alternatives(g, inside=False, neg=False):
    """The conditions a formula combines with others by `or`."""
    if g[0] == "not":
        return alternatives(g[1], inside, not neg)
    if g[0] in ("and", "or"):
        choice = g[0] == ("and" if neg else "or")
        return [x for y in g[1:] for x in alternatives(y, inside or choice, neg)]
    return [g] if inside and g not in (T, F) else []


def assuming(g, known):
    """The formula once some of its conditions are known."""
    if not known:
        return g
    if g in known:
        return known[g]
    if g[0] == "not":
        return f_not(assuming(g[1], known))
    if g[0] in ("and", "or"):
        return (f_and if g[0] == "and" else f_or)(*(assuming(x, known) for x in g[1:]))
    return g


def alike(a, b, m=None):
    """Whether two terms are equal up to the names of the variables they bind."""
    m = {} if m is None else m
    if not isinstance(a, tuple) or not isinstance(b, tuple):
        return a == b
    if a == b and not m:
        return True
    if len(a) == 2 and len(b) == 2 and a[0] == b[0] == "v":
        return m.get(a, a) == b
    if len(a) != len(b):
        return False
    if a and a[0] == "comp" and b[0] == "comp" and len(a[2]) == len(b[2]):
        m = {**m, **{v: w for (v, _), (w, _) in zip(a[2], b[2])}}
    return all(alike(x, y, m) for x, y in zip(a, b))


def mutated(node, fills=None):
    """(parameters, other names) whose value a function changes in place without rebinding them.

    `fills` is {name: [(function, bound parameters)]} of what is known to change its arguments.
    """
    r = MUTATED.get(id(node)) if fills is None else None
    if r is None or r[0] is not node:
        if isinstance(node, ast.Lambda):
            r = (node, frozenset(), frozenset())
        else:
            names = assigned_names(node.body, (lambda n: handed(n, fills)) if fills else None)
            bound = {x.id for b in node.body for x in ast.walk(b) if isinstance(x, ast.Name)
                     and isinstance(x.ctx, (ast.Store, ast.Del))}
            bound |= {x.name for b in node.body for x in ast.walk(b)
                      if isinstance(x, (ast.FunctionDef, ast.ClassDef))}
            a = node.args
            params = [p.arg for p in (*a.posonlyargs, *a.args, *a.kwonlyargs)]
            names -= bound
            names = {x for x in names if x[0] != "$"}
            r = (node, frozenset(names & set(params)),
                 frozenset(names - set(params) - {p.arg for p in (a.vararg, a.kwarg) if p}))
        MUTATED[id(node)] = r
    return r[1:]


def repeatable(body, env):
    """A loop body that only adds keys or elements: meeting an element again changes nothing."""
    own, read = set(), set()
    for b in body:
        read |= {x.id for x in ast.walk(b) if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Load)}
        if isinstance(b, (ast.Assign, ast.AnnAssign)):
            own |= {x.id for t in (b.targets if isinstance(b, ast.Assign) else [b.target])
                    for x in ast.walk(t) if isinstance(x, ast.Name)} - read
        for n in ast.walk(b):
            if isinstance(n, (ast.Yield, ast.YieldFrom, ast.Await, ast.Return, ast.Break, ast.AugAssign,
                              ast.Delete, ast.With, ast.Try, ast.While)):
                return False
            if isinstance(n, ast.Expr) and not (
                    isinstance(n.value, ast.Constant) or isinstance(n.value, ast.Call) and isinstance(
                        n.value.func, ast.Attribute) and n.value.func.attr in ("add", "update", "discard")):
                return False
            if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store) and n.id in env and \
                    n.id not in own:
                return False
            if isinstance(n, ast.Attribute) and not isinstance(n.ctx, ast.Load):
                return False
            if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr in (
                    "append", "extend", "insert", "pop", "setdefault"):
                return False
    return True


def handed(n, fills):
    """Names a call hands to functions which change them."""
    nm = n.func.id if isinstance(n.func, ast.Name) else getattr(n.func, "attr", None)
    out = set()
    for node, skip in fills.get(nm, ()):
        ps = mutated(node)[0]
        names = [a.arg for a in (*node.args.posonlyargs, *node.args.args)][skip:]
        out |= {a.id for p, a in zip(names, n.args) if p in ps and isinstance(a, ast.Name)}
        out |= {k.value.id for k in n.keywords if k.arg in ps and isinstance(k.value, ast.Name)}
    return out


def assigned_names(body, callee=None):
    """Names (re)bound or mutated in place by the statements."""
    out, alias, changed = set(), {}, set()
    stack = list(body)
    while stack:
        n = stack.pop()
        if isinstance(n, (ast.FunctionDef, ast.ClassDef)):
            out.add(n.name)
            stack.extend(m for m in ast.walk(n) if isinstance(m, ast.Nonlocal))
            continue
        if isinstance(n, ast.Lambda):
            continue
        if isinstance(n, ast.Assign) and len(n.targets) == 1 and isinstance(n.targets[0], ast.Name):
            b = n.value
            while isinstance(b, ast.Subscript) or isinstance(b, ast.Call) and isinstance(
                    b.func, ast.Attribute) and b.func.attr == "setdefault":
                b = b.value if isinstance(b, ast.Subscript) else b.func.value
            if isinstance(b, ast.Name):
                alias.setdefault(n.targets[0].id, set()).add(b.id)
        if isinstance(n, ast.Name) and isinstance(n.ctx, (ast.Store, ast.Del)):
            out.add(n.id)
        elif isinstance(n, ast.Nonlocal):
            out.update(n.names)
        elif isinstance(n, (ast.Yield, ast.YieldFrom)):
            out.add("$y")
        elif isinstance(n, ast.Subscript) and isinstance(n.ctx, (ast.Store, ast.Del)):
            b = n.value
            while isinstance(b, (ast.Subscript, ast.Attribute)):
                b = b.value
            if isinstance(b, ast.Name):
                out.add(b.id)
        elif isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute):
            b = n.func.value
            while isinstance(b, (ast.Subscript, ast.Call, ast.Attribute)):
                b = b.value if isinstance(b, (ast.Subscript, ast.Attribute)) else b.func
            if isinstance(b, ast.Name) and n.func.attr in (
                    "append", "extend", "add", "update", "setdefault", "insert", "pop", "remove",
                    "discard", "clear", "sort", "difference_update", "intersection_update",
                    "symmetric_difference_update", "popitem", "reverse"):
                out.add(b.id)
                changed.add(b.id)
        if callee is not None and isinstance(n, ast.Call):
            # a local function or helper that fills the container it is given
            for x in callee(n):
                out.add(x)
                changed.add(x)
        stack.extend(ast.iter_child_nodes(n))
    while changed:
        x = changed.pop()
        for y in alias.pop(x, ()):
            out.add(y)
            changed.add(y)
    return out


class IterMixin:
    # -- sources -------------------------------------------------------------------------------

    def refresh(self, loops, *terms):
        m = {}
        out = []
        for v, it in loops:
            nv = fresh()
            self.t.vtypes[nv] = self.t.vtypes.get(v)
            self.viter[nv] = subst(it, m)
            out.append((nv, self.viter[nv]))
            m[v] = nv
        return (tuple(out), *(subst(x, m) for x in terms))

    def refresh_alts(self, t):
        """The alternatives of comprehension `t` over one fresh set of loop variables."""
        r = self.refresh(t[2], *(x for g, e in t[3] for x in (g, e)))
        return r[0], list(zip(r[1::2], r[2::2]))

    def loop_var(self, it):
        v = fresh()
        self.t.vtypes[v] = self.t.elem(it)
        self.viter[v] = it
        return v

    def sources(self, t, ordered=True):
        """[(loops, guard, element)] enumerating the elements of iterable term `t`."""
        if t[0] == "frozen":
            return self.sources(t[1], ordered)
        k = t[0]
        if k in ("tuple", "list", "set") and len(t) - 1 <= UNROLL:
            out = []
            for e in t[1:]:
                if e[0] == "star":
                    out.extend(self.sources(e[1], ordered))
                else:
                    out.append(((), T, e))
            return out
        if k == "c" and isinstance(t[2], tuple) and len(t[2]) <= UNROLL:
            return [((), T, const(x)) for x in t[2]]
        if k == "dict" and len(t) - 1 <= UNROLL:
            out = []
            for e in t[1:]:
                if e[0] == "star":
                    out.extend(self.sources(e[1], ordered))
                else:
                    out.append(((), T, e[1]))
            return out
        if k == "comp" and t[1] == "map" and ordered and all(
                e[0] == "kv" for _, e in t[3]) and not self.distinct_keys(
                t[2], [e[1] for _, e in t[3]]):
            return self.map_sources(t, "keys", ordered)
        if k == "comp" and t[1] != "group" and not (
                t[1] == "map" and any(e[0] == "kv" and e[2][0] == "app" for _, e in t[3])
                and not self.distinct_keys(t[2], [e[1] for _, e in t[3] if e[0] == "kv"])):
            out = []
            loops, alts = self.refresh_alts(t)
            if len(loops) == len(alts) == 1:
                self.vguard[loops[0][0]] = alts[0][0]
            for g, e in alts:
                if e[0] == "splice":
                    out.extend((loops, g, x) for x in e[1:])
                elif e[0] == "star" and t[1] == "seq":
                    out.extend((loops + lp, f_and(g, g3), e3)
                               for lp, g3, e3 in self.sources(e[1], ordered))
                else:
                    out.append((loops, g, e[1] if e[0] == "kv" else e))
            if not ordered and len(loops) == 1 and loops[0][1][:2] == ("comp", "map"):
                # duplicates do not matter here, so neither do those among the keys
                v, src = loops[0][0], self.map_sources(loops[0][1], "keys", False, True)
                if all(lp == loops for lp, _, _ in out):
                    out = [(lp, f_and(g, subst(g2, {v: e})), subst(e2, {v: e}))
                           for lp, g, e in src for _, g2, e2 in out]
            return out
        if k in ("cat", "uni"):
            return [s for x in t[1:] for s in self.sources(x, ordered)]
        if k == "diff" and t[1][0] == "co" and t[1][1] == "set" and t[1][2][0] == "a" and \
                t[1][2][2] == "__dict__":
            # the elements of a mapping, or any set, that are not in the other one
            return [(lp, f_and(g, f_not(contains(e, t[2]))), e)
                    for lp, g, e in self.sources(t[1][2], ordered)]
        if k == "co":
            if t[1] in ("list", "tuple", "iter", "seq", "map") or (not ordered):
                return self.sources(t[2], ordered)
            if t[1] in ("set", "frozenset") and t[2][0] in ("comp", "tuple", "list", "set"):
                return self.sources(t[2], ordered)
        if k == "call":
            fn, args = t[1], t[2]
            if fn[0] == "a" and not args and fn[2] in ("items", "keys", "values"):
                return self.map_sources(fn[1], fn[2], ordered)
            if fn[0] == "g":
                q = fn[1]
                if q == "builtins.enumerate" and args:
                    start = args[1] if len(args) > 1 else dict(t[3]).get("start", const(0))
                    src = self.sources(args[0], ordered)
                    e = self.pointwise(src)
                    if e is not None:
                        n = ("idx", src[0][0][0][0])
                        if start != const(0):
                            n = self.binop("+", n, start)
                        return [(src[0][0], T, ("tuple", n, e))]
                    if is_const(start) and all(not lp and g == T for lp, g, _ in src):
                        return [((), T, ("tuple", const(i), e))
                                for i, (_, _, e) in enumerate(src, start[2])]
                if q == "builtins.zip" and args:
                    srcs = [self.sources(a, ordered) for a in args]
                    if all(all(not lp and g == T for lp, g, _ in s) for s in srcs):
                        return [((), T, ("tuple", *(e for _, _, e in row))) for row in zip(*srcs)]
                    z = self.lockstep(args, srcs)
                    if z is not None:
                        return z
                if q == "builtins.range" and len(args) == 1:
                    a = args[0]
                    if a[0] == "call" and a[1] == glob("builtins.len"):
                        src = self.sources(a[2][0]) if a[2][0][0] == "comp" else ()
                        if len(src) == 1 and len(src[0][0]) == 1 and src[0][1] == T:
                            return [(src[0][0], T, ("idx", src[0][0][0][0]))]
                        v = self.loop_var(a[2][0])
                        return [(((v, a[2][0]),), T, ("idx", v))]
                    if is_const(a) and a[2] <= UNROLL:
                        return [((), T, const(i)) for i in range(a[2])]
                if q == "itertools.chain":
                    return [s for x in args for s in self.sources(x, ordered)]
                if q == "itertools.chain.from_iterable":
                    out = []
                    for lp, g, e in self.sources(args[0], ordered):
                        for lp2, g2, e2 in self.sources(e, ordered):
                            out.append((lp + lp2, f_and(g, g2), e2))
                    return out
                if q in ("builtins.iter", "builtins.list", "builtins.tuple") and len(args) == 1:
                    return self.sources(args[0], ordered)
        if k == "ite":
            return ([(lp, f_and(t[1], g), e) for lp, g, e in self.sources(t[2], ordered)]
                    + [(lp, f_and(f_not(t[1]), g), e) for lp, g, e in self.sources(t[3], ordered)])
        if k == "merge" and not ordered and sum(x[0] not in ("dict", "comp") for x in t[1:]) < 2:
            return [s for x in t[1:] for s in self.sources(x, ordered)]
        v = self.loop_var(t)
        return [(((v, t),), T, v)]

    @staticmethod
    def pointwise(src):
        """The element of a sequence with one element per element of what it loops over."""
        if not src or len(src[0][0]) != 1 or any(s[0] != src[0][0] for s in src):
            return None
        if len(src) == 1 and src[0][1] == T:
            return src[0][2]
        if len(src) == 2 and f_not(src[0][1]) == src[1][1]:
            return ("ite", src[0][1], src[0][2], src[1][2])
        return None

    def lockstep(self, args, srcs):
        """zip as one loop over the argument that can only be iterated, or over the first."""
        elts = [self.pointwise(s) for s in srcs]
        pick = next((i for i, a in enumerate(args) if a[0] == "call" and a[1][0] == "a" and
                     a[1][2] in ("items", "keys", "values") and not a[2]), 0)
        if elts[pick] is None:
            return None
        loops = srcs[pick][0][0]
        v, base = loops[0]
        row = []
        for i, a in enumerate(args):
            if i == pick:
                row.append(elts[i])
            elif elts[i] is not None and srcs[i][0][0][0][1] == base:
                row.append(subst(elts[i], {srcs[i][0][0][0][0]: v}))
            else:
                row.append(self.index(a, ("idx", v)))
        return [(loops, T, ("tuple", *row))]

    def map_sources(self, d, what, ordered, overwriting=False):
        """The entries of `d`; `overwriting` if a repeated key may just as well come up again."""
        def pick(k, v):
            return k if what == "keys" else v if what == "values" else ("tuple", k, v)
        while d[0] == "frozen":
            d = d[1]
        if d[0] == "co" and d[1] == "map":
            if self.t.types.strip_opt(self.t.type_of(d[2])) is None or d[2][0] in ("comp", "dict"):
                return self.map_sources(d[2], what, ordered, overwriting)
            d = d[2]
        if d[0] == "comp" and d[1] == "map" and not any(
                e[0] == "kv" and e[2][0] == "app" for _, e in d[3]):
            out = []
            loops, alts = self.refresh_alts(d)
            if len(loops) == len(alts) == 1:
                self.vguard[loops[0][0]] = alts[0][0]
            for g, e in alts:
                if not (e[0] == "kv" or e[0] == "tuple" and len(e) == 3):
                    out = None
                    break
                out.append((loops, g, pick(e[1], e[2])))
            if out is not None and (overwriting or self.distinct_keys(loops, [e[1] for _, e in alts]) or
                                    not ordered and self.by_key(loops, alts)):
                return out
        if d[0] == "dict" and len(d) - 1 <= UNROLL and all(e[0] == "kv" for e in d[1:]):
            return [((), T, pick(e[1], e[2])) for e in d[1:]]
        v = self.loop_var(d)
        val = self.index(d, v)
        return [(((v, d),), T, pick(v, val))]

    @staticmethod
    def by_key(loops, alts):
        """Every entry is a function of its key, so one that overwrites another is equal to it."""
        key = alts[0][1][1]
        for g, e in alts:
            if e[1] != key or any(mentions(subst(x, {key: NONE}), v)
                                  for x in (g, e[2]) for v, _ in loops):
                return False
        return True

    @staticmethod
    def distinct_keys(loops, keys):
        """Each round of a map comprehension adds its own key: the loop variables are (part of) it,
        so nothing is overwritten (up to a sequence that repeats an element, and to names that
        hold the separator they are joined by)."""
        def part(k):
            """A string split at given separators still determines it."""
            x = k
            while x[0] == "co" and x[1] in ("tuple", "list", "seq"):
                x = x[2]
            if x[0] == "call" and x[1][0] == "a" and x[1][2] in ("split", "rsplit", "partition",
                                                                "rpartition") and \
                    x[2] and all(map(is_const, x[2])) and not x[3]:
                return x[1][1]
            return k

        for k in keys:
            parts = k[1:] if k[0] == "tuple" else k[1] if k[0] == "fstr" else (k,)
            parts = tuple(map(part, parts))
            if not all(v in parts or ("idx", v) in parts for v, _ in loops):
                return False
        return len(set(keys)) == 1

    # -- one symbolic round ----------------------------------------------------------------------

    def collect(self, results, loops, g):
        """Events and raises of the results (state, value) of a body run under `loops`/`g`."""
        evs, order, raises = {}, [], []
        for s, _ in results:
            gg = f_and(g, s.pc)
            for kind, term, lp, eg in s.ev:
                key = (kind, term, lp)
                if key not in evs:
                    order.append(key)
                    evs[key] = F
                evs[key] = f_or(evs[key], f_and(gg, eg))
            if s.out is not None and s.out[0] == "raise":
                raises.append((gg, s.out))
        events = tuple((k, t, tuple(loops) + lp, evs[(k, t, lp)]) for k, t, lp in order)
        return tuple(self.bulk(e) for e in events), raises

    def bulk(self, e):
        """Adding elements to one set in a loop is one update of that set."""
        k, t, lp, g = e
        if lp and t[0] == "call" and t[1][0] == "a" and t[1][2] == "update" and len(t[2]) == 1 and \
                not t[3] and t[2][0][0] == "set" and self.is_mutable_set(t[1][1]):
            n = len(lp)
            while n and not any(x == lp[n - 1][0] for x in walk(t[1][1])):
                n -= 1
            if n < len(lp) and not any(x[0] == "acc" for x in walk((t, g))):
                inner, rest = {v for v, _ in lp[n:]}, []
                outer = []
                for c in (g[1:] if g[0] == "and" else (g,)):
                    (rest if any(x in inner for x in walk(c)) else outer).append(c)
                a = self.to_set(self.build_comp("set", [
                    (lp[n:], f_and(*rest), x) for x in t[2][0][1:]]))
                a = a[2] if a[0] == "co" else a
                return (k, ("call", t[1], (a,), ()), lp[:n], f_and(*outer))
        return e

    def close_round(self, st, loops, events, raises):
        """States after a symbolic round: the raising ones and the one completing normally."""
        out = []
        st = st.copy()
        st.ev = st.ev + events
        none = []
        by = {}
        for g, o in raises:
            by[o] = f_or(by.get(o, F), g)
        for o, g in by.items():
            e = exists(loops, g)
            if e == F:
                continue
            out.append(st.assume(e).leave(o))
            none.append(f_not(e))
        return out, st.assume(f_and(*none))

    def relax(self, g, raising):
        """`g` without the conditions that hold anyway in a round that does not raise."""
        cs = list(g[1:]) if g[0] == "and" else [g]
        if raising == F or g in (T, F) or len(cs) > 12:
            return g
        for x in list(cs):
            rest = [y for y in cs if y != x]
            if self.excl(f_and(*rest, f_not(x)), raising):
                cs = rest
        return f_and(*cs)

    def excl(self, g, raising):
        if not hasattr(self, "_canon"):
            self._canon = Canon(None, self.t)
        c = self._canon
        return c.unsat(c.formula(f_and(g, f_not(raising))))

    # -- comprehensions --------------------------------------------------------------------------

    def comp(self, kind, gens, elt_fn, st, fr, nodes=()):
        """Evaluate a comprehension; returns [(state, term)]."""
        out = []
        for s, it in self.ev(gens[0].iter, st, fr):
            if s.out is not None:
                out.append((s, NONE))
                continue
            for s2, it2 in self.split_iter(s, it):
                out.extend(self.comp_over(kind, gens, elt_fn, s2, fr, it2, nodes))
        return out

    def split_iter(self, st, it):
        """One state per alternative of a conditional iterable."""
        k = it[0]
        if k == "ite":
            return [r for c, x in ((it[1], it[2]), (f_not(it[1]), it[3]))
                    for s in [st.assume(c)] if s.pc != F for r in self.split_iter(s, x)]
        if k == "call" and it[1][0] == "a" and not it[2] and it[1][2] in ("items", "keys", "values"):
            return [(s, it if x == it[1][1] else ("call", ("a", x, it[1][2]), (), it[3]))
                    for s, x in self.split_iter(st, it[1][1])]
        if k == "co" and it[1] in ("list", "tuple", "iter", "seq", "map"):
            return [(s, it if x == it[2] else ("co", it[1], x)) for s, x in self.split_iter(st, it[2])]
        return [(st, it)]

    def filled_in(self, gens, nodes, st):
        """Local containers of the enclosing function that a comprehension changes as it goes."""
        body = [*nodes, *(x for gen in gens for x in gen.ifs), *(gen.iter for gen in gens[1:])]
        own = {x.id for gen in gens for x in ast.walk(gen.target) if isinstance(x, ast.Name)}
        names = assigned_names(body, lambda n: self.filled_by(n, st.env)) - own
        names |= {st.env["&" + x][1] for x in names if st.env.get("&" + x, ("",))[0] == "alias"}
        return [x for x in sorted(names) if x in st.env and x[0] not in "$&" and self.is_local(st.env[x])]

    def comp_over(self, kind, gens, elt_fn, st, fr, first, nodes=()):
        names = self.filled_in(gens, nodes, st)
        if not names:
            return self.comp_with(kind, gens, elt_fn, st, fr, first, None)
        accs, env = {}, dict(st.env)
        for x in names:
            a = ("acc", fresh()[1])
            self.t.vtypes[a] = self.t.type_of(st.env[x])
            self.acc_init[a] = st.env[x]
            accs[x] = env[x] = a
        rounds = []
        inner = st.copy()
        inner.env = env
        res = self.comp_with(kind, gens, elt_fn, inner, fr, first, rounds)
        loops = {lp for lp, _, _ in rounds}
        after = {}
        for x, a in accs.items():
            alts = [(g, e[x]) for _, g, e in rounds]
            self.befores[a] = (None, None)
            after[x] = st.env[x] if all(v == a for _, v in alts) else unk("filled in a comprehension")
            if len(loops) == 1 and () not in loops:
                lp = next(iter(loops))
                self.befores[a] = self.before(a, lp, alts)
                self.memos[a] = self.memo(a, lp, alts)
                c = self.carried(a, st.env[x], lp, alts)
                if len(c) == 1:
                    after[x] = c[0][1]
        out = []
        for s, v in res:
            s = s.copy()
            for x in names:
                s.env[x] = self.unacc(after[x], accs)
            s.pc = self.unacc(s.pc, accs)
            s.ev = tuple(self.unacc(e, accs) for e in s.ev)
            if s.out is not None:
                s.out = self.unacc(s.out, accs)
            out.append((s, self.unacc(v, accs)))
        return out

    def comp_with(self, kind, gens, elt_fn, st, fr, first, rounds):
        parts = []  # (loops, guard, elt)
        state = [st]
        raised = []
        raising = []

        def closing(res, loops, g):
            ev, rs = self.collect(res, loops, g)
            raising.extend((loops, f) for f, _ in rs)
            out, state[0] = self.close_round(state[0], loops, ev, rs)
            raised.extend(out)

        def rec(i, env, loops, g):
            if len(parts) > 64:
                raise TooComplex("comprehension")
            if i == len(gens):
                res = elt_fn(St(dict(env)))
                closing(res, loops, g)
                for s, v in res:
                    if s.out is None:
                        parts.append((loops, f_and(g, s.pc), v))
                        if rounds is not None:
                            rounds.append((loops, f_and(g, s.pc), s.env))
                return
            gen = gens[i]
            # the first iterable is evaluated in the enclosing scope
            res = self.ev(gen.iter, St(dict(env)), fr) if i else [(St(dict(env)), first)]
            closing(res, loops, g)
            for s, it in res:
                if s.out is not None:
                    continue
                for lp, g2, e in self.sources(it, kind in ("seq", "gen")):
                    for s2 in self.assign(gen.target, e, St(dict(s.env)), fr):
                        states = [(s2, T)]
                        for c in gen.ifs:
                            nxt = []
                            for s3, f in states:
                                for s4, f4 in self.cond(c, s3, fr):
                                    if s4.out is not None:
                                        closing([(s4, None)], loops + lp, f_and(g, s.pc, g2, f))
                                        continue
                                    nxt.append((s4, f_and(f, f4)))
                                    if rounds is not None and f4 != T:
                                        rounds.append((loops + lp, f_and(
                                            g, s.pc, g2, s4.pc, f, f_not(f4)), s4.env))
                            states = nxt
                        for s3, f in states:
                            gg = f_and(g, s.pc, g2, s3.pc, f)
                            if gg != F:
                                rec(i + 1, s3.env, loops + lp, gg)

        rec(0, st.env, (), T)
        env2 = state[0]
        if raising:
            parts = [(lp, self.relax(g, f_or(*(r for l2, r in raising if l2 == lp[:len(l2)]))), v)
                     for lp, g, v in parts]
        out = [(s, NONE) for s in raised]
        for s, f in self.split_fixed(env2, parts):
            out.append((s, self.build_comp(kind, [(lp, assuming(g, f), v) for lp, g, v in parts
                                                  if assuming(g, f) != F])))
        return out

    def split_fixed(self, st, parts):
        """States that settle the conditions of a filter's alternatives that no round changes:
        [(state, {condition: value})]."""
        fixed, by = [], {}
        for loops, g, e in parts:
            if loops:
                by[loops, e] = f_or(by.get((loops, e), F), g)
        for (loops, _), g in by.items():
            for x in alternatives(g):
                if x not in fixed and not any(mentions(x, v) for v, _ in loops):
                    fixed.append(x)
        out = [(st, {})]
        for x in fixed if len(fixed) < 3 else ():
            out = [(s2, {**f, x: val}) for s, f in out for val, c in ((T, x), (F, f_not(x)))
                   for s2 in [s.assume(c)] if s2.pc != F]
        return out

    def build_comp(self, kind, parts):
        lit = {"seq": "tuple", "gen": "tuple", "set": "set", "map": "dict"}[kind]
        kind = "seq" if kind == "gen" else kind
        if kind == "map" and len(parts) == 1 and len(parts[0][0]) == 1 and parts[0][1] == T:
            # {k: v for k, v in pairs} is dict(pairs)
            (v, it), = parts[0][0]
            if parts[0][2] == ("kv", ("i", v, const(0)), ("i", v, const(1))) and it[0] == "call":
                return ("co", "map", it)
        groups = []
        if kind == "seq":
            parts = self.nest(parts)
        for loops, g, e in parts:
            if not loops and g == T:
                if groups and groups[-1][0] == "lit":
                    groups[-1][1].append(e)
                else:
                    groups.append(("lit", [e]))
            elif groups and groups[-1][0] == "comp" and groups[-1][1] == loops:
                groups[-1][2].append((g, e))
            else:
                groups.append(("comp", loops, [(g, e)]))
        terms = []
        for gr in groups:
            if gr[0] == "lit":
                terms.append((lit, *gr[1]))
            else:
                terms.append(self.simplify_comp(("comp", kind, gr[1], tuple(gr[2]))))
        if not terms:
            return (lit,)
        if len(terms) == 1:
            return terms[0]
        if kind == "seq":
            return cat(*terms)
        if kind == "set":
            return ("uni", *terms)
        return ("merge", *terms)

    def nest(self, parts):
        """Rounds of one loop that add single elements or whole sequences, kept in one loop."""
        out, i = [], 0
        while i < len(parts):
            loops = parts[i][0]
            j = i + 1
            while loops and j < len(parts) and parts[j][0][:1] == loops[:1]:
                j += 1
            run = parts[i:j]
            if len({p[0] for p in run}) == 1:
                out.extend(run)
            else:
                head = loops[:1]
                k = 0
                while k < len(run):
                    lp, g, e = run[k]
                    if len(lp) == 1:
                        out.append((head, g, e))
                        k += 1
                        continue
                    m = k + 1
                    while m < len(run) and run[m][0] == lp:
                        m += 1
                    inner = {v for v, _ in lp[1:]}
                    # what does not depend on the inner loops selects the round
                    com = None
                    for _, g2, _ in run[k:m]:
                        c = [x for x in (g2[1:] if g2[0] == "and" else (g2,))
                             if not any(s in inner for s in walk(x))]
                        com = c if com is None else [x for x in com if x in c]
                    rest = []
                    for _, g2, e2 in run[k:m]:
                        c = [x for x in (g2[1:] if g2[0] == "and" else (g2,)) if x not in com]
                        rest.append((lp[1:], f_and(*c), e2))
                    out.append((head, f_and(*com), ("star", self.build_comp("seq", rest))))
                    k = m
            i = j
        return out

    def simplify_comp(self, t):
        _, kind, loops, alts = t
        if len(loops) == 1 and len(alts) == 1 and alts[0][0] == T:
            v, it = loops[0]
            e = alts[0][1]
            if e == v:
                return ("co", {"seq": "seq", "set": "set", "map": "map"}[kind], it)
            if kind == "map" and e[0] == "kv" and e[1] == v and e[2] == self.index(it, v):
                return ("co", "map", it)
        return t

    # -- for statements --------------------------------------------------------------------------

    def exec_for(self, n, st, fr):
        out = []
        for s, it in self.ev(n.iter, st, fr):
            if s.out is not None:
                out.append(s)
                continue
            for s2, it2 in self.split_iter(s, it):
                out.extend(self.for_over(n, s2, it2, fr))
        return out

    def for_over(self, n, st, it, fr):
        out, done, srcs = [], [], []
        live = [st]
        for lp, g, e in self.sources(it, not repeatable(n.body, st.env)):
            if lp and srcs and srcs[-1][0] == lp:
                srcs[-1][1].append((g, e))
            else:
                srcs.append((lp, [(g, e)]))
        for src in srcs:
            nxt = []
            for s1 in live:
                for s2 in self.for_source(n, src, s1, fr):
                    if s2.out is None:
                        nxt.append(s2)
                    elif s2.out == ("continue",):
                        s2.out = None
                        nxt.append(s2)
                    else:
                        done.append(s2)
            live = self.join(nxt)
        for s1 in live:
            out.extend(self.block(n.orelse, s1, fr) if n.orelse else [s1])
        for s1 in done:
            if s1.out == ("break",):
                s1 = s1.copy()
                s1.out = None
            out.append(s1)
        return out

    def for_source(self, n, src, st, fr):
        loops, alts = src
        g, e = alts[0]
        if len(alts) > 1:
            return self.symbolic_loop(n.body, loops, T, st, fr, lambda s: [
                x for g, e in alts for x in self.assign(n.target, e, s.assume(g), fr)])
        if not loops:
            out = []
            for s in self.assign(n.target, e, st.assume(g), fr):
                out.extend(self.block(n.body, s, fr))
            if g != T:
                out.append(st.assume(f_not(g)))
            return out
        return self.symbolic_loop(n.body, loops, g, st, fr,
                                  lambda s: self.assign(n.target, e, s, fr))

    def filled_by(self, n, env):
        """Local names that the function called changes in place."""
        f, skip = None, 0
        if isinstance(n.func, ast.Name):
            t = env.get(n.func.id)
            if t is None:
                nodes = self.mutating().get(n.func.id, ())
            elif t[0] == "clo" and t in self.clos:
                nodes = [(self.clos[t][0], 0)]
            else:
                nodes = ()
        elif isinstance(n.func, ast.Attribute):
            nodes = self.mutating().get(n.func.attr, ())
        else:
            nodes = ()
        out = set()
        for node, skip in nodes:
            ps, free = mutated(node)
            names = [a.arg for a in (*node.args.posonlyargs, *node.args.args)][skip:]
            for p, a in zip(names, n.args):
                if p in ps and isinstance(a, ast.Name):
                    out.add(a.id)
            out |= {k.value.id for k in n.keywords if k.arg in ps and isinstance(k.value, ast.Name)}
            if env.get(getattr(n.func, "id", None), ("",))[0] == "clo":
                out |= free
        return {x for x in out if x in env and self.is_local(env[x])}

    def mutating(self):
        """{name: [(function, parameters bound before the arguments)]} changing their arguments."""
        if self.p not in MUTATING:
            MUTATING[self.p] = d = {}
            todo = [n for f in self.p.funcs.values() for n in ast.walk(f.node)
                    if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef))]
            skip = {id(f.node): int(f.cls is not None and not f.is_static)
                    for f in self.p.funcs.values()}
            found = {}
            while True:
                n0 = len(found)
                for node in todo:
                    ps = mutated(node, d)[0]
                    if ps and found.get(id(node)) != ps:
                        if id(node) not in found:
                            d.setdefault(node.name, []).append((node, skip.get(id(node), 0)))
                        else:
                            n0 = -1
                        found[id(node)] = ps
                if len(found) == n0:
                    break
        return MUTATING[self.p]

    def symbolic_loop(self, body, loops, g, st, fr, bind):
        names = assigned_names(body, lambda n: self.filled_by(n, st.env))
        names |= {st.env["&" + x][1] for x in names if st.env.get("&" + x, ("",))[0] == "alias"}
        stored = {x.id for b in body for x in ast.walk(b) if isinstance(x, ast.Name)
                  and not isinstance(x.ctx, ast.Load)} | {x for b in body for n in ast.walk(b)
                                                          if isinstance(n, ast.Nonlocal) for x in n.names}
        names = [x for x in sorted(names) if x in st.env and (
            x in stored or x[0] == "$" or self.is_local(st.env[x]) or "&" + x in st.env)]
        accs = {}
        env = dict(st.env)
        for x in names:
            a = ("acc", fresh()[1])
            self.t.vtypes[a] = self.t.type_of(st.env[x])
            self.acc_init[a] = st.env[x]
            accs[x] = a
            env[x] = a
        results = []
        for s0 in bind(St(env)):
            results.extend(self.block(body, s0, fr))
        results = [s for s in self.join(results) if s.pc != F]
        if len(results) > 64:
            raise TooComplex("loop body")
        for x, a in accs.items():
            alts = [(f_and(g, s.pc), s.env[x]) for s in results
                    if s.out is None or s.out == ("continue",)]
            self.befores[a] = self.before(a, loops, alts)
            m = self.memo(a, loops, alts)
            if m:
                for i, s in enumerate(results):
                    results[i] = s = s.copy()
                    s.pc, s.ev = subst(s.pc, m), subst(s.ev, m)
                    s.env = {n: subst(v, m) for n, v in s.env.items()}
                    s.out = s.out and subst(s.out, m)
        left = f_or(*(f_and(g, s.pc) for s in results if s.out is not None and s.out[0] in (
            "ret", "break")))
        if left != F:
            results = self.until(results, loops, left)
        events, raises = self.collect([(s, None) for s in results], loops, g)
        if left != F and raises and not any(y[0] == "acc" for y in walk(left)):
            up = self.upto(loops, left)
            raises = [(f_and(f, up), o) for f, o in raises]
        out, rest = self.close_round(st, loops, events, raises)
        if raises:
            r = f_or(*(x for x, _ in raises))
            for i, s in enumerate(results):
                if s.out is None or s.out[0] != "raise":
                    results[i] = s = s.copy()
                    s.pc = self.relax(f_and(g, s.pc), r)
        # a loop body that always leaves when an element exists
        kinds = {s.out[0] for s in results if s.out is not None} & {"ret", "break"}
        if len(kinds) == 2 and not any(y[0] == "acc" for y in walk(left)):
            # leaving one way keeps the loop from leaving the other way later
            up = self.upto(loops, left)
            for i, s in enumerate(results):
                if s.out is not None and s.out[0] in kinds:
                    results[i] = s = s.copy()
                    s.pc = f_and(s.pc, up)
        for kind in ("ret", "break"):
            leaving = [s for s in results if s.out is not None and s.out[0] == kind]
            if not leaving:
                continue
            e = exists(loops, f_or(*(f_and(g, s.pc) for s in leaving)))
            s1 = rest.assume(e)
            if kind == "ret":
                vals = {s.out[1] for s in leaving}
                if len(vals) == 1 and not self.depends(next(iter(vals)), loops):
                    val = next(iter(vals))
                else:
                    val = ("first", tuple(loops),
                           tuple((f_and(g, s.pc), s.out[1]) for s in leaving), NONE)
                out.append(s1.leave(("ret", self.unacc(val, accs))))
            else:
                s1 = s1.leave(("break",))
                for x in {y for s in leaving for y in s.env}:
                    vals = {s.env.get(x) for s in leaving}
                    if vals == {env.get(x)}:
                        continue
                    if len(vals) == 1 and not self.depends(next(iter(vals)), loops):
                        s1.env[x] = self.unacc(next(iter(vals)), accs)
                    else:
                        s1.env[x] = self.unacc(("first", tuple(loops), tuple(
                            (f_and(g, s.pc), s.env.get(x, NONE)) for s in leaving), NONE), accs)
                out.append(s1)
            rest = rest.assume(f_not(e))
        normal = [s for s in results if s.out is None or s.out == ("continue",)]
        rest = rest.copy()
        touched = {y for s in normal for y in s.env if s.env[y] != env.get(y)}
        for x in sorted(touched):
            if x not in accs:
                vals = tuple((f_and(g, s.pc), s.env.get(x, unk("unbound"))) for s in normal)
                rest.env[x] = ("last", tuple(loops), vals, unk("unbound")) if x[0] not in "&$" and \
                    not any(y[0] == "acc" for y in walk(vals)) else unk("value of the last iteration")
        finals = [rest]
        for x, a in accs.items():
            alts = [(f_and(g, s.pc), s.env[x]) for s in normal]
            if left != F and any(v != a for _, v in alts):
                up = self.upto(loops, left)
                alts = [(f_and(f, up) if v != a else f, v) for f, v in alts]
            nxt = []
            for s1 in finals:
                for f, val in self.carried(a, st.env[x], loops, alts):
                    s2 = s1.assume(f)
                    s2.env[x] = self.unacc(val, accs)
                    nxt.append(s2)
            finals = nxt
        res = [s for s in finals + out if s.pc != F]
        if accs:
            for s in res:
                s.pc = self.unacc(s.pc, accs)
                s.ev = tuple(self.unacc(e, accs) for e in s.ev)
        return res

    def upto(self, loops, left, hard=False):
        """The round comes no later than the first one that leaves the loop."""
        lp, g = self.refresh(loops, left)
        if len(lp) == 1:
            e, v = lp[0][0], loops[0][0]
        else:
            e, v = ("tuple", *(x for x, _ in lp)), ("tuple", *(x for x, _ in loops))
        t = ("first", lp, ((g, e),), NONE) if hard else ("comp", "seq", lp, ((g, e),))
        return truth(("call", glob("$upto"), (v, t), ()))

    def until(self, results, loops, left):
        """What a loop that may be left early does happens in the rounds up to the one leaving."""
        if not any(s.ev for s in results) or any(y[0] == "acc" for y in walk(left)):
            return results
        search = self.depends(left, loops) and not any(
            s.ev for s in results if s.out is None or s.out[0] not in ("ret", "break"))
        up = self.upto(loops, left, search)
        out = []
        for s in results:
            if s.ev:
                s = s.copy()
                s.ev = tuple((k, t, lp, f_and(g, up)) for k, t, lp, g in s.ev)
            out.append(s)
        return out

    def sofar(self, a):
        """The value a loop carried variable has at the start of some round."""
        t = ("sofar", self.acc_init[a])
        self.t.vtypes[t] = self.t.vtypes.get(a)
        return t

    def unacc(self, val, accs):
        inv = {a: self.sofar(a) for a in accs.values()}
        if val and val[0] == "fold":
            inv.pop(val[1], None)
        member = {a: self.befores[a][0] for a in inv if self.befores.get(a, (None,))[0] is not None}
        if member:
            val = self.members(val, member)
        for a in list(inv):
            inv.update(self.memos.get(a, {}))
        inv.update((a, self.befores[a][1]) for a in inv
                   if self.befores.get(a, (None, None))[1] is not None)
        return subst(val, inv)

    def members(self, t, m):
        """`x in a` for the loop carried containers in `m`, as membership in what they hold so far."""
        if not isinstance(t, tuple) or not t or t[0] == "c":
            return t
        if t[0] == "in" and len(t) == 3 and t[2] in m:
            init, b = m[t[2]]
            x = self.members(t[1], m)
            return f_or(contains(x, init), ("in", x, b))
        return tuple(self.members(x, m) if isinstance(x, tuple) else x for x in t)

    def memo(self, a, loops, alts):
        """{lookup: value} for a mapping that only keeps what was computed for a key before."""
        changed = {v for g, v in alts if v != a and g != F}
        if self.acc_init[a] != ("dict",) or len(changed) != 1:
            return {}
        (v,) = changed
        if v[0] != "merge" or v[1] != a or len(v) != 3 or v[2][0] != "dict" or len(v[2]) != 2 or \
                v[2][1][0] != "kv" or v[2][1][2][0] == "app":
            return {}
        _, k, val = v[2][1]
        guards = [g for g, w in alts if w != a]
        if any(x[0] == "acc" for x in walk((k, val))) or any(
                g != f_and(g, f_not(("in", k, a))) and not mentions(g, a) for g in guards):
            return {}
        vs = {x for x, _ in loops}
        if not any(x in vs for x in walk(subst(val, {k: const("key")}))):
            return {("i", a, k): val}
        if any(x in vs or x[0] == "a" and x[2] == "fingerprint" for e in (
                k[1:] if k[0] == "tuple" else (k,)) for x in (
                e, *(e[2] if e[0] == "call" and e[1][0] == "g" and e[1][1] in (
                    "builtins.id", "builtins.repr", "builtins.str", "builtins.hash") else ()))):
            return {}
        at = loops[0][0] if len(loops) == 1 else ("tuple", *(x for x, _ in loops))
        lp, k2, val2 = self.refresh(loops, k, val)
        return {("i", a, k): ("memo", at, k, ("comp", "map", lp, ((T, ("kv", k2, val2)),)))}

    def before(self, a, loops, alts):
        """((initial value, what earlier rounds put in), value) of a container that only grows."""
        init = self.acc_init[a]
        changed = [(g, v) for g, v in alts if v != a and g != F]
        kind = {v[0] for _, v in changed}
        if len(kind) != 1 or not kind <= {"uni", "cat", "merge"} or any(
                v[1] != a or mentions(v[2:], a) for _, v in changed):
            return None, None
        ordered = kind == {"cat"}
        at = loops[0][0] if len(loops) == 1 else ("tuple", *(v for v, _ in loops))

        def put(own):
            parts = []
            for g, v in changed:
                for it in v[2:]:
                    for lp, g2, e in self.sources(it, ordered):
                        f = f_and(g, g2)
                        if own:
                            f = simplify(subst(f, {("in", e, a): F}))
                        parts.append((tuple(loops) + lp, f, e))
            if any(s[0] == "acc" for s in walk(tuple(parts))):
                return None
            n = len(loops)
            lp, *rest = self.refresh(loops, *((lp[n:], f, e) for lp, f, e in parts))
            return [(lp + inner, f, e) for inner, f, e in rest]

        parts = put(True)
        if parts is None:
            return None, None
        c = self.build_comp("set", parts)
        member = (init, ("before", at, c))
        if kind == {"merge"}:
            return member, None
        parts = parts if not ordered else put(False)
        if parts is None:
            return member, None
        if ordered:
            c = self.build_comp("seq", parts)
            return member, cat(init, ("before", at, c))
        return member, self.union(init, ("before", at, c))

    def depends(self, t, loops):
        vs = {v for v, _ in loops}
        return any(s in vs or s[0] == "acc" for s in walk(t))

    def carried(self, a, init, loops, alts):
        """[(guard, value)] of a loop carried variable after the loop."""
        alts = [(g, v) for g, v in alts if g != F]
        if all(v == a for _, v in alts):
            return [(T, init)]
        seq, sets, maps, xors = [], [], [], []
        for g, v in alts:
            if v == a:
                continue
            if v[0] == "cat" and v[1] == a and not mentions(v[2:], a):
                seq.append((g, v[2:]))
            elif v[0] == "uni" and v[1] == a and not mentions(v[2:], a):
                sets.append((g, v[2:]))
            elif v[0] == "merge" and v[1] == a and not mentions(v[2:], a):
                maps.append((g, v[2:]))
            elif v[0] == "xor" and a in v[1:] and not mentions(tuple(x for x in v[1:] if x != a), a):
                xors.append((g, tuple(x for x in v[1:] if x != a)))
            else:
                res = self.carried_other(a, init, loops, alts)
                if len(res) == 1 and res[0][1][0] == "fold":
                    changed = tuple((g, v) for g, v in alts if v != a)
                    if not any(s[0] == "acc" for s in walk(changed)):
                        p = one_point(loops[0][0], changed[0][0]) if len(loops) == 1 and len(
                            changed) == 1 else None
                        if p is not None:
                            f = f_and(contains(p[0], loops[0][1]), p[1])
                            return [(f, subst(changed[0][1], {loops[0][0]: p[0]})), (f_not(f), init)]
                        return [(T, ("last", tuple(loops), changed, init))]
                return res
        kinds = [x for x in (seq, sets, maps, xors) if x]
        if len(kinds) != 1:
            return [(T, ("fold", a, init, tuple(loops), tuple(alts)))]
        parts = []
        for g, items in kinds[0]:
            if seq and len(items) == 1 and items[0][0] == "tuple" and len(items[0]) > 2 and not any(
                    e[0] == "star" for e in items[0][1:]):
                parts.append((tuple(loops), g, ("splice", *items[0][1:])))
                continue
            for it in items:
                if xors:
                    parts.append((tuple(loops), g, it))
                elif maps:
                    if it[0] == "dict" and all(e[0] == "kv" for e in it[1:]):
                        parts.extend((tuple(loops), g, e) for e in it[1:])
                    else:
                        for lp, g2, e in self.map_sources(it, "items", False, True):
                            parts.append((tuple(loops) + lp, f_and(g, g2), ("kv", e[1], e[2])))
                else:
                    for lp, g2, e in self.sources(it, bool(seq)):
                        parts.append((tuple(loops) + lp, f_and(g, g2), e))
        if xors:
            c = self.build_comp("seq", parts)
            return [(T, self.xor(init, ("star", c)))]
        kind = "seq" if seq else "set" if sets else "map"
        c = self.build_comp(kind, parts)
        if seq:
            return [(T, cat(init, c))]
        if sets:
            return [(T, self.union(init, c))]
        return [(T, self.merge(init, c))]

    def carried_other(self, a, init, loops, alts):
        changed = [(g, v) for g, v in alts if v != a]
        vals = {v for _, v in changed}
        if len(vals) == 1:
            v = next(iter(vals))
            if not self.depends(v, loops):
                e = exists(loops, f_or(*(g for g, _ in changed)))
                if not any(s[0] == "acc" for s in walk(e)):
                    return [(e, v), (f_not(e), init)]
        if all(v[0] == "bool" or v in (TRUE, FALSE) for v in vals):
            # found = found or p(x)   /   ok = ok and p(x)
            fa = truth(a)
            ons, ok = [], True
            for g, v in alts:
                f = truth(v) if v != a else fa
                on = simplify(subst(f, {fa: F}))
                off_keeps = simplify(subst(f, {fa: T}))
                if off_keeps == T and not mentions(on, a):
                    ons.append(f_and(g, on))
                else:
                    ok = False
            if ok:
                e = exists(loops, f_or(*ons))
                return [(T, mk_bool(f_or(truth(init), e)))]
            offs, ok = [], True
            for g, v in alts:
                f = truth(v) if v != a else fa
                if simplify(subst(f, {fa: F})) == F and not mentions(
                        simplify(subst(f, {fa: T})), a):
                    offs.append(f_and(g, f_not(simplify(subst(f, {fa: T})))))
                else:
                    ok = False
            if ok:
                e = exists(loops, f_or(*offs))
                return [(T, mk_bool(f_and(truth(init), f_not(e))))]
        return [(T, ("fold", a, init, tuple(loops), tuple(alts)))]


def simplify(f):
    if f[0] == "and":
        return f_and(*(simplify(x) for x in f[1:]))
    if f[0] == "or":
        return f_or(*(simplify(x) for x in f[1:]))
    if f[0] == "not":
        return f_not(simplify(f[1]))
    return f
