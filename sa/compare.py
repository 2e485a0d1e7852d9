"""Comparison of two functions by what they return, raise and do."""
from __future__ import annotations

import ast

from .engine import Evaluator
from .engine_base import TooComplex, cat, mk_bool, truth
from .terms import (ATOM, F, FALSE, NONE, T, TRUE, Canon, bdd_and, bdd_atom, bdd_not, bdd_or, binders, const,
                    f_and, f_not, is_const, show, subst, walk)

HARD = ("unk", "fold", "sofar", "rec", "first", "seqd", "caught")


class Table:
    """Canonical summary: returns / raises / events as {key: guard}."""

    def __init__(self):
        self.returns, self.raises, self.events = {}, {}, {}
        self.kinds = set()
        self.order = set()
        self.paths = 0
        self.once = None


def put(d, k, g):
    d[k] = bdd_or(d.get(k, F), g)


def expand(t, g):
    """Split boolean and conditional results into guarded plain ones."""
    if t[0] == "bool":
        return [(TRUE, f_and(g, t[1])), (FALSE, f_and(g, f_not(t[1])))]
    if t[0] == "ite":
        return expand(t[2], f_and(g, t[1])) + expand(t[3], f_and(g, f_not(t[1])))
    return [(t, g)]


def own_state(kind, t):
    """Steps of a constructor that only build the object under construction."""
    if kind == "set":
        return t[0] == "setattr" and t[1] == ("p", "self")
    while t[0] == "under":
        t = t[2]
    return (kind in ("do", "call") and t[0] == "call" and t[1][0] == "super"
            and t[1][2] == "__init__")


def tabulate(summary, canon):
    tab = Table()
    tab.paths = len(summary.paths)
    init = summary.func is not None and summary.func.name == "__init__"
    for pc, evs, out in summary.paths:
        if init and out[0] == "raise":
            # the half built object is not seen by anybody
            evs = [e for e in evs if not own_state(e[0], e[1])]
        cpc = canon.formula(pc)
        if canon.unsat(cpc):
            continue
        seen, seq = {}, []
        for kind, t, loops, g in evs:
            if kind == "do":
                kind = "call"
            cl, env = canon._loops(loops, ())
            ct = canon.term(t, env)
            cg = canon.formula(f_and(pc, g), env)
            key = (kind, ct, cl)
            n = seen.get(key, 0)
            seen[key] = n + 1
            put(tab.events, (*key, n), cg)
            if category(key) and not canon.unsat(cg):
                seq.append(key)
        for i, a in enumerate(seq):
            for b in seq[i + 1:]:
                if a != b and (category(a), category(b)) in CONFLICTS:
                    tab.order.add((a, b))
        if out[0] == "raise":
            put(tab.raises, canon.term(outward(out[1])), cpc)
        else:
            v = out[1]
            if v[0] == "yields":
                for t, g in expand(v[1], pc):
                    put(tab.returns, ("yields", canon.term(t)), canon.formula(g))
            else:
                for t, g in expand(truthy_result(summary.func, v), pc):
                    for g2, t2 in canon.settle(g, t):
                        put(tab.returns, canon.term(outward(t2)), canon.formula(g2))
    for d in (tab.returns, tab.raises, tab.events):
        for k in [k for k, g in d.items() if canon.unsat(g)]:
            del d[k]
        for k, g in d.items():
            for x in walk((k, g)):
                if x[0] in HARD:
                    tab.kinds.add(x[0])
    return tab


def hard(*xs):
    return {x[0] for x in walk(tuple(xs)) if x[0] in HARD}


def distinct(t):
    """What a set or mapping holds each only once: (loops, element), or the iterable."""
    if t[0] == "co" and t[1] in ("set", "frozenset", "map"):
        return {t[2]}
    if t[0] == "call" and t[1][0] == "a" and t[1][2] == "fromkeys" and t[2]:
        x = t[2][0]
        if x[0] == "comp":
            return {(x[2], e) for _, e in x[3]}
        return {x[2] if x[0] == "co" else x}
    if t[0] == "comp" and t[1] in ("set", "map"):
        return {(t[2], e[1] if e[0] == "kv" else e) for _, e in t[3]}
    return set()


def rounds(tab):
    """Sources that a function already visits once per distinct element."""
    if tab.once is None:
        tab.once = set()
        for d in (tab.returns, tab.raises, tab.events):
            for k, g in d.items():
                for x in walk((k, g)):
                    tab.once |= distinct(x)
    return tab.once


def unclear(ref, *xs):
    """Kinds of terms that keep a difference from being decided."""
    new = hard(*xs) - ref.kinds
    for x in walk(tuple(xs)):
        if x[0] == "before" and distinct(x[2]) & rounds(ref):
            new.add("before")
    return new


class Diff:
    def __init__(self, what, text, decided):
        self.what, self.text, self.decided = what, text, decided

    def __repr__(self):
        return f"[{self.what}{'' if self.decided else ' ?'}] {self.text}"


def clip(s, n=700):
    return s if len(s) <= n else s[:n] + "..."


def outward(t):
    """f(the first x such that c(x)) as the first of the f(x) such that c(x)."""
    found = []
    stack = [t]
    while stack:
        x = stack.pop()
        if isinstance(x, tuple) and x:
            if x[0] == "first":
                if x not in found:
                    found.append(x)
            elif x[0] != "c":
                stack.extend(x)
    if len(found) != 1 or found[0] == t:
        return t
    (x,) = found
    bound = binders(subst(t, {x: NONE}))
    if any(y in bound for y in walk(x)):
        return t
    return ("first", x[1], tuple((g, subst(t, {x: e})) for g, e in x[2]), NONE)


def truthy_result(func, v):
    """The result of a function declared to return a bool, as one."""
    if func is not None and isinstance(func.node.returns, ast.Name) and \
            func.node.returns.id == "bool" and v[0] not in ("g", "yields", "bool", "unk"):
        return mk_bool(truth(v))
    return v


EMPTY = {"seq": (("list",), ("tuple",)), "list": (("list",),), "tuple": (("tuple",),),
         "set": (("set",),), "map": (("dict",),)}


def emptied(k):
    """(source, values) of a container built from sources: what it is when one of them is empty."""
    if k[0] == "frozen":
        return [(src, [("frozen", e) for e in r]) for src, r in emptied(k[1])]
    if k[0] == "comp" and k[1] in EMPTY and k[2]:
        return [(k[2][0], list(EMPTY[k[1]]))]
    return []


def shortened(k):
    """(part, values): what a value containing a concatenation is when a part of that is empty."""
    out = emptied(k)
    for c in walk(k):
        if c[0] == "call" and c[1][0] == "a" and c[1][2] == "join" and len(c[2]) == 1 and not c[3]:
            x = c[2][0]
            out.append((x[2][0] if x[0] == "comp" and x[2] else x, [subst(k, {c: const("")})]))
        if c[0] != "cat":
            continue
        for i, x in enumerate(c[1:], 1):
            if x[0] not in ("tuple", "list", "set"):
                rest = cat(*c[1:i], *c[i + 1:])
                out.append((x, [subst(k, {c: rest})]))
    return out


def nonempty(t, canon):
    """Canonical form of the truth of a canonical term."""
    if t[0] == "comp":
        g = F
        for x, _ in t[3]:
            g = bdd_or(g, x)
        if g == T and len(t[2]) == 1:
            return nonempty(t[2][0], canon)
        return F if canon.unsat(g) else bdd_atom(("exists", t[2], g))
    if any(x[0] in ("comp", "exists", "first", "last", "fold", "lam", "star") for x in walk(t)):
        return bdd_atom(("truth", t))
    return canon.formula(truth(t))


def join_empty(tables, canon):
    """A container built from an empty source and the empty container are the same result: report
    both under the former."""
    if all(t == tables[0] for t in tables):
        return tables
    tables = [dict(t) for t in tables]
    for k in sorted({k for t in tables for k in t}, key=repr):
        for src, values in shortened(k):
            if not any(e in t for t in tables for e in values):
                continue
            none = bdd_not(nonempty(src, canon))
            for t in tables:
                for e in values:
                    both = bdd_and(t[e], none) if e in t else F
                    if both != F and not canon.unsat(both):
                        put(t, k, both)
                        t[e] = bdd_and(t[e], bdd_not(none))
                        if canon.unsat(t[e]):
                            del t[e]
    return tables


def same_as(atom):
    """[(term, what it is)] when the atom holds."""
    if atom[0] == "isnone":
        return [(atom[1], NONE)]
    if atom[0] == "is":
        return [(atom[1], atom[2]), (atom[2], atom[1])]
    if atom[0] == "eq":
        return [(x, y) for x, y in ((atom[1], atom[2]), (atom[2], atom[1]))
                if is_const(y) and isinstance(y[2], str)]
    return []


def swap(t, x, y):
    """`t` with `y` for `x`, outside of formulas."""
    if t == x:
        return y
    if not isinstance(t, tuple) or not t or t[0] in ("bdd", "c"):
        return t
    return tuple(swap(e, x, y) for e in t)


def join_equal(tables, canon):
    """Where the guard says that a part of the result is a given thing, the result with that thing
    in its place is the same one."""
    if all(t == tables[0] for t in tables):
        return tables
    tables = [dict(t) for t in tables]
    for k in sorted({k for t in tables for k in t}, key=repr):
        if all(t.get(k, F) is tables[0].get(k, F) for t in tables):
            continue
        parts = set(walk(k))
        atoms = {ATOM[x[1]] for t in tables for x in walk(t.get(k, F)) if x[0] == "bdd"}
        for atom in sorted(atoms, key=repr):
            for x, y in same_as(atom):
                if x not in parts or is_const(x):
                    continue
                k2 = swap(k, x, y)
                if k2 == k or not any(k2 in t for t in tables):
                    continue
                cond = bdd_atom(atom)
                for t in tables:
                    both = bdd_and(t[k], cond) if k in t else F
                    if both != F and not canon.unsat(both):
                        put(t, k2, both)
                        t[k] = bdd_and(t[k], bdd_not(cond))
                        if canon.unsat(t[k]):
                            del t[k]
    return tables


def diff_tables(ref, cur, canon, relevant=None):
    """Differences of the current table against the reference one."""
    out = []
    returns = join_equal(join_empty((ref.returns, cur.returns), canon), canon)
    for what, a, b in (("returns", *returns), ("raises", ref.raises, cur.raises),
                       ("does", *join_equal(join_empty((ref.events, cur.events), canon), canon))):
        for k in sorted(set(a) | set(b), key=repr):
            ga, gb = a.get(k, F), b.get(k, F)
            if what == "does" and k not in a and k[0] == "call" and not important(k[1]):
                continue
            if canon.equiv(ga, gb):
                continue
            new = unclear(ref, k, gb)
            # what the current tree does instead, for the keys it no longer has
            if k not in b:
                for k2, g2 in b.items():
                    if k2 not in a:
                        new |= unclear(ref, k2, g2)
            name = label(what, k)
            if k not in a:
                txt = f"now also {what} {name} when {clip(show(gb), 300)}"
            elif k not in b:
                txt = f"no longer {what} {name} when {clip(show(ga), 300)}"
            else:
                txt = (f"{what} {name} when {clip(show(gb), 400)}; required: when "
                       f"{clip(show(ga), 400)}")
            out.append(Diff(what, txt, not new))
    for a, b in sorted(cur.order - ref.order, key=repr):
        if (b, a) in ref.order and (b, a) not in cur.order:
            out.append(Diff("order", f"{label('does', (*a, 0))} now happens before "
                                     f"{label('does', (*b, 0))}", True))
    return out


def callee_name(t):
    while t[0] == "under":
        t = t[2]
    if t[0] != "call":
        return ""
    fn = t[1]
    return fn[2] if fn[0] in ("a", "super") else fn[1].rsplit(".", 1)[-1] if fn[0] == "g" else ""


def category(key):
    """What kind of step an event is, where the order of steps of different kinds matters."""
    kind, t = key[0], key[1]
    if kind == "set":
        return "state"
    n = callee_name(t)
    if n.startswith(("check_", "_check", "validate", "_validate", "assert_")) or n == "prepare":
        return "check"
    if n in ("pop", "update", "clear"):
        return "state"
    if n.startswith("write_"):
        return "register"
    if n in ("write", "_write") and t[1][0] in ("g", "a"):
        return "persist"
    if kind == "with" and n == "open":
        return "persist"
    return None


CONFLICTS = {(a, b) for x, y in (("check", "persist"), ("check", "register"), ("check", "state"),
                                 ("persist", "register"), ("state", "register"))
             for a, b in ((x, y), (y, x))}


def important(t):
    """Extra calls with a discarded result that nevertheless count as behaviour."""
    from .engine_base import EFFECTS
    while t[0] == "under":
        t = t[2]
    if t[0] != "call":
        return True
    fn = t[1]
    n = fn[2] if fn[0] in ("a", "super") else fn[1].rsplit(".", 1)[-1] if fn[0] == "g" else ""
    return n in EFFECTS or n.startswith(("check_", "_check", "validate", "register")) or (
        fn[0] == "g" and fn[1] in ("os.replace", "shutil.move"))


def label(what, k):
    if what == "does":
        kind, t, loops, n = k
        s = f"{kind} {clip(show(t), 500)}"
        if loops:
            s += " for each " + clip(", ".join(map(show, loops)), 200)
        return s
    return clip(show(k), 500)
