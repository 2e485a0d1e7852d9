"""Terms, formulas and their canonical forms.

A term describes *which* value flows somewhere in terms of a function's parameters, module globals
and uninterpreted calls. A formula is a boolean combination of uninterpreted atoms. Nothing is
evaluated: terms are only put in a normal form so that two ways of writing the same flow compare
equal, and formulas are compared by their truth tables over atoms (as BDDs).
"""
from __future__ import annotations

import itertools

_ids = itertools.count(1)

T = ("T",)
F = ("F",)
NONE = ("c", "NoneType", None)
TRUE = ("c", "bool", True)
FALSE = ("c", "bool", False)
UNK = "unk"

ATOMS = ("truth", "isnone", "eq", "is", "lt", "ge", "in", "inst", "subcls", "exists", "opq",
         "raises")


def const(v):
    return ("c", type(v).__name__, v)


def is_const(t):
    return t[0] == "c"


def glob(q):
    return ("g", q)


def fresh(hint="v"):
    return ("v", next(_ids))


def unk(why=""):
    return (UNK, why)


# -- formulas --------------------------------------------------------------------------------


def f_not(f):
    if f == T:
        return F
    if f == F:
        return T
    if f[0] == "not":
        return f[1]
    return ("not", f)


def _flat(op, fs):
    for f in fs:
        if f[0] == op:
            yield from f[1:]
        else:
            yield f


def f_and(*fs):
    out = []
    for f in _flat("and", fs):
        if f == F:
            return F
        if f != T and f not in out:
            out.append(f)
    for f in out:
        if f_not(f) in out:
            return F
    # unit absorption: drop literals already known from inside disjunctions
    if not out:
        return T
    if len(out) == 1:
        return out[0]
    return ("and", *out)


def f_or(*fs):
    out = []
    for f in _flat("or", fs):
        if f == T:
            return T
        if f != F and f not in out:
            out.append(f)
    for f in out:
        if f_not(f) in out:
            return T
    if not out:
        return F
    if len(out) == 1:
        return out[0]
    return ("or", *out)


def f_implies(a, b):
    return f_or(f_not(a), b)


# Atoms are numbered (process wide), so that diagrams compare by small integers.
ATOM_ID, ATOM = {}, []


def atom_id(a):
    i = ATOM_ID.get(a)
    if i is None:
        i = ATOM_ID[a] = len(ATOM)
        ATOM.append(a)
    return i


# BDDs: T | F | ("bdd", atom number, lo, hi), hash-consed.


def _differ(a, b):
    """Two literals that are not equal."""
    if is_const(a) and is_const(b):
        return a != b
    if a[0] == b[0] and a[0] in ("set", "tuple", "list") and all(map(is_const, (*a[1:], *b[1:]))):
        return set(a[1:]) != set(b[1:]) if a[0] == "set" else a != b
    return False


def _consistent(asg, atom, v, subclass):
    """Whether giving `atom` the value `v` agrees with the values of the related atoms `asg`."""
    k, t = atom[0], atom[1]

    def others():
        for i, w in asg.items():
            yield ATOM[i], w

    if k in ("truth", "isnone", "inst", "eq", "is", "in", "ge", "lt", "exists", "subcls"):
        pass
    else:
        return True
    if k == "isnone":
        for b, w in others():
            if not v:
                if b[0] == "inst" and False:
                    return False
                continue
            if w and b[0] in ("truth", "inst") and b[1] == t:
                return False
            if w and b[0] == "eq" and t in b[1:] and any(
                    x != t and (is_const(x) or x[0] == "g") for x in b[1:]):
                return False
        return True
    if k == "truth":
        for b, w in others():
            if b[0] == "isnone" and b[1] == t and w and v:
                return False
            if b[0] == "eq" and w and t in b[1:]:
                for x in b[1:]:
                    if x != t and is_const(x) and isinstance(x[2], (str, int, bytes)) and \
                            bool(x[2]) != v:
                        return False
            if b[0] == "exists" and w and not v and b[1][0] == t:
                return False
            if b[0] == "in" and w and not v and b[2] == t:
                return False
            if b[0] == "ge" and b[1][0] == "call" and b[1][1] == ("g", "builtins.len") and \
                    b[1][2][0] == t:
                if not v and w and b[2] >= 1 or v and not w and b[2] <= 1:
                    return False
        return True
    if k == "in" and v:
        for b, w in others():
            if b[0] == "truth" and not w and b[1] == atom[2]:
                return False
        return True
    if k == "inst":
        for b, w in others():
            if b[0] == "isnone" and b[1] == t and w and v:
                return False
            if b[0] == "inst" and b[1] == t:
                if v and not w and subclass(atom[2], b[2]):
                    return False
                if w and not v and subclass(b[2], atom[2]):
                    return False
                if w and v and subclass.disjoint(atom[2], b[2]):
                    return False
        return True
    if k == "subcls":
        for b, w in others():
            if b[0] == "subcls" and b[1] == t:
                if v and not w and subclass(atom[2], b[2]):
                    return False
                if w and not v and subclass(b[2], atom[2]):
                    return False
        return True
    if k in ("lt", "eq") and not v:
        # one of a < b, a == b and b < a holds, when two of them are looked at
        off = {b for b, w in others() if not w and b[0] in ("lt", "eq") and
               set(b[1:]) == set(atom[1:])} | {atom}
        if len({b for b in off if b[0] == "lt"}) == 2 and any(b[0] == "eq" for b in off):
            return False
    if k == "eq":
        x, y = atom[1], atom[2]
        if not v:
            return True
        for b, w in others():
            if b[0] == "eq" and w:
                for p, q in ((x, y), (y, x)):
                    for p2, q2 in ((b[1], b[2]), (b[2], b[1])):
                        if p == p2 and _differ(q, q2):
                            return False
            for p, q in ((x, y), (y, x)):
                if is_const(q) or q[0] == "g":
                    if b[0] == "isnone" and w and b[1] == p:
                        return False
                    if b[0] == "truth" and b[1] == p and is_const(q) and isinstance(
                            q[2], (str, int, bytes)) and bool(q[2]) != w:
                        return False
            if b[0] == "lt" and w and set(b[1:]) == {x, y}:
                return False
        return True
    if k == "lt":
        if not v:
            return True
        for b, w in others():
            if w and b[0] in ("lt", "eq") and set(b[1:]) == set(atom[1:]):
                return False
        return True
    if k == "ge":
        for b, w in others():
            if b[0] == "ge" and b[1] == t:
                if v and not w and atom[2] >= b[2] or w and not v and b[2] >= atom[2]:
                    return False
            if b[0] == "truth" and t[0] == "call" and t[1] == ("g", "builtins.len") and \
                    t[2][0] == b[1]:
                if not w and v and atom[2] >= 1 or w and not v and atom[2] <= 1:
                    return False
        return True
    if k == "exists":
        for b, w in others():
            if v and b[0] == "truth" and not w and atom[1][0] == b[1]:
                return False
            if b[0] == "exists" and b[1] == atom[1]:
                if v and not w and bdd_and(atom[2], bdd_not(b[2])) == F:
                    return False
                if w and not v and bdd_and(b[2], bdd_not(atom[2])) == F:
                    return False
        return True
    return True


_UNIQ = {}
_MEMO = {}


def _mk(atom, lo, hi):
    if lo is hi:
        return lo
    k = (atom, id(lo), id(hi))
    r = _UNIQ.get(k)
    if r is None:
        r = _UNIQ[k] = ("bdd", atom, lo, hi)
    return r


def bdd_atom(a):
    return _mk(atom_id(a), F, T)


def bdd_not(a):
    if a is T or a == T:
        return F
    if a is F or a == F:
        return T
    k = ("not", id(a))
    r = _MEMO.get(k)
    if r is None:
        r = _MEMO[k] = _mk(a[1], bdd_not(a[2]), bdd_not(a[3]))
    return r


def _norm(a):
    return T if a == T else F if a == F else a


def _apply(a, b, op):
    if op == "and":
        if a is F or b is F:
            return F
        if a is T:
            return b
        if b is T or a is b:
            return a
    else:
        if a is T or b is T:
            return T
        if a is F:
            return b
        if b is F or a is b:
            return a
    k = (op, id(a), id(b))
    r = _MEMO.get(k)
    if r is None:
        if a[1] == b[1]:
            r = _mk(a[1], _apply(a[2], b[2], op), _apply(a[3], b[3], op))
        elif a[1] < b[1]:
            r = _mk(a[1], _apply(a[2], b, op), _apply(a[3], b, op))
        else:
            r = _mk(b[1], _apply(a, b[2], op), _apply(a, b[3], op))
        _MEMO[k] = r
    return r


def support(g, seen=None, out=None):
    """The numbers of the atoms of a diagram."""
    seen, out = (set(), set()) if out is None else (seen, out)
    if g[0] == "bdd" and id(g) not in seen:
        seen.add(id(g))
        out.add(g[1])
        support(g[2], seen, out)
        support(g[3], seen, out)
    return out


def restrict(g, i, v, memo=None):
    """The diagram once atom `i` is known to be `v`."""
    memo = {} if memo is None else memo
    if g[0] != "bdd" or g[1] > i:
        return g
    if g[1] == i:
        return g[3 if v else 2]
    r = memo.get(id(g))
    if r is None:
        r = memo[id(g)] = _mk(g[1], restrict(g[2], i, v, memo), restrict(g[3], i, v, memo))
    return r


def bdd_and(a, b):
    return _apply(_norm(a), _norm(b), "and")


def bdd_or(a, b):
    return _apply(_norm(a), _norm(b), "or")


def _mk2(i, lo, hi):
    """`hi` if atom `i` holds, else `lo`."""
    a = _mk(i, F, T)
    return bdd_or(bdd_and(a, hi), bdd_and(bdd_not(a), lo))


class Budget(Exception):
    pass


class Classes:
    """What is known about the classes of `isinstance` checks."""

    def __init__(self, program=None):
        self.p = program

    def __call__(self, a, b):
        return self.p is not None and a[0] == "g" and b[0] == "g" and self.p.is_subclass(a[1], b[1])

    def disjoint(self, a, b):
        return (self.p is not None and a[0] == "g" and b[0] == "g"
                and self.p.disjoint(a[1], b[1]))


NO_CLASSES = Classes()


def bdd_sat(b, subclass=None, asg=None, budget=None):
    """A consistent satisfying assignment {atom number: value} of the diagram, or None."""
    asg = {} if asg is None else asg
    subclass = subclass or NO_CLASSES
    budget = [20000] if budget is None else budget
    if b is F:
        return None
    if b is T:
        return dict(asg)
    budget[0] -= 1
    if budget[0] < 0:
        raise Budget()
    for branch, v in ((b[3], True), (b[2], False)):
        if branch is F:
            continue
        if _consistent(asg, ATOM[b[1]], v, subclass):
            asg[b[1]] = v
            r = bdd_sat(branch, subclass, asg, budget)
            del asg[b[1]]
            if r is not None:
                return r
    return None


# -- canonical forms -------------------------------------------------------------------------


def outer(t):
    """Subterms that are not inside a function."""
    stack = [t]
    while stack:
        x = stack.pop()
        if x and isinstance(x[0], str):
            if x[0] == "lam":
                continue
            yield x
        stack.extend(y for y in x if isinstance(y, tuple))


def binders(t):
    """Variables bound somewhere inside a term."""
    out = set()
    for y in walk(t):
        if y[0] in ("comp", "first", "last", "exists", "fold"):
            out |= {b[0] for b in y[2 if y[0] == "comp" else 3 if y[0] == "fold" else 1]}
        if y[0] == "fold":
            out.add(y[1])
        if y[0] == "lam":
            out |= set(y[1])
    return out


def plain_dict(t):
    """A mapping with just entries under constant keys."""
    return t[0] == "dict" and all(
        e[0] == "kv" and is_const(e[1]) and e[2][0] != "app" for e in t[1:])


def optional_entries(t):
    """A mapping inside `t` with entries that are only there under some condition."""
    found = [x for x in outer(t) if x[0] == "comp" and x[1] == "map" and x[2] == () and
             all(e[0] == "kv" and is_const(e[1]) for _, e in x[3]) and
             len({e[1] for _, e in x[3]}) == len(x[3]) and any(g != T for g, _ in x[3])]
    if not found:
        return None
    bound = binders(t)
    for x in found:
        if not any(y in bound for g, _ in x[3] for y in walk(g)):
            return x
    return None


class Canon:
    """De Bruijn-style renaming of bound variables plus sorting of unordered parts."""

    def __init__(self, subclass=None, typing=None):
        self.subclass = subclass
        self.typing = typing
        self.memo = {}
        self.umemo = {}
        self.rmemo = {}

    def term(self, t, env=()):
        """Canonicalise term `t`; `env` is the tuple of bound variable terms (outermost first)."""
        if not isinstance(t, tuple):
            return t
        k = (t, env)
        r = self.memo.get(k)
        if r is None:
            r = self._term(t, env)
            self.memo[k] = r
        return r

    def _term(self, t, env):
        if not t:
            return t
        k = t[0]
        if k == "c":
            return t
        if k in ("v", "acc"):
            for i in range(len(env) - 1, -1, -1):
                if env[i] == t:
                    return ("b", len(env) - 1 - i)
            return t
        if k == "bool":
            return ("bool", self.formula(t[1], env))
        if k == "comp":
            return self._comp(t, env)
        if k == "tuple" and len(t) > 2 and self.typing is not None and all(
                x[0] == "i" and x[2] == const(i) and x[1] == t[1][1]
                for i, x in enumerate(t[1:])):
            # (x[0], x[1]) of a pair is the pair
            ty = self.typing.type_of(t[1][1])
            while ty is not None and ty[0] == "opt":
                ty = ty[1]
            if ty is not None and ty[0] == "tup" and len(ty[1]) == len(t) - 1:
                return self.term(t[1][1], env)
        if k == "xor":
            return self._xor(t, env)
        if k == "merge":
            parts = []
            for x in t[1:]:
                if x == ("dict",):
                    continue
                if parts and plain_dict(x) and plain_dict(parts[-1]) and not (
                        {e[1] for e in x[1:]} & {e[1] for e in parts[-1][1:]}):
                    parts[-1] = (*parts[-1], *x[1:])
                else:
                    parts.append(x)
            if len(parts) < len(t) - 1:
                return self.term(parts[0] if len(parts) == 1 else ("merge", *parts), env)
        if k == "call" and t[1] == ("g", "builtins.type") and len(t[2]) == 3 and plain_dict(t[2][2]):
            # the order of a namespace does not matter
            d = ("dict", *sorted(t[2][2][1:], key=repr))
            if d != t[2][2]:
                return self.term((k, t[1], (*t[2][:2], d), *t[3:]), env)
        if k in ("uni", "inter", "utype", "set"):
            return (k, *sorted((self.term(x, env) for x in t[1:]), key=repr))
        if k == "ite":
            return ("ite", self.formula(t[1], env), self.term(t[2], env), self.term(t[3], env))
        if k in ("lam",):
            # ("lam", vars, alts) where alts = ((guard, term), ...)
            e2 = (*env, *t[1])
            return ("lam", len(t[1]), self._alts(t[2], e2))
        if k == "gv":
            return ("gv", self._alts(t[1], env))
        if k in ("first", "last"):
            # (kind, loops, alts, default)
            loops, e2 = self._loops(t[1], env)
            return (k, loops, self._alts(t[2], e2), self.term(t[3], env))
        if k == "fold":
            # ("fold", accvar, init, loops, alts)
            init = self.term(t[2], env)
            loops, e2 = self._loops(t[3], env)
            env = (*e2, t[1])
            same = self.term(t[1], env)
            return ("fold", init, loops,
                    tuple(a for a in self._alts(t[4], env) if a[1] != same))
        if k == "summ":
            return t
        if isinstance(k, str):
            return (k, *(self.term(x, env) if isinstance(x, tuple) else x for x in t[1:]))
        # a bare tuple of terms
        return tuple(self.term(x, env) if isinstance(x, tuple) else x for x in t)

    def _xor(self, t, env):
        """Order independent: one summand per nest of loops and element, whatever the nesting."""
        out, by = [], {}

        def gather(x, loops, guard):
            if x[0] == "xor":
                for y in x[1:]:
                    gather(y, loops, guard)
            elif x[0] == "star" and x[1][0] in ("tuple", "list"):
                for y in x[1][1:]:
                    gather(y, loops, guard)
            elif x[0] == "star" and x[1][0] == "cat":
                for y in x[1][1:]:
                    gather(("star", y), loops, guard)
            elif x[0] == "star" and x[1][0] == "comp" and x[1][1] in ("seq", "list", "tuple"):
                for g, e in x[1][3]:
                    gather(e, (*loops, *x[1][2]), f_and(guard, g))
            elif not loops and guard == T:
                out.append(self.term(x, env))
            else:
                cl, e2 = self._loops(loops, env)
                g, k = self.formula(guard, e2), (cl, self.term(x, e2))
                old = by.get(k, F)
                # the same element twice cancels out
                by[k] = bdd_or(bdd_and(old, bdd_not(g)), bdd_and(bdd_not(old), g))
        for x in t[1:]:
            gather(x, (), T)
        out += [("star", ("comp", "seq", cl, ((g, x),))) for (cl, x), g in by.items()
                if not self.unsat(g)]
        return ("xor", *sorted(out, key=repr))

    def _loops(self, loops, env):
        out = []
        for v, it in loops:
            out.append(self.term(it, env))
            env = (*env, v)
        return tuple(out), env

    def settle(self, g, e, env=(), budget=64):
        """Alternatives of a value: one per set of the optional entries its mappings can have."""
        todo, out = [(g, e)], []
        while todo:
            g, e = todo.pop()
            c = optional_entries(e) if len(todo) + len(out) < budget else None
            if c is None:
                out.append((g, e))
                continue
            i = next(i for i, (h, _) in enumerate(c[3]) if h != T)
            h, kv = c[3][i]
            for rows, gg in (((*c[3][:i], (T, kv), *c[3][i + 1:]), f_and(g, h)),
                             ((*c[3][:i], *c[3][i + 1:]), f_and(g, f_not(h)))):
                if not self.unsat(self.formula(gg, env)):
                    full = all(h == T for h, _ in rows)
                    todo.append((gg, subst(e, {c: ("dict", *(x for _, x in rows)) if full
                                               else (*c[:3], rows)})))
        return out

    def _alts(self, alts, env):
        by = {}
        for g, e in [x for g, e in alts for x in self.settle(g, e, env)]:
            ce = self.term(e, env)
            cg = self.formula(g, env)
            by[ce] = bdd_or(by.get(ce, F), cg)
        return tuple(sorted(((self.reduce(g), e) for e, g in by.items() if not self.unsat(g)),
                            key=repr))

    def reduce(self, g):
        """Without the checks that the other ones settle (a class no instance of the others has)."""
        if g == T or g == F:
            return g
        r = self.rmemo.get(g)
        if r is None:
            r, atoms = g, support(g)
            by = {}
            for i in atoms:
                a = ATOM[i]
                if a[0] in ("inst", "subcls"):
                    by.setdefault(a[1], []).append(i)
            for i in sorted(i for xs in by.values() if 1 < len(xs) < 7 for i in xs):
                for v in (False, True):
                    x = restrict(r, i, v)
                    if x is not r and self.equiv(r, x):
                        r = x
                        break
            if any(1 < len(xs) < 7 for xs in by.values()):
                budget = [3000]
                try:
                    r = self.along(r, {}, budget)
                except Budget:
                    pass
            self.rmemo[g] = r
        return r

    def along(self, g, asg, budget):
        """The diagram with the branches nothing can take left out."""
        if g[0] != "bdd":
            return g
        budget[0] -= 1
        if budget[0] < 0:
            raise Budget()
        sides = []
        for v in (False, True):
            if _consistent(asg, ATOM[g[1]], v, self.subclass):
                sides.append(self.along(g[3 if v else 2], {**asg, g[1]: v}, budget))
        if len(sides) < 2:
            return sides[0] if sides else g
        return _mk(g[1], *sides)

    def _comp(self, t, env):
        _, kind, loops, alts = t
        cl, e2 = self._loops(loops, env)
        if kind == "seq" and len(alts) > 1:
            seq = [(self.formula(g, e2), self.term(e, e2)) for g, e in alts]
            if not all(self.unsat(bdd_and(a, b)) for i, (a, _) in enumerate(seq)
                       for b, _ in seq[i + 1:]):
                # several elements in one round: their order counts
                return ("comp", kind, cl, tuple(x for x in seq if not self.unsat(x[0])))
        return ("comp", kind, cl, self._alts(alts, e2))

    def unsat(self, g):
        if g == F:
            return True
        if g == T:
            return False
        r = self.umemo.get(g)
        if r is None:
            try:
                r = bdd_sat(g, self.subclass) is None
            except Budget:
                r = False
            self.umemo[g] = r
        return r

    def formula(self, f, env=()):
        """Canonical BDD of a formula."""
        if f == T:
            return T
        if f == F:
            return F
        k = ("F", f, env)
        r = self.memo.get(k)
        if r is None:
            r = self._formula(f, env)
            self.memo[k] = r
        return r

    def some(self, xs, env):
        """Whether one of several existential conditions holds: one per collection looked through."""
        by, r = {}, F
        for x in xs:
            loops, e2 = self._loops(x[1], env)
            if not loops or x[2][0] == "in":
                r = bdd_or(r, self.formula(x, env))
                continue
            g, inv = by.get(loops, (F, set()))
            by[loops] = bdd_or(g, self.formula(x[2], e2)), inv | self.fixed(x[2], e2)
        for loops, (g, inv) in by.items():
            r = bdd_or(r, self._exists(loops, g, inv))
        return r

    def fixed(self, f, env):
        """The atoms of a formula that mention nothing bound around it."""
        if f[0] in ("and", "or", "not"):
            return set().union(*(self.fixed(x, env) for x in f[1:]))
        if f in (T, F) or any(y in env for y in walk(f)):
            return set()
        g = self.formula(f, env)
        return {g[1]} if g[0] == "bdd" and g[2] == F and g[3] == T else set()

    def _exists(self, loops, g, inv=()):
        if self.unsat(g):
            return F
        for i in sorted(inv) if len(inv) <= 4 else ():
            if i in support(g):
                # whether it holds does not depend on the element
                rest = [x for x in inv if x != i]
                return _mk2(i, self._exists(loops, restrict(g, i, False), rest),
                            self._exists(loops, restrict(g, i, True), rest))
        # `any(v == x for v in X)` is `x in X`
        return bdd_atom(("truth", loops[0]) if g == T and len(loops) == 1 else ("exists", loops, g))

    def _formula(self, f, env):
        if f[0] == "not":
            return bdd_not(self.formula(f[1], env))
        if f[0] == "and":
            r, xs = T, [x[1] for x in f[1:] if x[0] == "not" and x[1][0] == "exists"]
            for x in f[1:]:
                if x[0] != "not" or x[1][0] != "exists" or len(xs) < 2:
                    r = bdd_and(r, self.formula(x, env))
            return bdd_and(r, bdd_not(self.some(xs, env))) if len(xs) > 1 else r
        if f[0] == "or":
            r, xs = F, [x for x in f[1:] if x[0] == "exists"]
            for x in f[1:]:
                if x[0] != "exists" or len(xs) < 2:
                    r = bdd_or(r, self.formula(x, env))
            return bdd_or(r, self.some(xs, env)) if len(xs) > 1 else r
        if f[0] in ("isnone", "truth") and self.typing is not None:
            n = self.typing.nullness(f[1])
            if f[0] == "isnone" and (n == "never" or n == "object" and f[1][0] in ("i", "first", "v")):
                return F
            if f[0] == "truth" and n == "object":
                return T
            if f[0] == "truth" and n == "optobject":
                return bdd_not(self.formula(("isnone", f[1]), env))
        if f[0] == "exists" and not f[1]:
            return self.formula(f[2], env)
        if f[0] == "exists":
            # ("exists", loops, guard)
            if len(f[1]) == 1 and f[2][0] == "in" and f[2][1] == f[1][0][0] and \
                    f[2][1] not in list(walk(f[2][2])):
                # a common element of two collections, whichever is looked through
                v, b = f[1][0][0], f[2][2]
                while b[0] == "co" and b[1] in ("set", "frozenset", "list", "tuple", "seq"):
                    b = b[2]
                a, b = sorted((f[1][0][1], b), key=lambda x: repr(self.term(x, env)))
                f = ("exists", ((v, a),), ("in", v, b))
            loops, e2 = self._loops(f[1], env)
            return self._exists(loops, self.formula(f[2], e2), self.fixed(f[2], e2))
        if f[0] == "eq":
            a, b = sorted((self.term(f[1], env), self.term(f[2], env)), key=repr)
            if a == b:
                return T
            for x, c in ((f[1], f[2]), (f[2], f[1])):
                if is_const(c) and x[0] in ("a", "p") and self.typing is not None:
                    ty = self.typing.type_of(x)
                    if ty is not None and ty[0] == "lit":
                        # a field of a few literals: the last of them is "none of the others"
                        if c[2] not in ty[1]:
                            return F
                        if c[2] == ty[1][-1]:
                            r = T
                            for v in ty[1][:-1]:
                                r = bdd_and(r, bdd_not(self.formula(("eq", x, const(v)), env)))
                            return r
            return bdd_atom(("eq", a, b))
        if f[0] == "bdd":
            return f
        if f[0] == "opq":
            return bdd_atom(("opq", f[1]))
        if f[0] == "in" and f[2][0] in ("a", "p") and self.typing is not None and \
                self.typing.nullness(f[2]) is None and (
                f[2][0] == "a" or self.typing.type_of(f[2]) is not None):
            # possibly None, so that asking what it contains may fail: unrelated to its truth
            return bdd_atom(("in?", self.term(f[1], env), self.term(f[2], env)))
        a = tuple(self.term(x, env) if isinstance(x, tuple) else x for x in f)
        return bdd_atom(a)

    def equiv(self, a, b):
        """Equivalence of canonical formulas (BDDs) modulo the theories."""
        if a == b:
            return True
        return (self.unsat(bdd_and(a, bdd_not(b)))) and (self.unsat(bdd_and(b, bdd_not(a))))

    def implies(self, a, b):
        return self.unsat(bdd_and(a, bdd_not(b)))


def walk(t):
    """All subterms (and formulas) of a term."""
    stack = [t]
    while stack:
        x = stack.pop()
        if isinstance(x, tuple):
            if x and isinstance(x[0], str):
                yield x
                if x[0] == "bdd":
                    stack.append(ATOM[x[1]])
            stack.extend(y for y in x if isinstance(y, tuple))


def subst(t, m):
    """Replace terms per mapping `m` (bottom-up, no capture: bound variables have unique ids)."""
    if not isinstance(t, tuple):
        return t
    if t in m:
        return m[t]
    if t and t[0] == "c":
        return t
    new = tuple(subst(x, m) if isinstance(x, tuple) else x for x in t)
    return new


def show(t, depth=0):
    """Compact human readable rendering."""
    if not isinstance(t, tuple) or not t:
        return str(t)
    k = t[0]
    s = show
    if k == "c":
        return repr(t[2])
    if k == "p":
        return t[1]
    if k == "g":
        return t[1].rsplit(".", 1)[-1]
    if k == "v":
        return f"v{t[1]}"
    if k == "b":
        return f"#{t[1]}"
    if k == "a":
        return f"{s(t[1])}.{t[2]}"
    if k == "i":
        return f"{s(t[1])}[{s(t[2])}]"
    if k == "call":
        a = [s(x) for x in t[2]] + [f"{n}={s(x)}" for n, x in t[3]]
        return f"{s(t[1])}({', '.join(a)})"
    if k == "bool":
        return f"<{s(t[1])}>"
    if k == "T":
        return "true"
    if k == "F":
        return "false"
    if k == "not":
        return f"not {s(t[1])}"
    if k in ("and", "or"):
        return "(" + f" {k} ".join(s(x) for x in t[1:]) + ")"
    if k == "truth":
        return s(t[1])
    if k == "isnone":
        return f"{s(t[1])} is None"
    if k in ("eq", "is", "lt", "in", "ge", "inst", "subcls"):
        op = {"eq": "==", "is": "is", "lt": "<", "in": "in", "ge": ">=", "inst": "isinstance",
              "subcls": "issubclass"}[k]
        return f"{s(t[1])} {op} {s(t[2]) if isinstance(t[2], tuple) else t[2]}"
    if k == "bdd":
        t = (k, ATOM[t[1]], t[2], t[3])
        if t[2] == F and t[3] == T:
            return s(t[1])
        if t[2] == T and t[3] == F:
            return f"not {s(t[1])}"
        if t[2] == F:
            return f"({s(t[1])} and {s(t[3])})"
        if t[3] == F:
            return f"(not {s(t[1])} and {s(t[2])})"
        if t[3] == T:
            return f"({s(t[1])} or {s(t[2])})"
        if t[2] == T:
            return f"(not {s(t[1])} or {s(t[3])})"
        return f"({s(t[3])} if {s(t[1])} else {s(t[2])})"
    if k == "exists":
        return f"exists {s(t[1])}: {s(t[2])}"
    if k == "comp":
        alts = " | ".join((s(e) if g == T else f"{s(e)} if {s(g)}") for g, e in t[3])
        lp = " ".join(f"for {s(x)}" for x in t[2])
        return f"{t[1]}{{{alts} {lp}}}"
    if k == "lam":
        return f"lambda/{t[1] if isinstance(t[1], int) else len(t[1])}: {[(s(g), s(e)) for g, e in t[2]]}"
    if k == "fstr":
        return "f\"" + "".join(x[2] if x[0] == "c" else "{" + s(x) + "}" for x in t[1]) + "\""
    if isinstance(k, str):
        return f"{k}({', '.join(s(x) for x in t[1:])})"
    return "(" + ", ".join(s(x) for x in t) + ")"
