"""Calls: argument binding, inlining and normalisation of library calls."""
from __future__ import annotations

import ast
import functools

from . import libsig
from .engine_base import (EFFECTS, IGNORED_MODULES, Frame, St, TooComplex, attr, cat, contains, eq,
                          fstr, mk_bool, strip_co, truth)
from .engine_iter import exists
from .terms import (F, FALSE, NONE, T, TRUE, const, f_and, f_not, f_or, fresh, glob, is_const, subst,
                    unk, walk)

from .engine_iter import mutated

TRANSPARENT = {"typing.cast": 1, "arti.internal.type_hints.assert_not_none": 0}
MAPLIKE = {"arti.internal.mappings.frozendict", "builtins.dict", "types.MappingProxyType"}
SEQLIKE = {"builtins.list": "seq", "builtins.tuple": "tuple", "builtins.set": "set",
           "builtins.frozenset": "frozenset"}
LOCAL_ROOTS = ("list", "set", "dict", "comp", "cat", "uni", "merge", "acc", "tuple", "co", "diff",
               "inter")
MUTATORS = {"append", "extend", "add", "update", "setdefault", "difference_update", "discard",
            "intersection_update", "pop", "sort"}


def swap_independent(evs):
    """Assignments of different attributes, one right after the other, in a fixed order."""
    out = []
    for e in evs:
        i = len(out)
        while (i > 0 and e[0] == out[i - 1][0] == "set" and e[1][0] == out[i - 1][1][0] == "setattr"
               and not e[2] and not out[i - 1][2] and repr(e[1][2]) < repr(out[i - 1][1][2])):
            i -= 1
        out.insert(i, e)
    return tuple(out)


def wraps(t):
    """Is it functools.wraps(...)?"""
    return t[0] == "call" and t[1] == ("g", "functools.wraps")


class CallMixin:
    # -- entry -----------------------------------------------------------------------------------

    def ev_Call(self, n, st, fr):
        # mutation of a local container
        r = self.local_mutation(n, st, fr)
        if r is not None:
            return r
        if isinstance(n.func, ast.Name) and n.func.id == "super" and "super" not in st.env:
            return [(st, self.super_term(n, st, fr))]
        out = []
        for s, fn in self.callee(n.func, st, fr):
            if s.out is not None:
                out.append((s, NONE))
                continue
            if fn[0] == "g" and fn[1].startswith(IGNORED_MODULES):
                # the arguments only build a message
                out.append((s, NONE))
                continue
            if fn == glob("typing.cast") and len(n.args) == 2:
                out.extend(self.ev(n.args[1], s, fr))
                continue
            nodes = [a.value if isinstance(a, ast.Starred) else a for a in n.args]
            nodes += [k.value for k in n.keywords]
            for s2, ts in self.evs(nodes, s, fr):
                if s2.out is not None:
                    out.append((s2, NONE))
                    continue
                args, kwargs, stars = [], {}, []
                for a, t in zip(n.args, ts):
                    if isinstance(a, ast.Starred):
                        if t[0] in ("tuple", "list") and not any(e[0] == "star" for e in t[1:]):
                            args.extend(t[1:])
                        else:
                            args.append(("star", t))
                    else:
                        args.append(t)
                for k, t in zip(n.keywords, ts[len(n.args):]):
                    if k.arg is None:
                        if t[0] == "dict" and all(e[0] == "kv" and is_const(e[1]) for e in t[1:]):
                            for e in t[1:]:
                                kwargs[e[1][2]] = e[2]
                        elif t[0] == "co" and t[1] == "map":
                            stars.append(t[2])
                        elif t[0] == "merge" and all(
                                x[0] == "comp" or x[0] == "dict" and all(
                                    e[0] == "kv" and is_const(e[1]) for e in x[1:]) for x in t[1:]):
                            # given names and computed ones, which are not to overlap
                            for x in t[1:]:
                                if x[0] == "comp":
                                    stars.append(x)
                                else:
                                    kwargs.update((e[1][2], e[2]) for e in x[1:])
                        else:
                            stars.append(t)
                    else:
                        kwargs[k.arg] = t
                if stars:
                    kwargs["**"] = self.merge(*stars)
                for s3, t in self.call(fn, args, kwargs, s2, fr):
                    out.append((self.filled(n, s3), t) if "$out" in s3.env else (s3, t))
        return self.merge_results(out)

    def filled(self, n, st):
        """Local containers changed in place by the function they were given to."""
        env = dict(st.env)
        byname = {k.arg: k.value for k in n.keywords}
        for tag, val in env.pop("$out"):
            a = byname.get(tag) if isinstance(tag, str) else (
                n.args[tag] if -tag <= len(n.args) else None)
            if not isinstance(a, ast.Name) or a.id not in env:
                continue
            al = env.get("&" + a.id)
            env[a.id] = val
            if al is not None and al[0] == "alias" and al[1] in env:
                # (part of) another container
                env[al[1]] = val if not al[2] else unk("changed in a helper")
        s = st.copy()
        s.env = env
        return s

    def callee(self, f, st, fr):
        if isinstance(f, ast.Attribute):
            root = f
            while isinstance(root, ast.Attribute):
                root = root.value
            if isinstance(root, ast.Name) and root.id not in st.env:
                return self.ev_Attribute(f, st, fr)
            return [(s, (self.global_attr(b, f.attr) or self.class_attr(b, f.attr)
                         or attr(b, f.attr))
                     if s.out is None and b[0] != "super" else
                     (("superattr", b, f.attr) if s.out is None else NONE))
                    for s, b in self.ev(f.value, st, fr)]
        return self.ev(f, st, fr)

    def super_term(self, n, st, fr):
        f = fr.func
        cls = fr.cls
        first = None
        if f is not None:
            ps = f.params()
            first = st.env.get(ps[0].arg) if ps else None
        self_cls = None
        if first is not None:
            q, _ = self.t.cls_of(first)
            self_cls = q
        if self_cls is None or cls is None or cls not in self.p.mro(self_cls):
            self_cls = cls
        return ("super", cls or "", self_cls or "", first or NONE)

    # -- local containers --------------------------------------------------------------------------

    def is_local(self, t):
        if t[0] == "acc":
            init = self.acc_init.get(t)
            return init is not None and self.is_local(init)
        return t[0] in LOCAL_ROOTS

    def local_mutation(self, n, st, fr):
        if not (isinstance(n.func, ast.Attribute) and n.func.attr in MUTATORS):
            return None
        m = n.func.attr
        # path of subscripts / setdefaults down to a local name
        path, b = [], n.func.value
        while True:
            if isinstance(b, ast.Subscript):
                path.append(b.slice)
                b = b.value
            elif (isinstance(b, ast.Call) and isinstance(b.func, ast.Attribute)
                  and b.func.attr == "setdefault" and len(b.args) == 2 and m != "setdefault"):
                path.append(b.args[0])
                b = b.func.value
            else:
                break
        if not isinstance(b, ast.Name) or b.id not in st.env:
            return None
        name = b.id
        al = st.env.get("&" + name)
        if al is not None and al[0] == "alias" and al[1] in st.env and m != "setdefault" and \
                self.is_local(st.env[al[1]]):
            return self.alias_mutation(n, m, al, path[::-1], st, fr)
        held = st.env[name]
        if m == "sort" and held[0] == "i" and not path and not n.args and self.is_local(held[1]) and \
                all(k.arg for k in n.keywords):
            # a list held by a container of this function, looked at one by one
            out = []
            for s, ts in self.evs([k.value for k in n.keywords], st, fr):
                kw = dict(zip([k.arg for k in n.keywords], ts))
                for s2, v in self.lib_sorted([held], kw, s, fr) if s.out is None else ((s, NONE),):
                    out.append((s2.bind(name, v) if s2.out is None else s2, NONE))
            return out
        if not self.is_local(held):
            return None
        path.reverse()
        kind = self.acc_kind(st.env[name])
        out = []
        nodes = [*path, *n.args, *[k.value for k in n.keywords]]
        if any(isinstance(a, ast.Starred) for a in n.args):
            return None
        for s, ts in self.evs(nodes, st, fr):
            if s.out is not None:
                out.append((s, NONE))
                continue
            keys, args = ts[:len(path)], ts[len(path):len(path) + len(n.args)]
            kw = dict(zip([k.arg for k in n.keywords], ts[len(path) + len(n.args):]))
            cur = s.env[name]
            if keys:
                out.append(self.nested_mutation(name, keys, m, args, kw, s))
                continue
            if m == "append" and len(args) == 1:
                new = cat(cur, ("tuple", args[0])) if cur[0] != "acc" else ("cat", cur, ("tuple", args[0]))
                out.append((s.bind(name, new), NONE))
            elif m == "extend" and len(args) == 1:
                out.append((s.bind(name, cat(cur, args[0])), NONE))
            elif m == "sort" and not args and kind == "seq" and not self.has_acc(cur):
                for s2, v in self.lib_sorted([cur], dict(kw), s, fr):
                    out.append((s2.bind(name, v), NONE))
            elif m == "add" and len(args) == 1:
                out.append((s.bind(name, self.union(cur, ("set", args[0]))), NONE))
            elif m == "update" and kind == "set":
                out.append((s.bind(name, self.union(cur, *args)), NONE))
            elif m in ("difference_update", "discard") and kind == "set" and len(args) == 1 and \
                    not self.has_acc(cur):
                b = ("set", args[0]) if m == "discard" else self.to_set(args[0])
                out.append((s.bind(name, self.difference(cur, b)), NONE))
            elif m == "intersection_update" and kind == "set" and len(args) == 1 and \
                    not self.has_acc(cur):
                out.append((s.bind(name, ("inter", *sorted({strip_co(cur), strip_co(args[0])},
                                                           key=repr))), NONE))
            elif m == "pop" and kind == "map" and len(args) in (1, 2) and is_const(args[0]) and \
                    not self.has_acc(cur):
                left = self.without(cur, args[0])
                f = contains(args[0], cur)
                a, b2 = s.assume(f), s.assume(f_not(f))
                if a.pc != F:
                    out.append((a.bind(name, left), self.index(cur, args[0])))
                if b2.pc != F and len(args) == 2:
                    out.append((b2.bind(name, left), args[1]))
                elif b2.pc != F:
                    out.append((b2.leave(("raise", glob("builtins.KeyError"))), NONE))
            elif m == "update" and kind == "map":
                parts = list(args)
                for k, v in kw.items():
                    parts.append(("dict", ("kv", const(k), v)) if k else v)
                out.append((s.bind(name, self.merge(cur, *parts)), NONE))
            elif m == "setdefault" and kind == "map":
                f = contains(args[0], cur)
                cur_v = self.index(cur, args[0])
                default = args[1] if len(args) > 1 else NONE
                a, b2 = s.assume(f), s.assume(f_not(f))
                if a.pc != F:
                    out.append((a, cur_v))
                if b2.pc != F:
                    out.append((b2.bind(name, self.merge(cur, ("dict", ("kv", args[0], default)))),
                                default))
            else:
                return None
        return out

    @staticmethod
    def has_acc(t):
        return any(x[0] == "acc" for x in walk(t))

    def without(self, m, key):
        """The mapping `m` without the constant `key`."""
        if m[0] == "dict" and all(e[0] == "kv" and is_const(e[1]) for e in m[1:]):
            return ("dict", *(e for e in m[1:] if e[1] != key))
        return self.build_comp("map", [
            (lp, f_and(g, f_not(eq(e[1], key))), ("kv", e[1], e[2]))
            for lp, g, e in self.map_sources(m, "items", True)])

    def nested_mutation(self, name, keys, m, args, kw, s):
        upd = {"append": lambda: ("tuple", args[0]), "extend": lambda: args[0],
               "add": lambda: ("set", args[0]), "update": lambda: args[0]}.get(m)
        if upd is None or len(args) != 1 or kw:
            return s.bind(name, unk(m)), unk(m)
        val = ("app", upd())
        for k in reversed(keys[1:]):
            val = ("app", ("dict", ("kv", k, val)))
        return s.bind(name, self.merge(s.env[name], ("dict", ("kv", keys[0], val)))), NONE

    def alias_mutation(self, n, m, al, path, st, fr):
        """In place change through another name of (a part of) a local container."""
        _, root, keys = al
        if not keys and not path:
            n2 = ast.Call(ast.Attribute(ast.Name(root, ast.Load()), m, ast.Load()), n.args, n.keywords)
            res = self.local_mutation(ast.copy_location(n2, n), st, fr)
            if res is not None:
                for s, _ in res:
                    s.env[n.func.value.id] = s.env[root]
            return res
        if any(isinstance(a, ast.Starred) for a in n.args):
            return None
        out = []
        for s, ts in self.evs([*path, *n.args, *[k.value for k in n.keywords]], st, fr):
            if s.out is not None:
                out.append((s, NONE))
                continue
            args = ts[len(path):len(path) + len(n.args)]
            kw = dict(zip([k.arg for k in n.keywords], ts[len(path) + len(n.args):]))
            out.append(self.nested_mutation(root, (*keys, *ts[:len(path)]), m, args, kw, s))
        return out

    # -- dispatch ----------------------------------------------------------------------------------

    def call(self, fn, args, kwargs, st, fr):
        """Call term `fn`: [(state, result)]."""
        k = fn[0]
        if k == "clo":
            return self.call_closure(fn, args, kwargs, st, fr)
        if k == "wrapped":
            return self.call_wrapped(fn, args, kwargs, st, fr)
        if k == "deco" and wraps(fn[1]):
            return self.call(fn[2], args, kwargs, st, fr)
        if wraps(fn) and len(args) == 1 and not kwargs and args[0][0] == "clo":
            return [(st, ("deco", fn, args[0]))]
        if k == "partial":
            return self.call(fn[1], [*fn[2], *args], {**dict(fn[3]), **kwargs}, st, fr)
        if k == "itemgetter" and len(args) == 1:
            r = tuple(self.index(args[0], x) for x in fn[1:])
            return [(st, r[0] if len(r) == 1 else ("tuple", *r))]
        if k == "attrgetter" and len(args) == 1:
            b = args[0]
            res = [(st, b)]
            for part in fn[1].split("."):
                res = [x for s, t in res for x in self.getattr(t, part, s, fr)]
            return res
        if k == "ite":
            out = []
            for f, x in ((fn[1], fn[2]), (f_not(fn[1]), fn[3])):
                s = st.assume(f)
                if s.pc != F:
                    out.extend(self.call(x, args, kwargs, s, fr))
            return out
        if k == "g":
            return self.call_global(fn[1], args, kwargs, st, fr)
        if k == "i" and fn[1][0] == "g" and (
                fn[1][1].startswith(("builtins.", "collections.")) or fn[1][1] in self.p.classes):
            return self.call_global(fn[1][1], args, kwargs, st, fr)
        if k == "superattr":
            _, cls, self_cls, first = fn[1]
            f = self.p.find_method(self_cls, fn[2], after=cls) if self_cls else None
            if f is not None and f.qual not in fr.stack and not self.is_abstract(f) and fn[2] not in (
                    "__init__", "__new__", "__pydantic_init_subclass__", "model_post_init",
                    "__class_getitem__"):
                a = args if f.is_static else [first, *args]
                return self.call_func(f, a, kwargs, st, fr, self_cls=self_cls)
            if f is not None and fn[2] in ("__init__", "__pydantic_init_subclass__",
                                           "model_post_init", "__class_getitem__"):
                owner = f.cls.qual
            else:
                owner = "object"
                k = self.p.classes.get(cls)
                if f is None and k is not None and fn[2] in k.methods:
                    # an override declares the same kind of result
                    self.t.vtypes[("super", owner, fn[2])] = self.t.types.ret(k.methods[fn[2]], cls)
            return self.opaque(("super", owner, fn[2]), args, kwargs, st, func=None)
        if k == "a":
            return self.call_method(fn[1], fn[2], args, kwargs, st, fr)
        if k == "p" or k == "v":
            t = self.t.type_of(fn)
            if t and t[0] == "type" and t[1] and t[1][0] == "cls":
                return self.construct(fn, t[1][1], args, kwargs, st, fr)
        return self.opaque(fn, args, kwargs, st)

    def is_abstract(self, f):
        if f.deco("abstractmethod"):
            return True
        if f.cls is None or not self.known(f.qual) and not self.p.overridden_below(
                f.cls.qual, f.name):
            return False
        body = [s for s in f.node.body
                if not (isinstance(s, ast.Expr) and isinstance(s.value, ast.Constant))]
        return len(body) == 1 and isinstance(body[0], ast.Raise) and "NotImplementedError" in \
            ast.unparse(body[0]) and not f.deco("classproperty")

    def known(self, qual):
        return self.inventory is None or qual in self.inventory

    def should_inline(self, f, fr, recv_cls=None, recv=None):
        if f.qual in fr.stack or len(fr.stack) > 14 or ".vendored." in f.qual:
            return False
        if f.deco("contextmanager") or self.is_abstract(f) and not (
                self.own_hook(f, recv) and not self.known(f.qual)):
            return False
        if any(n.endswith(".register") for n in f.decorators) or f.deco(
                "multipledispatch", "register_reader", "register_writer"):
            return False
        name = f.name
        if f.cls is not None:
            base = recv_cls or f.cls.qual
            virtual = self.p.overridden_below(base, name) or f"{base}.{name}" in self.virtual
            if self.known(f.qual):
                if virtual:
                    return False
            elif virtual:
                if not self.own_hook(f, recv):
                    return False
                # subclasses that override this new hook are compared on their own
                self.hooks.add(name)
        if not self.known(f.qual):
            # a helper the reviewed tree does not have (possibly an override of a known method)
            if f.cls is not None and any(f"{b}.{name}" in self.inventory for b in self.p.mro(f.cls.qual)[1:]):
                return False
            return True
        if f.qual in self.always_inline:
            return True
        if name.startswith("_") and not name.startswith("__"):
            return f.qual not in self.opaque_private
        return False

    def own_hook(self, f, recv):
        """A new method called on the very object the analysed method belongs to."""
        return recv in (("p", "self"), ("p", "cls"))

    def inline_property(self, f, q, fr):
        """Single-return delegating properties, and properties the reviewed tree does not have."""
        if self.p.overridden_below(q, f.name) or f"{q}.{f.name}" in self.virtual:
            return False
        if self.is_abstract(f):
            return False
        if not self.known(f.qual):
            return not any(f"{b}.{f.name}" in self.inventory for b in self.p.mro(f.cls.qual)[1:])
        if f.qual in self.accessors:
            return f.qual not in fr.stack
        if f.deco("cached_property"):
            return False
        if f.qual in self.always_inline:
            return f.qual not in fr.stack and len(fr.stack) < 15
        return f.name.startswith("_") and not f.name.startswith("__") and \
            f.qual not in self.opaque_private

    def unique_new_method(self, name):
        """The only method of that name, when the reviewed tree has none called so."""
        if self.inventory is None or name in self.inventory_names:
            return None
        fs = self.p.methods_by_name.get(name, [])
        return fs[0] if len(fs) == 1 else None

    def unique_sequence(self, recv, name):
        """The only method of that name, on what a context manager gave."""
        fs = self.p.methods_by_name.get(name, [])
        if recv[0] == "enter" and len(fs) == 1 and fs[0].qual in self.always_inline and \
                not self.is_abstract(fs[0]):
            return fs[0]
        return None

    # -- methods -------------------------------------------------------------------------------------

    def call_method(self, recv, name, args, kwargs, st, fr):
        r = self.lib_method(recv, name, args, kwargs, st, fr)
        if r is not None:
            return r
        q, iscls = self.t.cls_of(recv)
        f = None
        if recv[0] == "g" and recv[1] in self.p.classes:
            q, iscls = recv[1], True
        if q in self.p.classes:
            f = self.p.find_method(q, name)
        elif q is None:
            f = self.unique_new_method(name) or self.unique_sequence(recv, name)
            if f is not None:
                q, iscls = f.cls.qual, f.is_classmethod
        if f is not None and not f.is_property:
            if self.should_inline(f, fr, q, recv):
                if f.is_static:
                    a = list(args)
                elif f.is_classmethod:
                    a = [recv if iscls else ("call", glob("builtins.type"), (recv,), ()), *args]
                elif iscls:
                    a = list(args)
                else:
                    a = [recv, *args]
                return self.call_func(f, a, kwargs, st, fr, self_cls=q)
            bound = self.bind_names(f, args, kwargs, skip=0 if (f.is_static or (
                iscls and not f.is_classmethod)) else 1)
            if bound is not None:
                return self.emit_call(("a", recv, name), (), bound, st)
        elif f is None:
            # bind by the (only) signature known for that method name
            cands = self.p.methods_by_name.get(name, [])
            cands = [c for c in cands if not c.is_property]
            if cands and (args or kwargs) and q not in self.p.classes and name not in (
                    "get", "update", "items", "keys", "values", "write", "read", "parse", "pop"):
                bs = {self.bind_names(c, args, kwargs, skip=0 if c.is_static else 1) for c in cands}
                if len(bs) == 1:
                    b = next(iter(bs))
                    if b is not None:
                        return self.emit_call(("a", recv, name), (), b, st)
        return self.opaque(("a", recv, name), args, kwargs, st)

    def bind_names(self, f, args, kwargs, skip):
        """Arguments by parameter name, with the ones equal to a constant default dropped."""
        a = f.node.args
        pos = [*a.posonlyargs, *a.args][skip:]
        if any(x[0] == "star" for x in args) or (len(args) > len(pos)):
            return None
        out = {p.arg: t for p, t in zip(pos, args)}
        for k, t in kwargs.items():
            if k in out:
                return None
            out[k] = t
        defaults = {}
        allpos = [*a.posonlyargs, *a.args]
        for p, d in zip(allpos[len(allpos) - len(a.defaults):], a.defaults):
            defaults[p.arg] = d
        for p, d in zip(a.kwonlyargs, a.kw_defaults):
            if d is not None:
                defaults[p.arg] = d
        for k in list(out):
            if k in defaults:
                c = self.const_expr(defaults[k])
                if c is not None and out[k] == const(c[0]):
                    del out[k]
        return tuple(sorted(out.items()))

    # -- functions -----------------------------------------------------------------------------------

    def call_func(self, f, args, kwargs, st, fr, self_cls=None):
        """Inline the function body."""
        if f.is_generator() and f.deco("contextmanager"):
            return self.opaque(glob(f.qual), args, kwargs, st)
        env = self.bind_env(f.node, args, kwargs, f.module, st, fr)
        if env is None:
            return self.opaque(glob(f.qual), args, kwargs, st)
        if not self.known(f.qual) and f.deco("cached_property", "lru_cache", "cache"):
            self.cached[f.qual] = f
        f2 = Frame(f.module, f, f.cls.qual if f.cls else None, (*fr.stack, f.qual), f.node)
        outs = [(p, tag) for p, tag in self.tagged(f.node, args, kwargs)
                if env[p] is not None and self.is_local(env[p])]
        return self.run_body(f.node.body, env, st, f2, generator=f.is_generator(), outs=outs)

    @staticmethod
    def tagged(node, args, kwargs):
        """[(parameter changed in place, which argument it is)]"""
        ps = mutated(node)[0]
        if not ps or any(x[0] == "star" for x in args):
            return []
        names = [a.arg for a in (*node.args.posonlyargs, *node.args.args)]
        return [(p, i - len(args)) for i, (p, _) in enumerate(zip(names, args)) if p in ps] + [
            (p, p) for p in kwargs if p in ps]

    def run_body(self, body, env, st, f2, generator=False, outs=(), free=()):
        s0 = St(env, st.pc, st.ev)
        if generator:
            s0.env["$y"] = ("tuple",)
        out = []
        for s in self.block(body, s0, f2):
            if generator:
                val = s.env.get("$y", ("tuple",))
            else:
                val = s.out[1] if s.out is not None and s.out[0] == "ret" else NONE
            r = St(st.env, s.pc, s.ev, s.out if s.out is not None and s.out[0] == "raise" else None)
            # closures may rebind nonlocals of the caller
            nl = {*(s.env.get("$nonlocal") or ()), *free}
            if nl:
                r.env = {**st.env, **{k: s.env[k] for k in nl if k in s.env}}
            changed = tuple((tag, s.env[p]) for p, tag in outs if s.env.get(p) != env[p])
            if changed:
                r.env = {**r.env, "$out": changed}
            out.append((r, val))
        return self.merge_results(out)

    def bind_env(self, node, args, kwargs, module, st, fr, base=None):
        a = node.args
        pos = [*a.posonlyargs, *a.args]
        env = dict(base or {})
        args = list(args)
        kwargs = dict(kwargs)
        star_kw = kwargs.pop("**", None)
        if any(x[0] == "star" for x in args):
            if not (a.vararg and all(x[0] != "star" for x in args[:len(pos)])):
                return None
        for p in pos:
            if args:
                env[p.arg] = args.pop(0)
            elif p.arg in kwargs:
                env[p.arg] = kwargs.pop(p.arg)
            else:
                env[p.arg] = None
        for p in a.kwonlyargs:
            env[p.arg] = kwargs.pop(p.arg, None)
        defaults = dict(zip([p.arg for p in pos[len(pos) - len(a.defaults):]], a.defaults))
        defaults.update({p.arg: d for p, d in zip(a.kwonlyargs, a.kw_defaults) if d is not None})
        for p in [*pos, *a.kwonlyargs]:
            if env[p.arg] is None:
                if star_kw is not None and p.arg not in defaults:
                    env[p.arg] = self.index(star_kw, const(p.arg))
                    continue
                if p.arg not in defaults:
                    return None
                res = self.ev(defaults[p.arg], St({}), Frame(module))
                env[p.arg] = res[0][1] if len(res) == 1 and res[0][0].out is None else unk("default")
        if a.vararg:
            env[a.vararg.arg] = self.seq_lit("tuple", args)
        elif args:
            return None
        if a.kwarg:
            d = [("dict", *(("kv", const(k), v) for k, v in kwargs.items()))] if kwargs else []
            if star_kw is not None:
                d.append(star_kw)
            env[a.kwarg.arg] = self.merge(("dict",), *d)
        elif kwargs:
            return None
        return env

    # -- closures ------------------------------------------------------------------------------------

    def closure(self, node, st, fr):
        key = ("clo", next(self.ids))
        self.clos[key] = (node, dict(st.env), fr)
        return key

    def call_closure(self, fn, args, kwargs, st, fr):
        node, env, cfr = self.clos[fn]
        if fn in self.clo_stack or len(self.clo_stack) > 12:
            return self.opaque(("rec",), args, kwargs, st)
        # names of the defining frame may have been rebound since
        if cfr is fr:
            env = {**env, **st.env}
        decorated = isinstance(node, ast.FunctionDef) and node.decorator_list
        if decorated:
            return self.opaque(self.freeze(fn), args, kwargs, st)
        new = self.bind_env(node, args, kwargs, cfr.module, st, fr, base=env)
        if new is None:
            return self.opaque(self.freeze(fn), args, kwargs, st)
        self.clo_stack.append(fn)
        try:
            f2 = Frame(cfr.module, cfr.func, cfr.cls, (*fr.stack, "<closure>"), node)
            if isinstance(node, ast.Lambda):
                out = []
                for s, t in self.ev(node.body, St(new, st.pc, st.ev), f2):
                    out.append((St(st.env, s.pc, s.ev, s.out), t))
                return self.merge_results(out)
            from .model import has_yield
            free = [x for x in mutated(node)[1] if x in st.env and self.is_local(st.env[x])] if \
                cfr is fr else ()
            outs = [(p, tag) for p, tag in self.tagged(node, args, kwargs) if self.is_local(new[p])]
            return self.run_body(node.body, new, st, f2, generator=has_yield(node), free=free,
                                 outs=outs)
        finally:
            self.clo_stack.pop()

    def freeze(self, t):
        """Replace closures inside a term by what they compute."""
        if not isinstance(t, tuple) or not t:
            return t
        if t[0] == "c":
            return t
        if t[0] == "clo":
            return self.lam(t)
        if t[0] in ("itemgetter", "attrgetter"):
            v = fresh()
            r = self.call(t, [v], {}, St({}), Frame("builtins", None, None, ()))
            return ("lam", (v,), tuple((s.pc, x) for s, x in r))
        if t[0] == "g" and t[1] in self.p.funcs and not self.known(t[1]):
            # a new function passed around is what it computes
            f = self.p.funcs[t[1]]
            if f.cls is None and not f.node.decorator_list:
                c = self.fn_clos.get(t[1])
                if c is None:
                    c = self.fn_clos[t[1]] = self.closure(f.node, St({}), Frame(f.module, f))
                return self.lam(c)
        if t[0] == "a" and t[2] in self.new_methods:
            r = self.method_lam(t)
            if r is not None:
                return r
        if t[0] == "partial":
            r = self.partial_lam(t)
            if r is not None:
                return r
            fn = self.freeze(t[1])
            return ("partial", fn, self.freeze(t[2]), tuple((k, self.freeze(v)) for k, v in t[3]))
        if any(isinstance(x, tuple) and x for x in t):
            return tuple(self.freeze(x) if isinstance(x, tuple) else x for x in t)
        return t

    @functools.cached_property
    def new_methods(self):
        return {f.name for f in self.p.funcs.values() if f.cls is not None and not self.known(f.qual)}

    def method_lam(self, t):
        """A new method passed around, as what it computes."""
        ty = self.t.type_of(t[1])
        if ty and ty[0] == "type":
            ty = ty[1]
        f = self.p.find_method(ty[1], t[2]) if ty and ty[0] == "cls" else None
        if f is None or self.known(f.qual) or f.qual in self.lam_stack or any(
                d not in ("staticmethod", "classmethod") for d in f.decorators):
            return None
        a = f.node.args
        if a.vararg or a.kwarg or a.kwonlyargs or a.defaults:
            return None
        ps, vs = [*a.posonlyargs, *a.args][0 if f.is_static else 1:], []
        for p in ps:
            vs.append(fresh())
            if p.annotation is not None:
                self.t.vtypes[vs[-1]] = self.t.types.ann(f.module, p.annotation, f.cls)
        self.lam_stack.add(f.qual)
        try:
            res = self.call(t, list(vs), {}, St({}), Frame(f.module))
        finally:
            self.lam_stack.discard(f.qual)
        if any(s.ev or s.out is not None for s, _ in res):
            return None
        return ("lam", tuple(vs), tuple((s.pc, self.freeze(x)) for s, x in res))

    def partial_lam(self, t):
        """`partial(f, ...)` as a function of the remaining required parameters of `f`."""
        fn, q, skip = t[1], None, 0
        if fn[0] == "g":
            q = fn[1]
        elif fn[0] == "p":
            ty = self.t.type_of(fn)
            if ty and ty[0] == "type" and ty[1] and ty[1][0] == "cls":
                q = ty[1][1]
        f = self.p.funcs.get(q)
        if q in self.p.classes:
            f, skip = self.p.find_method(q, "__init__"), 1
        if f is None or f.cls is not None and not skip:
            return None
        a = f.node.args
        if a.vararg or a.kwarg or a.posonlyargs:
            return None
        ps = [x.arg for x in a.args][skip:]
        required = ps[:len(ps) - len(a.defaults)] if a.defaults else ps
        required = [*required[len(t[2]):], *(
            x.arg for x, d in zip(a.kwonlyargs, a.kw_defaults) if d is None)]
        given = dict(t[3])
        required = [x for x in required if x not in given]
        if "**" in given or any(x[0] == "star" for x in t[2]):
            return None
        vs = {x: fresh() for x in required}
        res = self.call(t, [], vs, St({}), Frame(f.module))
        if any(s.ev or s.out is not None for s, _ in res):
            return None
        return ("lam", tuple(vs.values()), tuple((s.pc, self.freeze(x)) for s, x in res))

    def lam(self, c):
        if c in self.lams:
            return self.lams[c]
        node, env, cfr = self.clos[c]
        self.lams[c] = unk("recursive closure")
        a = node.args
        ps = [*a.posonlyargs, *a.args, *a.kwonlyargs]
        vs = []
        new = dict(env)
        for p in [*ps, *(x for x in (a.vararg, a.kwarg) if x)]:
            v = fresh()
            if getattr(p, "annotation", None) is not None and p not in (a.vararg, a.kwarg):
                self.t.vtypes[v] = self.t.types.ann(cfr.module, p.annotation,
                                                    self.p.classes.get(cfr.cls))
            new[p.arg] = v
            vs.append(v)
        from .model import has_yield
        f2 = Frame(cfr.module, cfr.func, cfr.cls, (*cfr.stack, "<closure>"), node)
        alts = []
        if isinstance(node, ast.Lambda):
            res = self.ev(node.body, St(new), f2)
        else:
            res = self.run_body(node.body, new, St({}), f2, generator=has_yield(node))
        for s, t in res:
            e = ("raise", s.out[1]) if s.out is not None else self.freeze(t)
            evs = tuple((k, self.freeze(x), self.freeze(lp), g) for k, x, lp, g in s.ev)
            alts.append((s.pc, ("seqd", e, *swap_independent(evs)) if evs else e))
        # f(x) for the only parameter x is f itself
        if len(alts) == 1 and alts[0][0] == T and alts[0][1][0] == "call" and len(vs) >= 1:
            cl = alts[0][1]
            if cl[2] == tuple(vs) and not cl[3] and not any(v in set(walk(cl[1])) for v in vs):
                self.lams[c] = cl[1]
                return cl[1]
        if isinstance(node, ast.FunctionDef) and node.decorator_list:
            f3 = ("lam", tuple(vs), tuple(alts))
            for d in reversed(node.decorator_list):
                f3 = ("deco", self.freeze(self.ev(d, St(dict(env)), cfr)[0][1]), f3)
            self.lams[c] = f3
            return f3
        self.lams[c] = ("lam", tuple(vs), tuple(alts))
        return self.lams[c]

    # -- opaque calls --------------------------------------------------------------------------------

    def opaque(self, fn, args, kwargs, st, func=None):
        args = tuple(self.freeze(a) for a in args)
        kw = tuple(sorted((k, self.freeze(v)) for k, v in kwargs.items()))
        return self.emit_call(fn, args, kw, st)

    def emit_call(self, fn, args, kw, st):
        args = tuple(self.freeze(a) for a in args)
        kw = tuple((k, self.freeze(v)) for k, v in kw)
        if kw and not any(a[0] == "star" for a in args):
            if fn[0] == "g":
                args, kw = libsig.positional(fn[1], args, kw)
            elif fn[0] == "a" and fn[1][0] == "call" and fn[1][1][0] == "g":
                args, kw = libsig.positional(f"{fn[1][1][1]}.{fn[2]}", args, kw, skip=1)
        if fn == glob("builtins.int") and len(args) == 2 and args[1] == const(10):
            args = args[:1]
        t = ("call", fn if fn[0] == "g" else self.freeze(fn), args, kw)
        name = fn[2] if fn[0] in ("a", "super") else fn[1].rsplit(".", 1)[-1] if fn[0] == "g" else ""
        if name in EFFECTS or (fn[0] == "g" and fn[1] in ("os.replace", "shutil.move")):
            st = st.emit(("call", t, (), T))
        return [(st, t)]

    def construct(self, fn, q, args, kwargs, st, fr):
        if q in MAPLIKE or self.is_maplike(q):
            return [(st, self.mapping(fn if q not in MAPLIKE else glob(q), args, kwargs))]
        init = self.p.find_method(q, "__init__") if q in self.p.classes else None
        if init is not None:
            b = self.bind_names(init, args, kwargs, skip=1)
            if b is not None:
                return self.emit_call(fn, (), b, st)
        return self.opaque(fn, args, kwargs, st)

    def is_maplike(self, q):
        return q in self.p.classes and "arti.internal.mappings.frozendict" in self.p.mro(q)

    def mapping(self, fn, args, kwargs):
        parts = []
        for a in args:
            if a[0] == "comp" and a[1] == "seq" and all(
                    e[0] == "tuple" and len(e) == 3 for _, e in a[3]):
                a = self.simplify_comp(("comp", "map", a[2],
                                        tuple((g, ("kv", e[1], e[2])) for g, e in a[3])))
            elif a[0] == "tuple" and all(e[0] == "tuple" and len(e) == 3 for e in a[1:]):
                a = ("dict", *(("kv", e[1], e[2]) for e in a[1:]))
            elif a[0] == "call" and a[1][0] == "a" and a[1][2] == "items" and not a[2]:
                a = a[1][1]
            elif a[0] == "call" and a[1] == glob("builtins.zip") and len(a[2]) == 2:
                src = self.sources(a, False)
                if all(e[0] == "tuple" and len(e) == 3 for _, _, e in src):
                    a = self.build_comp("map", [(lp, g, ("kv", e[1], e[2])) for lp, g, e in src])
            parts.append(a)
        sk = kwargs.pop("**", None) if isinstance(kwargs, dict) else None
        for k, v in kwargs.items():
            parts.append(("dict", ("kv", const(k), v)))
        if sk is not None:
            parts.append(sk)
        parts = [self.freeze(p) for p in parts]
        if args and len(parts) > 1 and parts[0][0] == "p":
            parts[0] = ("co", "map", parts[0])
        t = self.merge(("dict",), *parts)
        if fn == glob("builtins.dict"):
            return t if t[0] in ("dict", "comp", "merge") else ("co", "map", t)
        if fn == glob("arti.internal.mappings.frozendict"):
            return ("frozen", t) if t[0] in ("dict", "comp", "merge") else ("frozen", ("co", "map", t))
        return ("call", fn, (t,) if t != ("dict",) else (), ())

    # -- globals -------------------------------------------------------------------------------------

    def call_global(self, q, args, kwargs, st, fr):
        if q in self.p.classes:
            return self.construct(glob(q), q, args, kwargs, st, fr)
        if q in self.p.funcs:
            f = self.p.funcs[q]
            if q in TRANSPARENT and args:
                return [(st, args[TRANSPARENT[q]])]
            if f.cls is not None:
                # Class.method(...)
                if self.should_inline(f, fr):
                    a = [glob(f.cls.qual), *args] if f.is_classmethod else list(args)
                    return self.call_func(f, a, kwargs, st, fr, self_cls=f.cls.qual)
            elif self.should_inline(f, fr):
                return self.call_func(f, list(args), kwargs, st, fr)
            b = self.bind_names(f, args, kwargs, 0)
            if b is not None:
                if q == "arti.internal.type_hints.lenient_issubclass":
                    # of the class of a value: what isinstance tells
                    x, c = map(dict(b).get, ("klass", "class_or_tuple"))
                    if x and c and x[0] == "call" and x[1] == glob("builtins.type") and \
                            len(x[2]) == 1 and c[0] == "g" and (
                            c[1].startswith("builtins.") or c[1] in self.p.classes):
                        return [(st, mk_bool(self.inst("inst", x[2][0], c)))]
                return self.emit_call(glob(q), (), b, st)
            return self.opaque(glob(q), args, kwargs, st)
        v = self.p.var(q)
        if v is not None:
            m, node = v
            # subscripted aliases: InputPartitions = frozendict[...]
            if isinstance(node, ast.Subscript):
                base = self.p.resolve_expr(m, node.value)
                if base is not None:
                    return self.call_global(base, args, kwargs, st, fr)
            if isinstance(node, (ast.Name, ast.Attribute)):
                base = self.p.resolve_expr(m, node)
                if base is not None and base != q:
                    return self.call_global(base, args, kwargs, st, fr)
            if isinstance(node, ast.Call):
                fq = self.p.resolve_expr(m, node.func)
                if fq == "functools.partial":
                    res = self.ev(node, St({}), Frame(m))
                    if len(res) == 1 and res[0][1][0] == "partial":
                        return self.call(res[0][1], args, kwargs, st, fr)
            return self.opaque(glob(q), args, kwargs, st)
        return self.lib_call(q, args, kwargs, st, fr)
