"""Statements."""
from __future__ import annotations

import ast

from .engine_base import (IGNORED_MODULES, Frame, St, TooComplex, attr, cat, contains, eq, isnone,
                          mk_bool, truth)
from .engine_expr import BINOPS
from .engine_iter import assigned_names, exists
from .terms import (F, FALSE, NONE, T, TRUE, const, f_and, f_not, f_or, fresh, glob, is_const, subst,
                    unk, walk)

EXC_PARENTS = {
    "KeyError": ("LookupError", "Exception", "BaseException"),
    "IndexError": ("LookupError", "Exception", "BaseException"),
    "ValueError": ("Exception", "BaseException"),
    "TypeError": ("Exception", "BaseException"),
    "AttributeError": ("Exception", "BaseException"),
    "NotImplementedError": ("RuntimeError", "Exception", "BaseException"),
    "RuntimeError": ("Exception", "BaseException"),
    "FileNotFoundError": ("OSError", "Exception", "BaseException"),
    "ImportError": ("Exception", "BaseException"),
    "ModuleNotFoundError": ("ImportError", "Exception", "BaseException"),
}
TRANSPARENT_CONTEXTS = {"arti.internal.wrap_exc", "contextlib.nullcontext"}


class StmtMixin:
    def block(self, body, st, fr):
        live, done = [st], []
        for s in body:
            nxt = []
            for x in live:
                for y in self.stmt(s, x, fr):
                    if y.pc == F:
                        continue
                    (nxt if y.out is None else done).append(y)
            live = self.join(nxt)
            done = self.join(done)
            if len(live) + len(done) > self.max_states:
                raise TooComplex("paths")
            if not live:
                break
        return [*live, *done]

    def join(self, states):
        if len(states) < 2:
            return states
        by = {}
        for s in states:
            if s.pc == F:
                continue
            key = (tuple(sorted(s.env.items(), key=lambda kv: kv[0])), s.ev, s.out)
            if key in by:
                by[key].pc = f_or(by[key].pc, s.pc)
            else:
                by[key] = s.copy()
        return list(by.values())

    def stmt(self, n, st, fr):
        self.steps += 1
        if self.steps > self.max_steps:
            raise TooComplex("steps")
        m = getattr(self, "st_" + type(n).__name__, None)
        if m is None:
            raise TooComplex(f"statement {type(n).__name__}")
        return m(n, st, fr)

    # -- binding ---------------------------------------------------------------------------------

    def assign(self, target, val, st, fr):
        """Bind `val` to the target: [states]."""
        if isinstance(target, ast.Name):
            if target.id in st.env.get("$global", ()):
                old = st.env.get(target.id)
                if old is not None and len(st.ev) > st.env["$at" + target.id][2]:
                    # what it held meanwhile was there to see
                    st = st.emit(("set", ("global", f"{fr.module.name}.{target.id}",
                                          self.freeze(old)), (), T))
                st = st.bind("$at" + target.id, const(len(st.ev))).bind("$was" + target.id, val)
            s = st.bind(target.id, val)
            # other names for this container are of no use any more
            for k in [k for k, v in s.env.items() if k[0] == "&" and (
                    k[1:] == target.id or v[0] == "alias" and v[1] == target.id)]:
                del s.env[k]
            return [s]
        if isinstance(target, (ast.Tuple, ast.List)):
            states = [st]
            starred = next((i for i, e in enumerate(target.elts) if isinstance(e, ast.Starred)), None)
            while val[0] == "co" and val[1] in ("seq", "list", "tuple"):
                val = val[2]
            for i, e in enumerate(target.elts):
                if starred is None or i < starred:
                    v = self.index(val, const(i))
                elif i == starred:
                    after = len(target.elts) - i - 1
                    ty = self.t.types.strip_opt(self.t.type_of(val))
                    if ty and ty[0] == "tup":
                        v = ("tuple", *(self.index(val, const(j)) for j in range(i, len(ty[1]) - after)))
                    else:
                        v = self.index(val, ("slice", const(i) if i else NONE,
                                             const(-after) if after else NONE, NONE))
                        if v[0] == "i":
                            v = ("co", "seq", v)
                    e = e.value
                else:
                    v = self.index(val, const(i - len(target.elts)))
                states = [s2 for s in states for s2 in self.assign(e, v, s, fr)]
            return states
        if isinstance(target, ast.Attribute):
            out = []
            for s, b in self.ev(target.value, st, fr):
                if s.out is None:
                    s = s.emit(("set", ("setattr", self.freeze(b), const(target.attr),
                                        self.freeze(val)), (), T))
                out.append(s)
            return out
        if isinstance(target, ast.Subscript):
            path, b = [target.slice], target.value
            while isinstance(b, ast.Subscript):
                path.append(b.slice)
                b = b.value
            path.reverse()
            al = self.alias_path(target.value, st)
            if al is not None and al[2]:
                # container.setdefault(key, {})[component] = value
                b, path = ast.Name(al[0], ast.Load()), [*al[1], target.slice]
            if isinstance(b, ast.Name) and b.id in st.env and self.is_local(st.env[b.id]):
                out = []
                for s, ks in self.evs(path, st, fr):
                    if s.out is not None:
                        out.append(s)
                        continue
                    if self.acc_kind(s.env[b.id]) != "map":
                        out.append(s.bind(b.id, unk("item assignment")))
                        continue
                    v = val
                    for k in reversed(ks[1:]):
                        v = ("app", ("dict", ("kv", k, v)))
                    out.append(s.bind(b.id, self.merge(s.env[b.id], ("dict", ("kv", ks[0], v)))))
                return out
            out = []
            for s, ts in self.evs([target.value, target.slice], st, fr):
                if s.out is None:
                    s = s.emit(("set", ("setitem", self.freeze(ts[0]), self.freeze(ts[1]),
                                        self.freeze(val)), (), T))
                out.append(s)
            return out
        if isinstance(target, ast.Starred):
            return self.assign(target.value, val, st, fr)
        raise TooComplex("assignment target")

    def alias_path(self, n, st):
        """(name, [key expressions], defaulted) of an expression that denotes a part of a local container."""
        path, defaulted, b = [], False, n
        while True:
            if isinstance(b, ast.Subscript) and not isinstance(b.slice, ast.Slice):
                path.append(b.slice)
                b = b.value
            elif (isinstance(b, ast.Call) and isinstance(b.func, ast.Attribute)
                  and b.func.attr == "setdefault" and len(b.args) == 2 and not b.keywords and (
                      isinstance(b.args[1], (ast.List, ast.Tuple)) and not b.args[1].elts
                      or isinstance(b.args[1], ast.Dict) and not b.args[1].keys
                      or isinstance(b.args[1], ast.Call) and isinstance(b.args[1].func, ast.Name)
                      and b.args[1].func.id in ("list", "dict", "set") and not b.args[1].args)):
                path.append(b.args[0])
                defaulted = True
                b = b.func.value
            else:
                break
        if not isinstance(b, ast.Name) or b.id not in st.env or not self.is_local(st.env[b.id]):
            return None
        if not path and st.env[b.id][0] == "tuple":
            return None
        return b.id, path[::-1], defaulted

    def assign_alias(self, n, st, fr):
        """`part = container[key]`: mutating the part mutates the container."""
        a = self.alias_path(n.value, st)
        if a is None or len(n.targets) != 1 or not isinstance(n.targets[0], ast.Name):
            return None
        root, path, defaulted = a
        out = []
        for s, ks in self.evs(path, st, fr):
            if s.out is not None:
                out.append(s)
                continue
            v = s.env[root]
            over = s.env.get("&" + root)
            for k in ks:
                w = self.index(v, k)
                v = w[0] == "i" and self.entry(s, v, k) or w
            for s2 in self.assign(n.targets[0], v, s, fr):
                keys = tuple(ks)
                r = root
                if over is not None and over[0] == "alias":
                    r, keys = over[1], over[2] + keys
                if r != n.targets[0].id:
                    s2.env["&" + n.targets[0].id] = ("alias", r, keys)
                out.append(s2)
        return out

    def st_Assign(self, n, st, fr):
        out = self.assign_alias(n, st, fr)
        if out is not None:
            return out
        out = []
        for s, v in self.ev(n.value, st, fr):
            if s.out is not None:
                out.append(s)
                continue
            states = [s]
            for t in n.targets:
                states = [s2 for s1 in states for s2 in self.assign(t, v, s1, fr)]
            out.extend(states)
        return out

    def st_AnnAssign(self, n, st, fr):
        if n.value is None:
            return [st]
        return self.st_Assign(ast.Assign(targets=[n.target], value=n.value), st, fr)

    def st_AugAssign(self, n, st, fr):
        op = BINOPS[type(n.op)]
        if isinstance(n.target, ast.Name):
            load = ast.Name(n.target.id, ast.Load())
        elif isinstance(n.target, ast.Attribute):
            load = ast.Attribute(n.target.value, n.target.attr, ast.Load())
        else:
            load = ast.Subscript(n.target.value, n.target.slice, ast.Load())
        out = []
        for s, ts in self.evs([load, n.value], st, fr):
            if s.out is not None:
                out.append(s)
                continue
            cur, v = ts
            if op == "|" and not isinstance(n.target, ast.Name) and not self.is_local(cur) and \
                    self.is_mutable_set(cur):
                # in place: the same as .update()
                out.extend(x for x, _ in self.call_method(cur, "update", [v], {}, s, fr))
                continue
            kind = self.acc_kind(cur)
            if op == "+" and kind == "seq":
                r = cat(cur, v) if cur[0] != "acc" else ("cat", cur, v)
            elif op == "|" and kind == "set":
                r = self.union(cur, v) if cur[0] != "acc" else ("uni", cur, v)
            elif op == "|" and kind == "map":
                r = self.merge(cur, v)
            else:
                r = self.binop(op, cur, v)
            out.extend(self.assign(n.target, r, s, fr))
        return out

    def st_Delete(self, n, st, fr):
        states = [st]
        for t in n.targets:
            nxt = []
            for s in states:
                if isinstance(t, ast.Name):
                    s = s.copy()
                    s.env.pop(t.id, None)
                    nxt.append(s)
                elif isinstance(t, ast.Subscript):
                    for s2, ts in self.evs([t.value, t.slice], s, fr):
                        if s2.out is None:
                            s2 = s2.emit(("del", ("delitem", *map(self.freeze, ts)), (), T))
                        nxt.append(s2)
                else:
                    for s2, b in self.ev(t.value, s, fr):
                        if s2.out is None:
                            s2 = s2.emit(("del", ("delattr", self.freeze(b), const(t.attr)), (), T))
                        nxt.append(s2)
            states = nxt
        return states

    # -- simple ----------------------------------------------------------------------------------

    def st_Pass(self, n, st, fr):
        return [st]

    def st_Expr(self, n, st, fr):
        if isinstance(n.value, ast.Constant):
            return [st]
        if isinstance(n.value, ast.Call) and isinstance(n.value.func, (ast.Attribute, ast.Name)):
            # logging and warnings
            f = n.value.func
            root = f
            while isinstance(root, ast.Attribute):
                root = root.value
            if isinstance(root, ast.Name) and root.id not in st.env:
                q = self.p.resolve_expr(fr.module, f) or ""
                if q.startswith(IGNORED_MODULES) or q == "builtins.print":
                    return [st]
                v = self.p.var(q.rpartition(".")[0])
                if v is not None and isinstance(v[1], ast.Call):
                    q2 = self.p.resolve_expr(v[0], v[1].func) or ""
                    if q2.startswith("logging."):
                        return [st]
        r = self.discard(n.value, st, fr)
        if r is not None:
            return r
        out = []
        for s, t in self.ev(n.value, st, fr):
            if s.out is None and isinstance(n.value, ast.Call) and t[0] == "call":
                new = s.ev[len(st.ev):]
                ft = self.freeze(t)
                if not any(e[1] == ft for e in new):
                    s = s.emit(("do", ft, (), T))
            out.append(s)
        return out

    def discard(self, c, st, fr):
        """`d.pop(k)` as a statement: `del d[k]`; with a default only `if k in d`."""
        if not (isinstance(c, ast.Call) and isinstance(c.func, ast.Attribute) and
                c.func.attr == "pop" and len(c.args) in (1, 2) and not c.keywords) or any(
                    isinstance(a, ast.Starred) for a in c.args):
            return None
        if isinstance(c.func.value, ast.Name) and self.is_local(
                st.env.get(c.func.value.id, NONE)):
            return None
        out = []
        for s, ts in self.evs([c.func.value, *c.args], st, fr):
            if s.out is None:
                s = s.emit(("del", ("delitem", self.freeze(ts[0]), self.freeze(ts[1])), (),
                            self.freeze(contains(ts[1], ts[0])) if len(c.args) == 2 else T))
            out.append(s)
        return out

    def st_Return(self, n, st, fr):
        if n.value is None:
            return [st.leave(("ret", NONE))]
        return [s if s.out is not None else s.leave(("ret", t)) for s, t in self.ev(n.value, st, fr)]

    def st_Raise(self, n, st, fr):
        if n.exc is None:
            cur = st.env.get("$exc")
            return [st.leave(("raise", cur[1] if cur and cur[0] == "exc" else unk("re-raise")))]
        e = n.exc
        if isinstance(e, ast.Call):
            res = self.callee(e.func, st, fr)
            out = []
            for s, f in res:
                if s.out is not None:
                    out.append(s)
                elif f[0] == "g" and (f[1] in self.p.classes or f[1].startswith("builtins.")):
                    out.append(s.leave(("raise", f)))
                else:
                    for s2, t in self.ev(e, s, fr):
                        if s2.out is None:
                            s2 = s2.leave(("raise", self.exc_class(t)))
                        out.append(s2)
            return out
        return [s if s.out is not None else s.leave(("raise", self.exc_class(t)))
                for s, t in self.ev(e, st, fr)]

    def exc_class(self, t):
        if t[0] == "call" and t[1][0] == "g":
            return t[1]
        if t[0] == "exc":
            return t[1]
        return t

    def st_Assert(self, n, st, fr):
        if any(isinstance(x, ast.NamedExpr) for x in ast.walk(n.test)):
            return [s for s, _ in self.cond(n.test, st, fr)]
        return [st]

    def st_Import(self, n, st, fr):
        s = st.copy()
        for a in n.names:
            s.env[a.asname or a.name.split(".")[0]] = glob(a.name if a.asname else
                                                          a.name.split(".")[0])
        return [s]

    def st_ImportFrom(self, n, st, fr):
        s = st.copy()
        mod = n.module or ""
        if n.level:
            m = fr.module
            parts = m.name.split(".")
            if not m.is_pkg:
                parts = parts[:-1]
            parts = parts[:len(parts) - (n.level - 1)]
            mod = ".".join([*parts, mod] if mod else parts)
        for a in n.names:
            s.env[a.asname or a.name] = self.glob(self.p.canonical(f"{mod}.{a.name}"))
        return [s]

    def st_Global(self, n, st, fr):
        s = st.copy()
        s.env["$global"] = (*s.env.get("$global", ()), *n.names)
        return [s]

    def st_Nonlocal(self, n, st, fr):
        s = st.copy()
        s.env["$nonlocal"] = (*s.env.get("$nonlocal", ()), *n.names)
        return [s]

    def st_Break(self, n, st, fr):
        return [st.leave(("break",))]

    def st_Continue(self, n, st, fr):
        return [st.leave(("continue",))]

    def st_FunctionDef(self, n, st, fr):
        return [st.bind(n.name, self.closure(n, st, fr))]

    def st_ClassDef(self, n, st, fr):
        return [st.bind(n.name, unk("local class"))]

    def st_TypeAlias(self, n, st, fr):
        return [st]

    # -- control flow ----------------------------------------------------------------------------

    def st_If(self, n, st, fr):
        out = []
        for s, f in self.cond(n.test, st, fr):
            if s.out is not None:
                out.append(s)
                continue
            a, b = s.assume(f), s.assume(f_not(f))
            if a.pc != F:
                out.extend(self.block(n.body, a, fr))
            if b.pc != F:
                out.extend(self.block(n.orelse, b, fr) if n.orelse else [b])
        return self.join(out)

    def st_For(self, n, st, fr):
        # `for x in iter(read, sentinel)`
        it = n.iter
        if isinstance(it, ast.Call) and isinstance(it.func, ast.Name) and it.func.id == "iter" and \
                len(it.args) == 2:
            out = []
            for s, ts in self.evs(it.args, st, fr):
                if s.out is not None:
                    out.append(s)
                    continue
                for s2, c in self.call(ts[0], [], {}, s, fr):
                    out.extend(self.read_loop(c, n.body, lambda x, v: self.assign(n.target, v, x, fr),
                                              s2, fr))
            return out
        return self.exec_for(n, st, fr)

    def read_loop(self, call, body, bind, st, fr):
        """A loop over the results of repeating `call` until it returns something falsy."""
        src = ("reads", self.freeze(call))
        v = self.loop_var(src)
        self.t.vtypes[v] = self.t.type_of(call)
        out = []
        for s in self.symbolic_loop(body, ((v, src),), T, st, fr, lambda x: bind(x, v)):
            if s.out == ("break",):
                s = s.copy()
                s.out = None
            out.append(s)
        return out

    def st_While(self, n, st, fr):
        t = n.test
        body = n.body
        if n.orelse:
            raise TooComplex("while/else")
        name, callnode = None, None
        if isinstance(t, ast.NamedExpr) and isinstance(t.value, ast.Call):
            name, callnode = t.target.id, t.value
        elif isinstance(t, ast.Compare) and len(t.ops) == 1 and isinstance(t.left, ast.NamedExpr) \
                and isinstance(t.left.value, ast.Call) and isinstance(
                    t.ops[0], (ast.NotEq, ast.IsNot)) and isinstance(
                    t.comparators[0], ast.Constant) and not t.comparators[0].value:
            name, callnode = t.left.target.id, t.left.value
        elif isinstance(t, ast.Constant) and t.value and len(body) >= 2 and isinstance(
                body[0], ast.Assign) and isinstance(body[0].value, ast.Call) and isinstance(
                body[0].targets[0], ast.Name) and isinstance(body[1], ast.If) and len(
                body[1].body) == 1 and isinstance(body[1].body[0], ast.Break) and \
                not body[1].orelse:
            name = body[0].targets[0].id
            c = body[1].test
            if isinstance(c, ast.UnaryOp) and isinstance(c.op, ast.Not) and isinstance(
                    c.operand, ast.Name) and c.operand.id == name or (
                    isinstance(c, ast.Compare) and isinstance(c.left, ast.Name) and
                    c.left.id == name and isinstance(c.ops[0], (ast.Eq, ast.Is)) and isinstance(
                        c.comparators[0], ast.Constant) and not c.comparators[0].value):
                callnode, body = body[0].value, body[2:]
        elif isinstance(t, ast.Name):
            # x = read(); while x: ...; x = read()
            last = body[-1]
            if isinstance(last, ast.Assign) and isinstance(last.targets[0], ast.Name) and \
                    last.targets[0].id == t.id and isinstance(last.value, ast.Call):
                res = self.ev(last.value, st, fr)
                if len(res) == 1 and st.env.get(t.id) == res[0][1]:
                    name, callnode, body = t.id, last.value, body[:-1]
        if callnode is None:
            raise TooComplex("while")
        if any(isinstance(x, ast.Name) and x.id in assigned_names(body)
               for x in ast.walk(callnode)):
            raise TooComplex("while")
        out = []
        for s, c in self.ev(callnode, st, fr):
            if s.out is not None:
                out.append(s)
                continue
            out.extend(self.read_loop(c, body, lambda x, v: [x.bind(name, v)], s, fr))
        return out

    def exc_names(self, node, st, fr):
        if node is None:
            return ("builtins.BaseException",)
        elts = node.elts if isinstance(node, ast.Tuple) else [node]
        out = []
        for e in elts:
            for s, t in self.ev(e, st, fr):
                if t[0] == "g":
                    out.append(t[1])
                elif t[0] == "tuple":
                    out.extend(x[1] for x in t[1:] if x[0] == "g")
                else:
                    out.append("?")
        return tuple(out)

    def catches(self, names, exc):
        if exc[0] != "g":
            return None
        q = exc[1]
        mro = {q, *(f"builtins.{x}" for x in EXC_PARENTS.get(q.rsplit(".", 1)[-1], ()))}
        if q in self.p.classes:
            for b in self.p.mro(q):
                mro.add(b)
                mro.update(f"builtins.{x}" for x in EXC_PARENTS.get(b.rsplit(".", 1)[-1], ()))
        mro.update(("builtins.Exception", "builtins.BaseException"))
        return any(n in mro for n in names)

    def st_Try(self, n, st, fr):
        start = st
        res = self.block(n.body, st.copy(), fr)
        # what the body evaluates, as the thing that may raise
        seen = []
        for s in res:
            vals = [v for k, v in s.env.items() if start.env.get(k) != v and isinstance(v, tuple)]
            vals += [e[1] for e in s.ev[len(start.ev):]]
            if s.out is not None and s.out[0] == "ret":
                vals.append(s.out[1])
            for v in vals:
                v = self.freeze(v)
                for x in walk(v):
                    if x[0] == "delitem":
                        x = ("i", x[1], x[2])
                    if x[0] in ("call", "i") and x not in seen:
                        seen.append(x)
        handlers = [(self.exc_names(h.type, st, fr), h) for h in n.handlers]
        out = []
        quiet = T
        for names, h in handlers:
            what = seen
            if set(names) <= {"builtins.KeyError", "builtins.IndexError", "builtins.LookupError"}:
                sub = [x for x in seen if x[0] == "i" or (x[1][0] == "a" and x[1][2] == "pop")]
                what = sub or seen
            elif any(x.endswith(("ImportError", "ModuleNotFoundError")) for x in names):
                sub = [x for x in seen if x[0] == "call" and "import" in repr(x[1])]
                what = sub or seen
            top = [x for x in what if not any(x != y and any(z == x for z in walk(y)) for y in what)]
            if not top:
                continue
            fails = ("raises", ("tuple", *(const(x) for x in sorted(names))),
                     ("set", *sorted(top, key=repr)))
            if len(top) == 1 and top[0][0] == "i" and set(names) & {
                    "builtins.KeyError", "builtins.LookupError"}:
                ty = self.t.types.strip_opt(self.t.type_of(top[0][1]))
                if not ty and set(names) == {"builtins.KeyError"} or ty and (
                        ty[0] == "map" or ty[0] == "cls" and self.t.types._map_base(ty[1])):
                    # a missing key of a mapping (of an unknown type: what raises that is one)
                    fails = f_not(contains(top[0][2], top[0][1]))
            f = f_and(quiet, fails)
            quiet = f_and(quiet, f_not(fails))
            s = start.assume(f)
            exc = ("exc", ("caught", *(const(x) for x in names)))
            s.env["$exc"] = exc
            if h.name:
                s.env[h.name] = exc
            out.extend(self.block(h.body, s, fr))
        for s in res:
            s = s.assume(quiet)
            if s.out is not None and s.out[0] == "raise":
                handled = False
                for names, h in handlers:
                    c = self.catches(names, s.out[1])
                    if c:
                        s2 = s.copy()
                        exc = ("exc", s.out[1])
                        s2.out = None
                        s2.env["$exc"] = exc
                        if h.name:
                            s2.env[h.name] = exc
                        out.extend(self.block(h.body, s2, fr))
                        handled = True
                        break
                if handled:
                    continue
            elif s.out is None and n.orelse:
                out.extend(self.block(n.orelse, s, fr))
                continue
            out.append(s)
        if n.finalbody:
            fin = []
            for s in out:
                o = s.out
                s2 = s.copy()
                s2.out = None
                for s3 in self.block(n.finalbody, s2, fr):
                    if s3.out is None:
                        s3 = s3.copy()
                        s3.out = o
                    fin.append(s3)
            out = fin
        return self.join(out)

    def st_With(self, n, st, fr):
        return self.with_items(list(n.items), n.body, st, fr)

    def with_items(self, items, body, st, fr):
        if not items:
            return self.block(body, st, fr)
        it, rest = items[0], items[1:]
        out = []
        for s, c in self.ev(it.context_expr, st, fr):
            if s.out is not None:
                out.append(s)
                continue
            if c[0] == "call" and c[1][0] == "g" and c[1][1] in TRANSPARENT_CONTEXTS:
                out.extend(self.with_items(rest, body, s, fr))
                continue
            if c[0] == "call" and c[1] == glob("contextlib.suppress"):
                tr = ast.Try(body=[ast.With(items=rest, body=body)] if rest else body,
                             handlers=[ast.ExceptHandler(type=ast.Tuple(elts=list(
                                 it.context_expr.args), ctx=ast.Load()), name=None,
                                 body=[ast.Pass()])], orelse=[], finalbody=[])
                out.extend(self.st_Try(tr, s, fr))
                continue
            c = self.freeze(c)
            s = s.emit(("with", c, (), T))
            n0 = len(s.ev)
            states = [s]
            if it.optional_vars is not None:
                states = self.assign(it.optional_vars, ("enter", c), s, fr)
            for s1 in states:
                for s2 in self.with_items(rest, body, s1, fr):
                    if self.lockish(c):
                        s2 = s2.copy()
                        s2.ev = (*s2.ev[:n0], *((k, ("under", c, t), lp, g)
                                                for k, t, lp, g in s2.ev[n0:]))
                    out.append(s2)
        return self.join(out)

    def lockish(self, c):
        return "lock" in repr(c).lower()

    def st_Match(self, n, st, fr):
        out = []
        for s, t in self.ev(n.subject, st, fr):
            if s.out is not None:
                out.append(s)
                continue
            cur = s
            for case in n.cases:
                f, binds = self.pattern(case.pattern, t, cur, fr)
                a = cur.assume(f)
                for k, v in binds.items():
                    a.env[k] = v
                miss = cur.assume(f_not(f))
                if case.guard is not None:
                    for s2, g in self.cond(case.guard, a, fr):
                        if s2.out is not None:
                            out.append(s2)
                            continue
                        hit = s2.assume(g)
                        if hit.pc != F:
                            out.extend(self.block(case.body, hit, fr))
                        miss = cur.assume(f_not(f_and(f, g)))
                elif a.pc != F:
                    out.extend(self.block(case.body, a, fr))
                cur = miss
                if cur.pc == F:
                    break
            if cur.pc != F:
                out.append(cur)
        return self.join(out)

    def pattern(self, p, t, st, fr):
        if isinstance(p, ast.MatchValue):
            v = self.ev(p.value, st, fr)[0][1]
            return eq(t, v), {}
        if isinstance(p, ast.MatchSingleton):
            return eq(t, const(p.value)), {}
        if isinstance(p, ast.MatchOr):
            fs = [self.pattern(x, t, st, fr) for x in p.patterns]
            return f_or(*(f for f, _ in fs)), {}
        if isinstance(p, ast.MatchAs):
            if p.pattern is None:
                return T, ({p.name: t} if p.name else {})
            f, b = self.pattern(p.pattern, t, st, fr)
            return f, {**b, **({p.name: t} if p.name else {})}
        if isinstance(p, ast.MatchClass) and not p.patterns and not p.kwd_patterns:
            c = self.ev(p.cls, st, fr)[0][1]
            return self.inst("inst", t, c), {}
        if isinstance(p, ast.MatchSequence) and not any(isinstance(x, ast.MatchStar) for x in p.patterns):
            if t[0] in ("tuple", "list") and not any(e[0] == "star" for e in t[1:]):
                if len(t) - 1 != len(p.patterns):
                    return F, {}
                fs = [self.pattern(x, e, st, fr) for x, e in zip(p.patterns, t[1:])]
                return f_and(*(f for f, _ in fs)), {k: v for _, b in fs for k, v in b.items()}
            if self.sorted_unique(t) is not None:
                vs = [self.ev(x.value, st, fr)[0][1] for x in p.patterns if isinstance(x, ast.MatchValue)]
                if len(vs) == len(p.patterns):
                    return self.compare(ast.Eq(), t, ("list", *vs)), {}
        raise TooComplex("pattern")
