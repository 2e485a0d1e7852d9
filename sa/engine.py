"""The evaluator: what a function returns, raises and does, as guarded terms of its parameters."""
from __future__ import annotations

import ast
import itertools

from .engine_base import Frame, St, TooComplex, Typing
from .engine_call import CallMixin, wraps
from .engine_expr import ExprMixin
from .engine_iter import IterMixin
from .engine_lib import LibMixin
from .engine_stmt import StmtMixin
from .terms import F, NONE, T, TRUE, FALSE, f_and, f_not, f_or, glob


class Summary:
    def __init__(self, func, paths, generator):
        self.func, self.paths, self.generator = func, paths, generator


def guard_prefix(node, fn):
    """Statements of a wrapper before it returns fn(...), if that is all it does."""
    body = list(node.body)
    calls = [n for n in ast.walk(node) if isinstance(n, ast.Call) and
             isinstance(n.func, ast.Name) and n.func.id == fn]
    if len(calls) != 1 or not node.args.vararg or not node.args.kwarg:
        return None
    for i, s in enumerate(body):
        if any(n is calls[0] for n in ast.walk(s)):
            rest = body[i + 1:]
            if isinstance(s, ast.Return) and s.value is calls[0] and not rest:
                return body[:i]
            if isinstance(s, ast.Assign) and s.value is calls[0] and len(rest) == 1 and \
                    isinstance(rest[0], ast.Return) and \
                    ast.unparse(rest[0].value or ast.Constant(None)) == ast.unparse(s.targets[0]):
                return body[:i]
            return None
    return None


class Evaluator(StmtMixin, ExprMixin, CallMixin, LibMixin, IterMixin):
    max_states = 400
    max_steps = 40000

    def __init__(self, program, inventory=None, inventory_names=None, virtual=(),
                 opaque_private=(), always_inline=(), accessors=()):
        self.p = program
        self.inventory = inventory
        self.inventory_names = inventory_names or set()
        self.virtual = set(virtual)
        self.opaque_private = set(opaque_private)
        self.always_inline = set(always_inline)
        self.accessors = set(accessors)
        self.gcache = {}
        self.bound_names = {}
        self.mutating()
        self.reset()

    def reset(self):
        self.t = Typing(self.p)
        self.viter, self.vguard, self.acc_init, self.befores = {}, {}, {}, {}
        self.memos = {}
        self.hooks = set()
        self.cached = {}
        self.clos, self.lams, self.clo_stack, self.lam_stack = {}, {}, [], set()
        self.fn_clos = {}
        self.ids = itertools.count(1)
        self.steps = 0

    def asserted(self, f, cls):
        """Parameters whose class the function asserts before anything else."""
        body = f.node.body
        if body and isinstance(body[0], ast.Expr) and isinstance(body[0].value, ast.Constant):
            body = body[1:]
        for n in body:
            if not isinstance(n, ast.Assert):
                break
            c = n.test
            if not (isinstance(c, ast.Call) and isinstance(c.func, ast.Name) and len(c.args) == 2
                    and c.func.id == "isinstance" and isinstance(c.args[0], ast.Name)):
                continue
            q = self.p.resolve_expr(f.module, c.args[1])
            x = c.args[1]
            if q not in self.p.classes and cls is not None and isinstance(x, ast.Attribute) and \
                    isinstance(x.value, ast.Name) and x.value.id in ("cls", "self"):
                r = self.p.find_attr(cls.qual, x.attr)
                q = r and r[1] is not None and not self.p.overridden_below(cls.qual, x.attr) and \
                    self.p.resolve_expr(r[0].module, r[1])
            if q in self.p.classes and self.t.ptypes.get(("p", c.args[0].id)) is not None:
                self.t.ptypes[("p", c.args[0].id)] = ("cls", q)

    def params_env(self, f, self_cls=None):
        env = {}
        ps = f.params()
        owner = self_cls or (f.cls.qual if f.cls else None)
        cls = self.p.classes.get(owner) if owner else None
        for i, a in enumerate(ps):
            t = ("p", a.arg)
            if i == 0 and cls is not None and not f.is_static:
                t = ("p", "cls" if f.is_classmethod else "self")
                ty = ("cls", owner)
                self.t.ptypes[t] = ("type", ty) if f.is_classmethod or f.deco("classproperty") else ty
            else:
                self.t.ptypes[t] = self.t.types.ann(f.module, a.annotation, cls)
            env[a.arg] = t
        self.asserted(f, cls)
        if f.node.args.vararg:
            a = f.node.args.vararg
            t = ("p", "*" + a.arg)
            self.t.ptypes[t] = ("seq", self.t.types.ann(f.module, a.annotation, cls), "tuple")
            env[a.arg] = t
        if f.node.args.kwarg:
            a = f.node.args.kwarg
            t = ("p", "**" + a.arg)
            self.t.ptypes[t] = ("map", ("cls", "builtins.str"),
                                self.t.types.ann(f.module, a.annotation, cls))
            env[a.arg] = t
        return env

    def guard_decorators(self, f, st):
        """Run what the program's own decorators do before they call the function."""
        live, done = [st], []
        for d in f.node.decorator_list:
            q = self.p.resolve_expr(f.module, d) if isinstance(d, (ast.Name, ast.Attribute)) else None
            g = self.p.funcs.get(q) if q else None
            if g is None or len(g.params()) != 1 or g.cls is not None:
                continue
            inner = [n for n in g.node.body if isinstance(n, ast.FunctionDef)]
            fn = g.params()[0].arg
            pre = guard_prefix(inner[0], fn) if len(inner) == 1 else None
            if pre is None and len([x for x in f.node.decorator_list if self.p.resolve_expr(
                    f.module, x) in self.p.funcs]) == 1:
                r = self.wrapped_paths(f, g, live[0])
                if r is not None:
                    return [], r
            if pre is None:
                st2 = [s.emit(("call", ("unk", f"decorated by {q}"), (), T)) for s in live]
                live = st2
                continue
            nxt = []
            ps = [*inner[0].args.posonlyargs, *inner[0].args.args]
            own = f.params()
            for s in live:
                env = {fn: glob(f.qual)}
                env.update({a.arg: s.env[b.arg] for a, b in zip(ps, own)})
                for y in self.block(pre, St(env, s.pc, s.ev), Frame(
                        g.module, g, None, (f.qual, g.qual), inner[0])):
                    if y.out is not None:
                        done.append(y)
                    else:
                        nxt.append(St(dict(s.env), y.pc, y.ev))
            live = nxt
        return live, done

    def wrapped_paths(self, f, g, st):
        """Paths of f decorated by g: g's result, called with f's own parameters."""
        own = [*f.node.args.posonlyargs, *f.node.args.args]
        if f.node.args.vararg or f.node.args.kwarg or f.is_generator():
            return None
        w = ("wrapped", f.qual)
        self.wrapped = (w, f, st.env)
        got = self.call_func(g, [w], {}, St({}), Frame(g.module, None, None, ()))
        if len(got) != 1 or got[0][0].out is not None or got[0][0].ev:
            return None
        fn = got[0][1]
        if fn == w:
            return None
        if fn[0] == "deco" and wraps(fn[1]):
            fn = fn[2]
        if fn[0] != "clo":
            return None
        node, env, cfr = self.clos[fn]
        if any(not (isinstance(d, ast.Call) and ast.unparse(d.func).endswith("wraps"))
               for d in getattr(node, "decorator_list", ())):
            return None
        kw = {p.arg: st.env[p.arg] for p in f.node.args.kwonlyargs}
        args = [st.env[p.arg] for p in own]
        new = self.bind_env(node, args, kw, cfr.module, st, cfr, base=env)
        if new is None or isinstance(node, ast.Lambda):
            return None
        return self.block(node.body, St(new, st.pc, st.ev), Frame(
            cfr.module, cfr.func, cfr.cls, (f.qual, g.qual), node))

    def call_wrapped(self, fn, args, kwargs, st, fr):
        """The decorated function, called from its wrapper."""
        w, f, env = self.wrapped
        new = self.bind_env(f.node, args, kwargs, f.module, st, fr)
        if fn != w or new is None or any(new[k] != env[k] for k in new):
            return self.opaque(("unk", f"{f.qual} called with other arguments"), args, kwargs, st)
        f2 = Frame(f.module, f, f.cls.qual if f.cls else None, (*fr.stack, f.qual), f.node)
        out = []
        for s in self.block(f.node.body, St(dict(env), st.pc, st.ev), f2):
            val = s.out[1] if s.out is not None and s.out[0] == "ret" else NONE
            out.append((St(st.env, s.pc, s.ev, s.out if s.out is not None and
                           s.out[0] == "raise" else None), val))
        return out

    def summary(self, f, self_cls=None, at_default=()):
        self.reset()
        self.gcache = {}
        self.bound_names = {}
        owner = self_cls or (f.cls.qual if f.cls else None)
        env = self.params_env(f, owner)
        fr = Frame(f.module, f, f.cls.qual if f.cls else None, (f.qual,), f.node)
        a = f.node.args
        ps = [*a.posonlyargs, *a.args]
        defaults = dict(zip([p.arg for p in ps[len(ps) - len(a.defaults):]], a.defaults))
        defaults.update({p.arg: d for p, d in zip(a.kwonlyargs, a.kw_defaults) if d is not None})
        for n in at_default:
            # parameters callers of the reviewed interface do not pass
            env[n] = self.ev(defaults[n], St({}), Frame(f.module))[0][1]
        gen = f.is_generator()
        st = St(env)
        if gen:
            st.env["$y"] = ("tuple",)
        paths = []
        starts, finals = self.guard_decorators(f, st)
        for x in starts:
            finals += self.block(f.node.body, x, fr)
        for s in finals:
            ev = tuple((k, self.freeze(t), self.freeze(lp), self.freeze(g)) for k, t, lp, g in s.ev)
            if s.out is not None and s.out[0] == "raise":
                out = ("raise", s.out[1])
            else:
                v = s.out[1] if s.out is not None and s.out[0] == "ret" else NONE
                if gen:
                    v = s.env.get("$y", ("tuple",))
                    if f.name != "__iter__":  # which may return any iterator
                        v = ("yields", v)
                out = ("ret", self.freeze(v))
            pc = self.freeze(s.pc)
            # names written through `global`
            for nm in s.env.get("$global", ()):
                if nm in s.env:
                    was = s.env.get("$was" + nm)
                    if was is not None and was != s.env[nm] and len(s.ev) > s.env["$at" + nm][2]:
                        # what it held until it was filled was there to see
                        ev = (*ev, ("set", ("global", f"{f.module.name}.{nm}", self.freeze(was)),
                                    (), T))
                    ev = (*ev, ("set", ("global", f"{f.module.name}.{nm}", self.freeze(s.env[nm])),
                                (), T))
            paths.append((pc, ev, out))
        return Summary(f, paths, gen)
