"""Declarative facts: fields of classes, and what modules register when imported."""
from __future__ import annotations

import ast

from .compare import Diff, clip, hard, tabulate
from .engine import Summary
from .engine_base import Frame, St, TooComplex
from .terms import Canon, T, const, glob, show

SKIP_ATTRS = {"__path__", "__version__", "__all__", "__doc__", "__slots__"}


def ann_term(ev, module, node, cls=None):
    return _ann(ev, module, node, cls)


def _ann(ev, module, node, cls=None):
    """Annotation as a term: unions are unordered, Optional[X] is X | None."""
    if isinstance(node, ast.Constant) and isinstance(node.value, str):
        try:
            node = ast.parse(node.value, mode="eval").body
        except SyntaxError:
            return const(node.value)
    if isinstance(node, ast.Subscript):
        q = ev.p.resolve_expr(module, node.value)
        args = node.slice.elts if isinstance(node.slice, ast.Tuple) else [node.slice]
        if q and q.rsplit(".", 1)[-1] in ("Optional", "Union") and q.startswith("typing"):
            ts = [_ann(ev, module, a, cls) for a in args]
            if q.endswith("Optional"):
                ts.append(const(None))
            return utype(ts)
        if q and q.rsplit(".", 1)[-1] in ("Literal",):
            return ("i", glob(q), ("set", *(const(a.value) if isinstance(a, ast.Constant) else
                                             evaluate(ev, module, a, cls=cls) for a in args)))
        if q and q.rsplit(".", 1)[-1] == "Annotated":
            return ("ann", _ann(ev, module, args[0], cls), *(evaluate(ev, module, a, cls=cls)
                                                            for a in args[1:]))
        if q and q.startswith("typing.") and q[7:8].isupper():
            low = {"List": "list", "Dict": "dict", "Tuple": "tuple", "Set": "set",
                   "FrozenSet": "frozenset", "Type": "type"}.get(q[7:])
            if low:
                q = f"builtins.{low}"
            elif q[7:] in ("Mapping", "Sequence", "Iterable", "Iterator", "Callable"):
                q = f"collections.abc.{q[7:]}"
        return ("i", glob(q) if q else evaluate(ev, module, node.value, cls=cls),
                ("tuple", *(_ann(ev, module, a, cls) for a in args)))
    if isinstance(node, ast.BinOp) and isinstance(node.op, ast.BitOr):
        return utype([_ann(ev, module, node.left, cls), _ann(ev, module, node.right, cls)])
    if isinstance(node, ast.List):
        return ("tuple", *(_ann(ev, module, a, cls) for a in node.elts))
    return evaluate(ev, module, node, cls=cls)


def utype(ts):
    out = []
    for t in ts:
        for x in (t[1:] if t[0] == "utype" else (t,)):
            if x not in out:
                out.append(x)
    return ("utype", *sorted(out, key=repr))


def evaluate(ev, module, node, env=None, cls=None):
    try:
        res = ev.ev(node, St(dict(env or {})), Frame(module, cls=cls))
    except TooComplex as e:
        return ("unk", str(e))
    if len(res) != 1 or res[0][0].out is not None:
        return ("unk", "class level expression")
    return ev.freeze(res[0][1])


def class_facts(ev, c):
    """{fact: canonical term} of the class."""
    ev.reset()
    canon = Canon()
    out = {}
    out["bases"] = ("tuple", *(ann_term(ev, c.module, b, c.qual) if not isinstance(b, ast.Subscript) else
                               evaluate(ev, c.module, b.value, cls=c.qual) for b in c.node.bases))
    for k in c.node.keywords:
        out[f"class argument {k.arg}"] = evaluate(ev, c.module, k.value)
    env = {}
    for n, a in c.annotations.items():
        out[f"type of {n}"] = ann_term(ev, c.module, a, c.qual)
    for n, v in c.attrs.items():
        if n in SKIP_ATTRS:
            continue
        t = evaluate(ev, c.module, v, env, c.qual)
        out[f"value of {n}"] = t
        env[n] = t
    for n, f in c.methods.items():
        ds = sorted(ast.unparse(d) for d in f.node.decorator_list
                    if ast.unparse(d).split("(")[0].rsplit(".", 1)[-1] in (
                        "field_validator", "model_validator", "field_serializer",
                        "model_serializer"))
        for d in ds:
            out[f"validator {d}"] = const(True)
        if n != f.name:
            out[f"alias {n}"] = const(f.name)
    return {k: canon.term(t) for k, t in out.items()}


def own_only(ev):
    """Attribute names looked up in the `__dict__` of a class: not inherited."""
    if not hasattr(ev, "_own_only"):
        ev._own_only = {
            x.args[0].value for m in ev.p.modules.values() for x in ast.walk(m.tree)
            if isinstance(x, ast.Call) and isinstance(x.func, ast.Attribute) and x.func.attr == "get"
            and isinstance(x.func.value, ast.Attribute) and x.func.value.attr == "__dict__"
            and x.args and isinstance(x.args[0], ast.Constant)}
    return ev._own_only


def diff_class(ref_ev, cur_ev, rc, cc):
    a, b = class_facts(ref_ev, rc), class_facts(cur_ev, cc)
    out = []
    for k in sorted(a):
        if k not in b:
            name = k.split(" ")[-1]
            if k.startswith(("type of", "value of")) and name.startswith("_") and \
                    name.endswith("_") is False:
                continue
            # moved to a base class
            if k.startswith(("type of ", "value of ")) and name not in own_only(ref_ev):
                found = False
                for q in cur_ev.p.mro(cc.qual)[1:]:
                    k2 = cur_ev.p.classes.get(q)
                    if k2 is not None and k in (f := class_facts(cur_ev, k2)):
                        found = f[k] == a[k]
                        break
                if found:
                    continue
            if k.startswith("value of ") and f"type of {name}" in a and name in cc.methods:
                continue
            out.append(Diff("declaration", f"{k} is gone; required: {clip(show(a[k]), 300)}", True))
        elif a[k] != b[k]:
            new = hard(b[k]) - hard(a[k])
            out.append(Diff("declaration", f"{k} is {clip(show(b[k]), 300)}; required: "
                                           f"{clip(show(a[k]), 300)}", not new))
    for k in sorted(set(b) - set(a)):
        name = k.split(" ")[-1]
        if k.startswith("value of ") and f"type of {name}" in a:
            out.append(Diff("declaration", f"{k} is now {clip(show(b[k]), 300)}; required: no "
                                           f"default", True))
        elif k.startswith("value of ") and name in rc.methods:
            out.append(Diff("declaration", f"{name} is now {clip(show(b[k]), 300)}, no longer a "
                                           f"method", True))
        elif k.startswith("value of ") and ref_ev.p.find_attr(rc.qual, name) is not None and \
                not name.startswith("__"):
            old = ref_ev.p.find_attr(rc.qual, name)[1]
            out.append(Diff("declaration", f"{k} now overrides the inherited value with "
                                           f"{clip(show(b[k]), 300)}", old is not None))
        elif k.startswith("class argument"):
            out.append(Diff("declaration", f"{k} is now {clip(show(b[k]), 300)}", True))
    return out


HOOKS = frozenset((
    *(f"__{n}__" for n in (
        "eq ne hash lt le gt ge bool len iter contains getitem getattr getattribute setattr delattr "
        "new init post_init init_subclass class_getitem instancecheck subclasscheck "
        "get set set_name pydantic_init_subclass get_pydantic_core_schema").split()),
    "model_post_init", "model_copy", "model_dump", "model_dump_json", "model_validate"))


def delegates(f):
    """The method only passes its arguments on to the one it overrides."""
    body = [s for s in f.node.body if not (isinstance(s, ast.Expr) and isinstance(s.value, ast.Constant))]
    if len(body) != 1 or not isinstance(body[0], (ast.Return, ast.Expr)):
        return False
    v = body[0].value
    if not isinstance(v, ast.Call) or v.keywords or not isinstance(v.func, ast.Attribute):
        return False
    a = f.node.args
    names = [x.arg for x in (*a.posonlyargs, *a.args)][1:]
    return v.func.attr == f.name and ast.unparse(v.func.value) == "super()" and \
        [ast.unparse(x) for x in v.args] == names and not a.kwonlyargs and not a.vararg and not a.kwarg


def keeps_value(ev, f, cls):
    """A validator that accepts every value as it is."""
    a = f.node.args
    names = [x.arg for x in (*a.posonlyargs, *a.args)]
    names = names[0 if f.is_static else 1:] or names
    try:
        s = ev.summary(f, cls)
    except TooComplex:
        return False
    return all(out == ("ret", ("p", names[0])) or out == ("ret", ("v", names[0]))
               for _, _, out in s.paths)


def new_hooks(ref_ev, cur_ev, rc, cc):
    """Special methods and validators of the class that it did not have, not even inherited."""
    out = []
    r, c = ref_ev.p, cur_ev.p
    for q in c.mro(cc.qual):
        k = c.classes.get(q)
        for n, f in (k.methods.items() if k else ()):
            if n in HOOKS and c.find_method(cc.qual, n) is f and r.find_method(rc.qual, n) is None \
                    and r.find_attr(rc.qual, n) is None and not delegates(f):
                out.append(Diff("declaration", f"{n} is now defined by {q}: operations that use it no "
                                               f"longer behave as required", True))
    old, new = converters(r, rc.qual), converters(c, cc.qual)
    for d in sorted(set(new) - set(old)):
        if not keeps_value(cur_ev, new[d], cc.qual):
            out.append(Diff("declaration", f"new {d} ({new[d].name}) changes or rejects values", True))
    return out


def converters(p, cls):
    out = {}
    for q in p.mro(cls):
        c = p.classes.get(q)
        for f in (c.methods.values() if c else ()):
            for d in f.node.decorator_list:
                t = ast.unparse(d)
                if t.split("(")[0].rsplit(".", 1)[-1] in ("field_validator", "model_validator",
                                                          "field_serializer", "model_serializer"):
                    out.setdefault(t, f)
    return out


def module_table(ev, m):
    """What importing the module does: registrations (events) and the values it defines."""
    ev.reset()
    fr = Frame(m)
    states = [St({})]

    def run(stmts, states):
        for s in stmts:
            if isinstance(s, (ast.Import, ast.ImportFrom, ast.FunctionDef)):
                continue
            if isinstance(s, ast.ClassDef):
                nxt = []
                for st in states:
                    t = glob(f"{m.name}.{s.name}")
                    for d in reversed(s.decorator_list):
                        for st2, dt in ev.ev(d, st, fr):
                            st = st2.emit(("deco", ("call", ev.freeze(dt), (t,), ()), (), T))
                    nxt.append(st)
                states = nxt
                continue
            if isinstance(s, ast.If) and ast.unparse(s.test) == "TYPE_CHECKING":
                states = run(s.orelse, states)
                continue
            if isinstance(s, (ast.TypeAlias, ast.Pass)):
                continue
            if isinstance(s, ast.AnnAssign) and s.value is None:
                continue
            states = [y for st in states for y in ev.stmt(s, st, fr)]
        return states
    states = run(m.tree.body, states)
    paths = [(ev.freeze(s.pc), tuple((k, ev.freeze(t), ev.freeze(lp), ev.freeze(g))
                                     for k, t, lp, g in s.ev), ("ret", const(None)))
             for s in states]
    canon = Canon()
    tab = tabulate(Summary(None, paths, False), canon)
    values = {}
    if len(states) == 1:
        for n, v in states[0].env.items():
            if n not in SKIP_ATTRS:
                values[n] = canon.term(ev.freeze(v))
    for n, node in m.type_aliases.items():
        values[f"type {n}"] = canon.term(ann_term(ev, m, node))
    return tab, canon, values


def diff_module(ref_ev, cur_ev, rm, cm):
    from .compare import diff_tables
    try:
        a, canon, va = module_table(ref_ev, rm)
        b, _, vb = module_table(cur_ev, cm)
    except TooComplex as e:
        return [Diff("module", f"not analysed: {e}", False)], 0
    out = diff_tables(a, b, canon)
    for n in sorted(va):
        private = n.startswith("_") or n.startswith("type ")
        if n not in vb:
            if not private and cur_ev.p.resolve_name(cm, n) is None:
                out.append(Diff("module", f"{cm.name}.{n} is gone", True))
        elif va[n] != vb[n] and not n.startswith("_precision"):
            new = hard(vb[n]) - hard(va[n])
            out.append(Diff("module", f"{cm.name}.{n} is {clip(show(vb[n]), 300)}; required: "
                                      f"{clip(show(va[n]), 300)}", not new))
    return out, len(a.events) + len(va)
