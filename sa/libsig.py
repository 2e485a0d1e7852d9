"""Parameter names of standard library callables, so that keyword and positional calls agree."""
from __future__ import annotations

import importlib
import inspect

MODULES = {"json", "pickle", "string", "glob", "pathlib", "inspect", "functools", "re", "os", "os.path",
           "hashlib", "tempfile", "subprocess", "logging", "collections", "graphlib", "shutil",
           "textwrap", "copy", "math", "contextlib", "datetime", "itertools", "operator", "types"}
TABLE = {
    "builtins.int": ("", "base"),
    "builtins.enumerate": ("iterable", "start"),
    "builtins.str": ("object", "encoding", "errors"),
    "builtins.round": ("number", "ndigits"),
    "builtins.pow": ("base", "exp", "mod"),
    "builtins.sum": ("", "start"),
    "datetime.date": ("year", "month", "day"),
    "datetime.datetime": ("year", "month", "day", "hour", "minute", "second", "microsecond", "tzinfo"),
    "datetime.timedelta": ("days", "seconds", "microseconds", "milliseconds", "minutes", "hours",
                           "weeks"),
    "datetime.datetime.now": ("tz",),
    "google.cloud.bigquery.SchemaField": ("name", "field_type", "mode", "default_value_expression",
                                          "description", "fields"),
    "google.cloud.bigquery.TimePartitioning": ("type_", "field"),
    "google.cloud.bigquery.Table": ("table_ref", "schema"),
    "pyarrow.field": ("name", "type", "nullable", "metadata"),
    "pyarrow.struct": ("fields",),
    "pyarrow.list_": ("value_type", "list_size"),
    "pyarrow.map_": ("key_type", "item_type", "keys_sorted"),
    "pyarrow.schema": ("fields", "metadata"),
    "pyarrow.timestamp": ("unit", "tz"),
    "pyarrow.time32": ("unit",),
    "pyarrow.time64": ("unit",),
    "pyarrow.binary": ("length",),
    "pandas.DataFrame": ("data", "index", "columns", "dtype", "copy"),
    "pandas.Series": ("data", "index", "dtype", "name", "copy"),
    "numpy.dtype": ("dtype", "align", "copy"),
    "pydantic_core.core_schema.no_info_after_validator_function": ("function", "schema"),
    "pydantic_core.core_schema.plain_serializer_function_ser_schema": ("function",),
}
_CACHE = {}


def resolve(q):
    mod, _, name = q.rpartition(".")
    if mod in MODULES:
        return getattr(importlib.import_module(mod), name, None)
    if mod.rpartition(".")[0] in MODULES:
        cls = resolve(mod)
        return getattr(cls, name, None) if inspect.isclass(cls) else None
    return None


def names(q):
    """Names of the leading parameters that can be passed by position ('' if only by position)."""
    r = _CACHE.get(q)
    if r is None:
        r = TABLE.get(q)
        if r is None:
            r = ()
            try:
                o = resolve(q)
                if callable(o):
                    out = []
                    for p in inspect.signature(o).parameters.values():
                        if p.kind is p.POSITIONAL_ONLY:
                            out.append("")
                        elif p.kind is p.POSITIONAL_OR_KEYWORD:
                            out.append(p.name)
                        else:
                            break
                    r = tuple(out)
            except (ValueError, TypeError, ImportError):
                pass
        _CACHE[q] = r
    return r


def positional(q, args, kw, skip=0):
    """The call with keyword arguments moved to their positions where they continue the others."""
    ns = names(q)[skip:]
    kw = dict(kw)
    args = list(args)
    while len(args) < len(ns) and ns[len(args)] and ns[len(args)] in kw:
        args.append(kw.pop(ns[len(args)]))
    return tuple(args), tuple(sorted(kw.items()))
