"""C29: generated annotations are true: of parameters, defaults, results and attributes."""
import collections.abc as abc
import importlib
import inspect
import typing

from graphql import GraphQLList, GraphQLNonNull, GraphQLScalarType, build_schema, get_named_type, is_required_input_field, parse, parse_type, type_from_ast
from hypothesis import strategies as st

import common as cm
import docgen as dg
import exec_stub
import hints
import inputgen as ig
import oracle
import varcases as vc
import c09
import c10
from core import Sub
from oracle import Violation
from pyvalues import build

BUILTIN = {"Int": int, "Float": float, "String": str, "Boolean": bool, "ID": str}


def resolve(path):
    if "." not in path:
        return getattr(importlib.import_module("builtins"), path)
    module, name = path.rsplit(".", 1)
    return getattr(importlib.import_module(module), name)


def python_of(case):
    def python(scalar):
        target = case["scalars"].get(scalar)
        if target is None:
            return [BUILTIN[scalar]] if scalar in BUILTIN else None
        t = resolve(target)
        return [t, typing.get_origin(t)] if typing.get_origin(t) else [t]
    return python


def annotations(f):
    try:
        return typing.get_type_hints(f, include_extras=True)
    except NameError as e:
        raise Violation("annotation names nothing", f"{f.__name__}: {e}")


def says(value, hint, where):
    r = hints.conform(value, hint)
    if r:
        raise Violation("value is not what its annotation says", f"{where}: {r}")


def attributes(m, where, labels, seen=None):
    """every attribute of a model instance and of the instances below it"""
    from pydantic import BaseModel
    if isinstance(m, (list, tuple)):
        for v in m:
            attributes(v, where, labels)
    elif isinstance(m, BaseModel):
        for name, field in type(m).model_fields.items():
            v = getattr(m, name)
            says(v, field.annotation, f"{where}: {type(m).__name__}.{name}")
            if name not in m.model_fields_set:
                labels.add("default")
            attributes(v, where, labels)


def element(hint, kind, is_async, where):
    """what a subscription's function yields"""
    wanted = abc.AsyncIterator if is_async else abc.Iterator
    origin = typing.get_origin(hint)
    if not (isinstance(origin, type) and issubclass(wanted, origin)):
        raise Violation("result annotation", f"{where}: {hint} for a subscription{' (async)' if is_async else ''}")
    return typing.get_args(hint)[0]


def run(case):
    labels = set()
    schema = build_schema(case["sdl"])
    ref = dg.RefDoc(schema, cm.case_text(case))
    funcs = case["funcs"]
    python = python_of(case)
    with cm.load(case, ["enums", "inputs", "fragments", "operations", ["funcs", funcs]]) as mod:
        unset = getattr(mod.mod, "UnsetType", None)
        for op in case["ops"]:
            cls = cm.operation(mod, op["name"])
            node = ref.ops[op["name"]]
            types = {n: type_from_ast(schema, parse_type(v["type"])) for n, v in op["vars"].items()}
            selections = node.selection_set.selections
            collapsed = funcs["collapse_lonely"] and len(selections) == 1
            models = [cls.model_validate(r) for r in case["responses"][op["name"]]]
            for m in models:
                attributes(m, op["name"], labels)
            for definition in [d for d in funcs["definitions"] if d["type"] == op["kind"]]:
                f = c09.find_function(mod, funcs, op, definition)
                sig, says_ = inspect.signature(f), annotations(f)
                if set(says_) != set(sig.parameters) | {"return"}:
                    raise Violation("not annotated", f"{f.__name__}{sig}: {sorted((set(sig.parameters) | {'return'}) ^ set(says_))}")
                extras = {a["key"]: a for a in funcs["global_args"] + definition["extra_args"] + funcs["global_kwargs"] + definition["extra_kwargs"]}
                params = {n: p for n in op["vars"] for p in sig.parameters if p not in extras and cm.squash(p) == cm.squash(n)}
                for p, a in extras.items():
                    wanted = {resolve(a["type"])}
                    if p in sig.parameters and set(hints.members(says_[p])) - {type(None)} != wanted:
                        raise Violation("annotation of an extra argument", f"{f.__name__}{sig}: {p}")
                for p in sig.parameters.values():
                    if p.default is not inspect.Parameter.empty:
                        says(p.default, says_[p.name], f"{f.__name__}: default of {p.name}")
                for n, p in params.items():
                    default = sig.parameters[p].default
                    extra = (unset,) if default is not inspect.Parameter.empty else ()
                    if extra and type(default) is not unset and default is not None:
                        raise Violation("default", f"{f.__name__}{sig}: {p}")
                    r = hints.mirror(says_[p], types[n], case["scalars"], python, extra=extra)
                    if r:
                        raise Violation("annotation of a parameter", f"{f.__name__}{sig}: {p}: {r}")
                    for call in case["calls"][op["name"]]:
                        if n in call["values"]:
                            says_typed(build(mod, types[n], call["values"][n], "instances"), says_[p], types[n], f"{f.__name__}{sig}: {p}", labels)
                # the result
                result = says_["return"]
                if op["kind"] == "subscription":
                    result = element(result, op["kind"], definition["is_async"], f"{f.__name__}{sig}")
                if collapsed:
                    field = selections[0]
                    t = ref.root(node).fields[field.name.value].type if field.name.value != "__typename" else None
                    if t is not None:
                        r = hints.mirror(result, t, case["scalars"], python, nullable=True if dg.conditional(field) else None)
                        if r:
                            raise Violation("annotation of the result", f"{f.__name__}{sig}: {r}")
                        labels.add("collapsed")
                elif result is not cls:
                    raise Violation("annotation of the result", f"{f.__name__}{sig} does not promise {cls.__name__}")
                for i, m in enumerate(models):
                    exec_stub.reset([m, m] if op["kind"] == "subscription" else m)
                    given = {params[n]: build(mod, types[n], v, "instances") for n, v in case["calls"][op["name"]][0]["values"].items()}
                    given.update({a["key"]: None for a in funcs["global_args"] + definition["extra_args"]})
                    out = c09.drive(f, definition, op["kind"], [], given)
                    for o in out if op["kind"] == "subscription" else [out]:
                        says(o, result, f"{f.__name__}{sig} returned {cm.short(o, 200)}")
                        if o is None:
                            labels.add("none")
                        if isinstance(o, (list, tuple)):
                            labels.add("list")
                labels.add(op["kind"])
                labels.add("nt")
    return labels


def says_typed(value, hint, t, where, labels):
    """a Python value of the caller: scalars were drawn as wire values, so only structure, enums and inputs are judged"""
    if isinstance(get_named_type(t), GraphQLScalarType):
        if get_named_type(t).name not in ("Int", "String", "Boolean") or isinstance(t, (GraphQLList,)):
            return
    says(value, hint, where)
    labels.add("parameter")


def extra_vars(draw, model, schema, case):
    out = c09.extra_vars(draw, model, schema, case)
    return {**out, **config(draw)}


def extra_doc(draw, model, schema, doc):
    return {**c09.extra_doc(draw, model, schema, doc), **config(draw)}


def config(draw):
    if draw(st.integers(0, 3)):
        return {}
    return {"config": {"freeze": {"enabled": True, "convert_list_to_tuple": draw(st.booleans())}}}


# ------------------------------------------------------------------ input models and their factories

def run_inputs(case):
    labels = set()
    schema = build_schema(case["sdl"])
    python = python_of(case)
    options = {"prepend": case["prepend"], "extract_documentation": case["docs"], "skip_unreferenced": case["files"] is not None}
    with cm.load(case, ["enums", ["inputs", {"skip_unreferenced": case["files"] is not None}], ["input_funcs", options]]) as mod:
        unset = getattr(mod.mod, "UnsetType", None)
        made = c10.factories(mod)
        for item in case["values"]:
            t = schema.type_map[item["type"]]
            cls = cm.input_class(mod, t.name)
            if ig.is_oneof(t) or cls is None:
                continue
            by_alias = oracle.fields_by_alias(cls)
            for k, v in t.fields.items():
                name, info = by_alias[k]
                if info.is_required() != is_required_input_field(v):
                    raise Violation("required attribute", f"{t.name}.{k}: {v.type} = {v.default_value!r} is{'' if info.is_required() else ' not'} required")
                r = hints.mirror(info.annotation, v.type, case["scalars"], python, nullable=None if info.is_required() else hints.optional(info.annotation))
                if r:
                    raise Violation("annotation of an attribute", f"{t.name}.{k}: {r}")
                if not info.is_required() and not isinstance(v.type, GraphQLNonNull) and not hints.optional(info.annotation):
                    raise Violation("annotation of an attribute", f"{t.name}.{k}: {info.annotation} cannot be None")
            given = {k: build(mod, t.fields[k].type, v, item["how"]) for k, v in item["value"].items()}
            attributes(cls(**given), t.name, labels)
            for f in made.get(cls, []):
                sig, says_ = inspect.signature(f), annotations(f)
                for k, v in t.fields.items():
                    p = by_alias[k][0]
                    default = sig.parameters[p].default
                    extra = (unset,) if default is not inspect.Parameter.empty else ()
                    if extra:
                        says(default, says_[p], f"{f.__name__}: default of {p}")
                        labels.add("default")
                    r = hints.mirror(says_[p], v.type, case["scalars"], python, extra=extra)
                    if r:
                        raise Violation("annotation of a parameter", f"{f.__name__}{sig}: {p}: {r}")
                    if k in item["value"]:
                        says_typed(build(mod, v.type, item["value"][k], "instances"), says_[p], v.type, f"{f.__name__}{sig}: {p}", labels)
                out = f(**{by_alias[k][0]: v for k, v in given.items()})
                says(out, says_["return"], f.__name__)
                attributes(out, f.__name__, labels)
                labels.add("nt")
    return labels


# ------------------------------------------------------------------ expanded inputs

def run_expand(case):
    labels = set()
    schema = build_schema(case["sdl"])
    python = python_of(case)
    base = {"definitions": [{"type": k, "use": "exec_stub.vp_execute"} for k in ("query", "mutation")], "prepend_sync": "call_", "collapse_lonely": False}
    with cm.load(case, ["enums", "inputs", "fragments", "operations", ["funcs", {**base, "expand_input_types": case["expand"]}]]) as mod:
        unset = getattr(mod.mod, "UnsetType", None)
        for op in case["ops"]:
            f, = [f for n, f in c09.functions(mod).items() if cm.squash(n) == cm.squash("call_" + op["name"])]
            sig, promised = inspect.signature(f), annotations(f)
            for n, v in op["vars"].items():
                t = type_from_ast(schema, parse_type(v["type"]))
                expanded = n in case["expand"] and v["default"] is None and isinstance(t, GraphQLNonNull) and hasattr(t.of_type, "fields")
                places = [(k, x.type) for k, x in t.of_type.fields.items()] if expanded else [(n, t)]
                names = {a: x for a, (x, _) in oracle.fields_by_alias(cm.input_class(mod, t.of_type.name)).items()} if expanded else {}
                for k, ft in places:
                    found = [p for p in sig.parameters if (p == names[k] if expanded else cm.squash(p) == cm.squash(k))]
                    if len(found) != 1:
                        raise Violation("no parameter", f"{f.__name__}{sig}: {k}")
                    p, = found
                    default = sig.parameters[p].default
                    if default is not inspect.Parameter.empty:
                        says(default, promised[p], f"{f.__name__}: default of {p}")
                    r = hints.mirror(promised[p], ft, case["scalars"], python, extra=(unset,) if default is not inspect.Parameter.empty else ())
                    if r:
                        raise Violation("annotation of a parameter", f"{f.__name__}{sig}: {p}: {r}")
                    for call in case["calls"][op["name"]]:
                        value = call.get(n) if expanded else call
                        if k in (value or {}):
                            says_typed(build(mod, ft, value[k], "instances"), promised[p], ft, f"{f.__name__}{sig}: {p}", labels)
                if expanded:
                    labels.add("nt")
    return labels


SUBS = [
    Sub("variables", lambda: vc.cases(extra=extra_vars, stylers=st.sampled_from([["default"], ["snake"], ["capitalize", "snake"], ["capitalize"]])), run, quick=400,
        rule="functions of operations with 1-4 variables: annotations of parameters, defaults and results; non-trivial: a function was called"),
    Sub("documents", lambda: cm.client_cases(responses=2, extra=extra_doc, doc_opts=dict(conditions=True)), run, quick=600,
        rule="functions and models of random documents, each called with two responses; non-trivial: a function was called"),
    Sub("inputs", c10.cases, run_inputs, quick=500, rule="input models and factories; non-trivial: a factory was called"),
    Sub("expand", c10.strategy_expand, run_expand, quick=300, rule="parameters that expanded inputs become; non-trivial: an expanded variable occurs"),
]
