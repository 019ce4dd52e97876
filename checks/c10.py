"""C10: input factories build what the model would."""
import inspect
import typing

from graphql import GraphQLNonNull, build_schema, is_required_input_field, parse_type, type_from_ast
from hypothesis import assume, strategies as st

import common as cm
import exec_stub
import inputgen as ig
import oracle
import schemagen as sg
import varcases as vc
import c07 as oneof
from core import Sub
from oracle import Violation
from pyvalues import build


def factories(mod):
    """return class -> functions annotated to build it"""
    out = {}
    for n, f in vars(mod.mod).items():
        if inspect.isfunction(f) and f.__module__ == mod.name:
            out.setdefault(typing.get_type_hints(f).get("return"), []).append(f)
    return out


def run(case):
    labels = set()
    schema = build_schema(case["sdl"])
    options = {"prepend": case["prepend"], "extract_documentation": case["docs"], "skip_unreferenced": case["files"] is not None}
    plugins = ["enums", ["inputs", {"skip_unreferenced": case["files"] is not None}], ["input_funcs", options]]
    with cm.load(case, plugins) as mod:
        made = factories(mod)
        for item in case["values"]:
            t = schema.type_map[item["type"]]
            cls = cm.input_class(mod, t.name)
            if ig.is_oneof(t):  # a union of models: what is generated for it must be callable
                for f in [f for fs in made.values() for f in fs if cm.squash(f.__name__) == cm.squash(case["prepend"] + t.name)]:
                    (name, payload), = item["value"].items()
                    try:
                        f(**{p: build(mod, t.fields[name].type, payload, "instances") for p in inspect.signature(f).parameters if cm.squash(p) == cm.squash(name)})
                    except TypeError as e:
                        raise Violation("factory cannot be called", f"{f.__name__}: {e}")
                labels.add("oneOf")
                continue
            if cls is None:
                raise Violation("missing input", t.name)
            found = made.get(cls, [])
            if len(found) != 1:
                raise Violation("missing factory", f"{t.name}: {len(found)} factories among {[f.__name__ for fs in made.values() for f in fs]}")
            f = found[0]
            if not f.__name__.startswith(case["prepend"]):
                raise Violation("prefix", f.__name__)
            sig = inspect.signature(f)
            names = {a: n for a, (n, _) in oracle.fields_by_alias(cls).items()}
            if set(sig.parameters) != set(names.values()):
                raise Violation("wrong parameters", f"{f.__name__}{sig} for {names}")
            must = {names[k] for k, v in t.fields.items() if is_required_input_field(v)}
            actual = {n for n, p in sig.parameters.items() if p.default is inspect.Parameter.empty}
            if must != actual:
                raise Violation("wrong required parameters", f"{f.__name__}{sig}: the type requires {sorted(must)}")
            given = {k: build(mod, t.fields[k].type, v, item["how"]) for k, v in item["value"].items()}
            bound = {names[k]: v for k, v in given.items()}
            args, kwargs, positional = [], {}, item["positional"]
            for p in sig.parameters:
                if p not in bound:
                    positional = 0
                elif positional:
                    args.append(bound[p])
                    positional -= 1
                else:
                    kwargs[p] = bound[p]
                    positional = 0
            model = cls(**given)
            obj = f(*args, **kwargs)
            if type(obj) is not type(model) or obj != model or obj.model_fields_set != model.model_fields_set:
                raise Violation("factory result differs", f"{f.__name__}({cm.short(item['value'])}) built {obj!r} with {obj.model_fields_set}, the model is {model!r}")
            d = oracle.diff(item["value"], oracle.dump(obj, exclude_unset=True))
            if d:
                raise Violation("wire value differs", f"{f.__name__}: {d}")
            for p in must:
                try:
                    f(**{k: v for k, v in bound.items() if k != p})
                except TypeError:
                    labels.add("required")
                else:
                    raise Violation("required parameter omitted", f"{f.__name__}: {p}")
            if len(given) < len(t.fields):
                labels.add("omitted")
            if None in item["value"].values():
                labels.add("null")
            if len(given) > 1:
                labels.add("nt")
    return labels


@st.composite
def cases(draw):
    model = draw(sg.schema_models({**vc.SCHEMA, "inputs": (1, 4), "max_fields": 5, "mutation": False, "subscription": False}))
    inputs = [t["name"] for t in model["types"] if t["kind"] == "input"]
    assume(inputs)
    if draw(st.integers(0, 3)) == 0:
        oneof.prepare(draw, model)
    files = None
    if draw(st.booleans()):  # a document that references every input
        root = next(t for t in model["types"] if t["name"] == "Query")
        root["fields"].append({"name": "probe0", "type": "Int", "args": [{"name": f"a{i}", "type": n} for i, n in enumerate(inputs)], "desc": None, "deprecated": None})
        files = {"ops.graphql": "query Probe(" + ", ".join(f"$v{i}: {n}" for i, n in enumerate(inputs)) + ") { probe0("
                 + ", ".join(f"a{i}: $v{i}" for i, n in enumerate(inputs)) + ") }"}
    sdl = sg.print_schema(model)
    schema = build_schema(sdl)
    gen = ig.InputGen(draw, model["scalars"])
    values = [{"type": n, "value": gen.nn(schema.type_map[n], 0), "how": draw(st.sampled_from(["kwargs", "instances"])), "positional": draw(st.integers(0, 4))}
              for n in inputs for _ in range(3)]
    return {"sdl": sdl, "files": files, "scalars": model["scalars"], "stylers": draw(cm.styler_stacks), "values": values,
            "prepend": draw(st.sampled_from(["", "make_", "new"])), "docs": draw(st.booleans())}


def run_expand(case):
    """expanded parameters give the same wire variables as passing the input"""
    labels = set()
    schema = build_schema(case["sdl"])
    base = {"definitions": [{"type": k, "use": "exec_stub.vp_execute"} for k in ("query", "mutation")], "prepend_sync": "call_", "collapse_lonely": False}
    with cm.load(case, ["enums", "inputs", "fragments", "operations", ["funcs", {**base, "expand_input_types": case["expand"]}]]) as mod:
        for op in case["ops"]:
            cls = cm.operation(mod, op["name"])
            f = [f for n, f in vars(mod.mod).items() if inspect.isfunction(f) and f.__module__ == mod.name and cm.squash(n) == cm.squash("call_" + op["name"])]
            if len(f) != 1:
                raise Violation("missing function", op["name"])
            f = f[0]
            sig = inspect.signature(f)
            types = {n: type_from_ast(schema, parse_type(v["type"])) for n, v in op["vars"].items()}
            for call in case["calls"][op["name"]]:
                bound = {}
                for n, v in call.items():
                    t = types[n]
                    if n in case["expand"] and op["vars"][n]["default"] is None and isinstance(t, GraphQLNonNull) and hasattr(t.of_type, "fields"):
                        names = {a: x for a, (x, _) in oracle.fields_by_alias(cm.input_class(mod, t.of_type.name)).items()}
                        missing = set(names.values()) - set(sig.parameters)
                        if missing:
                            raise Violation("field has no parameter", f"{f.__name__}{sig}: {sorted(missing)}")
                        bound.update({names[k]: build(mod, t.of_type.fields[k].type, x, "instances") for k, x in v.items()})
                        labels.add("nt")
                    else:
                        p = [p for p in sig.parameters if cm.squash(p) == cm.squash(n)]
                        if len(p) != 1:
                            raise Violation("variable has no parameter", f"{f.__name__}{sig}: {n}")
                        bound[p[0]] = build(mod, t, v, "instances")
                exec_stub.reset(None)
                f(**bound)
                (cargs, _), = exec_stub.calls
                wire = oracle.dump(cls.Arguments(**cargs[-1]), exclude_unset=True)
                d = oracle.diff(call, wire)
                if d:
                    raise Violation("wire variables differ", f"{f.__name__}: {d}\ncalled with {sorted(bound)}, forwarded {cm.short(cargs[-1])}")
                labels.add("called")
    return labels


def extra_expand(draw, model, schema, case):
    expand, used = [], set()
    for op in case["ops"]:  # parameters of one function must stay distinct
        taken = {cm.squash(n) for n in op["vars"]}
        for n, v in op["vars"].items():
            t = type_from_ast(schema, parse_type(v["type"]))
            inner = t.of_type if isinstance(t, GraphQLNonNull) else t
            if hasattr(inner, "fields"):
                names = {cm.squash(k) for k in inner.fields}
                if n not in used and not names & (taken | {"variables"}) and draw(st.integers(0, 3)) != 0:
                    taken |= names
                    expand.append(n)
        used |= set(op["vars"])
    calls = {op["name"]: vc.assignments(draw, schema, op, model["scalars"], 2) for op in case["ops"]}
    return {"expand": expand, "calls": calls}


def strategy_expand():
    return vc.cases({"inputs": (1, 3)}, kinds=("query", "mutation"), ops=(1, 2), n=(1, 3), extra=extra_expand, stylers=st.sampled_from([["default"], ["snake"], ["capitalize"]]),
                    types=lambda draw, model: [t["name"] for t in model["types"] if t["kind"] == "input"] * 3 + sg.BUILTINS)


SUBS = [
    Sub("factories", cases, run, quick=1100, rule="random input types, prefixes and values: three parameter subsets per type, passed positionally, by name, as dicts or instances, "
        "compared with the model built directly; non-trivial: at least two fields given"),
    Sub("expand", strategy_expand, run_expand, quick=700, rule="operation functions with input variables expanded into parameters, compared with the wire variables of the unexpanded "
        "values; non-trivial: an expanded variable occurs"),
]
