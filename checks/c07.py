"""C07: @oneOf inputs send exactly one tagged field."""
from graphql import GraphQLInputObjectType, GraphQLList, GraphQLNonNull, build_schema, parse, parse_type, type_from_ast
from hypothesis import strategies as st

import common as cm
import inputgen as ig
import oracle
import schemagen as sg
import sut
import varcases as vc
from core import Sub
from oracle import Violation
from pyvalues import build, oneof_wrapper, plain, shape

FIELD_NAMES = ["cat", "dogInput", "by_id", "email", "authorId", "nested", "list_of", "X", "self", "class", "_id", "json", "fish"]


def prepare(draw, model):
    """turns some input types into oneOf types"""
    inputs = [t for t in model["types"] if t["kind"] == "input"]
    enums = [t["name"] for t in model["types"] if t["kind"] == "enum"]
    names = [t["name"] for t in inputs]
    chosen = draw(st.permutations(inputs))[:draw(st.integers(1, 2))] if len(inputs) > 1 else inputs
    model["directives"].append("directive @oneOf on INPUT_OBJECT")
    model["oneof"] = [t["name"] for t in chosen]
    plain_inputs = [n for n in names if n not in model["oneof"]]
    for t in chosen:
        t["directives"] = ["@oneOf"]
        t["fields"] = []
        style = draw(st.sampled_from(["tagged", "mixed", "mixed"])) if plain_inputs else "mixed"
        pool = list(plain_inputs)
        for fn in draw(st.permutations(FIELD_NAMES))[:draw(st.integers(1, 4))]:
            if style == "tagged":
                if not pool:
                    break
                ft = draw(st.sampled_from(pool))
                pool.remove(ft)
            else:
                base = draw(st.sampled_from(sg.BUILTINS + enums + list(model["scalars"]) + names * 3))
                ft = sg.wrap(draw, base, 1).rstrip("!")
            t["fields"].append({"name": fn, "type": ft, "default": None, "desc": sg._desc(draw, sg.DEFAULT), "deprecated": sg._depr(draw, sg.DEFAULT)})
        if all(f["type"] in model["oneof"] for f in t["fields"]):
            t["fields"].append({"name": "one", "type": "String", "default": None, "desc": None, "deprecated": None})
    leafy = {t["name"] for t in chosen if any(sg.model_type(model, sg.named(f["type"])) is None or f["type"].startswith("[") for f in t["fields"])}
    for t in inputs:  # required fields must have finite values; give oneOf types more places
        if t in chosen:
            continue
        for f in t["fields"]:
            if draw(st.integers(0, 2)) == 0:
                f["type"], f["default"], f["deprecated"] = sg.wrap(draw, draw(st.sampled_from(model["oneof"])), 2), None, None
            if f["type"].endswith("!") and not f["type"].startswith("[") and f["type"][:-1] in model["oneof"] and f["type"][:-1] not in leafy:
                f["type"] = f["type"][:-1]
    for t in inputs:  # defaults may mention rewritten types
        for f in t["fields"]:
            if f.get("default") is not None and sg.model_type(model, sg.named(f["type"])) is not None:
                f["default"] = f["deprecated"] = None


def oneofs_in(t, value, out, path=()):
    if isinstance(t, GraphQLNonNull):
        t = t.of_type
    if value is None:
        return out
    if isinstance(t, GraphQLList):
        for i, v in enumerate(value):
            oneofs_in(t.of_type, v, out, (*path, i))
    elif isinstance(t, GraphQLInputObjectType):
        if ig.is_oneof(t):
            out.append((path, t))
        for k, v in value.items():
            oneofs_in(t.fields[k].type, v, out, (*path, k))
    return out


def run(case):
    labels = set()
    schema = build_schema(case["sdl"])
    ve = cm.validation_error()
    with cm.load(case, ["enums", "inputs", "fragments", "operations"] + (["input_funcs"] if case["factories"] else [])) as mod:
        for op in case["ops"]:
            args_cls = cm.operation(mod, op["name"]).Arguments
            types = {n: type_from_ast(schema, parse_type(v["type"])) for n, v in op["vars"].items()}
            for item in case["calls"][op["name"]]:
                given = item["values"]
                try:
                    obj = args_cls(**{k: build(mod, types[k], v, item["how"]) for k, v in given.items()})
                except ve as e:
                    raise Violation("valid oneOf value rejected", f"{op['name']} ({item['how']}): {cm.short(given)}\n{e}")
                wire = oracle.dump(obj, exclude_unset=True)
                d = oracle.diff(given, wire)
                if d:
                    raise Violation("wire value differs", f"{op['name']} ({item['how']}): {d}\n{cm.short(given)} became {cm.short(wire)}")
                d = oracle.diff(shape(given), shape(plain(obj.model_dump(by_alias=True, exclude_unset=True))))
                if d:
                    raise Violation("python dump differs", f"{op['name']}: {d}")
                for n, v in given.items():
                    for path, t in oneofs_in(types[n], v, []):
                        labels.add("nt")
                        value = v
                        for p in path:
                            value = value[p]
                        (name, _), = value.items()
                        labels.add("wrapper" if oneof_wrapper(mod, t, name) else "direct")
                        if len(path) > 1:
                            labels.add("deep")
                        if any(isinstance(p, int) for p in path):
                            labels.add("in list")
                # nulls at non-null positions and emptied wrappers
                for n, v in given.items():
                    for path, t in oneofs_in(types[n], v, []):
                        if path or not isinstance(types[n], GraphQLNonNull) or op["vars"][n]["default"] is not None:
                            continue
                        for bad in (None, 5, [5]):
                            try:
                                args_cls(**{**{k: build(mod, types[k], x, "instances") for k, x in given.items()}, n: bad})
                            except ve:
                                labels.add("rejected")
                            else:
                                raise Violation("invalid oneOf value accepted", f"{op['name']}.{n}: {bad!r}")
        for t in schema.type_map.values():
            if isinstance(t, GraphQLInputObjectType) and ig.is_oneof(t):
                for name in t.fields:
                    wrapper = oneof_wrapper(mod, t, name)
                    if wrapper is None:
                        continue
                    for bad in ({}, {name: None}):
                        if case["scalars"].get(str(t.fields[name].type)) == "typing.Any" and bad:
                            continue
                        try:
                            wrapper(**bad)
                        except ve:
                            labels.add("rejected")
                        else:
                            raise Violation("wrapper without a value accepted", f"{t.name}.{name}: {bad}")
    return labels


def extra(draw, model, schema, case):
    return {"calls": {op["name"]: [{"values": v, "how": draw(st.sampled_from(["kwargs", "instances"]))}
                                   for v in vc.assignments(draw, schema, op, model["scalars"], 3)] for op in case["ops"]},
            "factories": draw(st.integers(0, 3)) == 0}


def strategy():
    return vc.cases({"inputs": (1, 4), "max_fields": 4}, extra=extra, prepare=prepare, n=(1, 3), ops=(1, 2),
                    types=lambda draw, model: model["oneof"] * 2 + [t["name"] for t in model["types"] if t["kind"] == "input"])


def run_refused(case):
    build_schema(case["sdl"])
    try:
        cm.source(case, ["enums", ["inputs", {"skip_unreferenced": False}]])
    except sut.SutError as e:
        if type(e.exc).__name__ != "GenerationError":
            raise Violation("wrong error", f"{type(e.exc).__name__}: {e.exc}")
        return {"nt"}
    raise Violation("invalid oneOf type generated", case["broken"])


@st.composite
def refused(draw):
    model = draw(sg.schema_models({**vc.SCHEMA, "inputs": (1, 3)}))
    inputs = [t for t in model["types"] if t["kind"] == "input"]
    if not inputs:
        model["types"].append({"kind": "input", "name": "FilterInput", "fields": [{"name": "a", "type": "Int"}]})
    prepare(draw, model)
    t = sg.model_type(model, model["oneof"][0])
    t["fields"] = [dict(f) for f in t["fields"] if sg.model_type(model, sg.named(f["type"])) is None]
    f = {"name": "extraField", "type": draw(st.sampled_from(["Int", "String", "[Int!]"])), "default": None}
    how = draw(st.sampled_from(["nonnull", "default", "null default", "both"]))
    if how in ("nonnull", "both"):
        f["type"] += "!"
    if how in ("default", "both"):
        f["default"] = {"I": "1", "S": '"x"', "[": "[1]"}[f["type"][0]]
    if how == "null default":
        f["default"] = "null"
    t["fields"].insert(draw(st.integers(0, len(t["fields"]))), f)
    for other in model["types"]:
        for g in other.get("fields", []):
            for a in g.get("args") or []:
                a["default"] = None if sg.model_type(model, sg.named(a["type"])) else a.get("default")
    return {"sdl": sg.print_schema(model), "files": None, "scalars": model["scalars"], "stylers": draw(cm.styler_stacks), "broken": f"{t['name']}.{f['name']}: {how}"}


SUBS = [
    Sub("values", strategy, run, quick=1200, rule="random oneOf types (distinct input members, scalars, enums, lists, repeated members, nested and recursive oneOf) at variable, field, list and "
        "nested oneOf positions, with three assignments per operation; non-trivial: a oneOf value occurs"),
    Sub("refused", refused, run_refused, quick=250, rule="oneOf types with a non-null or defaulted field; every case is non-trivial"),
]
ASSUMPTIONS = ["members of a tagged input union stand for themselves and are passed as instances (documented)"]
