"""C11: enums carry every value and only the schema's wire names."""
import copy
import enum
import json

from graphql import GraphQLEnumType, GraphQLNonNull, build_schema, get_nullable_type, parse, parse_type, type_from_ast
from hypothesis import strategies as st

import common as cm
import docgen as dg
import inputgen as ig
import oracle
import pyvalues as pv
import schemagen as sg
import varcases as vc
from core import Sub
from oracle import Violation

VALUES = ["RED", "red", "Red", "A1", "_hidden", "_", "_X_", "mro", "name", "value", "names", "title", "count", "index", "str", "self", "Enum", "class", "class_",
          "None", "None_", "import", "match", "type", "case", "async", "print", "ASC", "camelCase", "snake_case", "with_", "with", "lambda", "Color", "def", "format",
          "encode", "_value_", "_name_", "_missing_", "_generate_next_value_", "mro_", "x", "int", "upper"]


def check_enum(cls, t, where):
    names = list(t.values)
    wires = [m.value for m in cls]
    if wires != names:
        raise Violation("members differ", f"{where}: {wires}, schema has {names}")
    if len({m.name for m in cls}) != len(names) or list(cls.__members__.values()) != list(cls):
        raise Violation("aliased members", f"{where}: {dict(cls.__members__)}")
    for m, n in zip(cls, names):
        if cls(n) is not m or cls(m) is not m or m != n or not isinstance(m, str) or getattr(cls, m.name) is not m:
            raise Violation("member is not its wire name", f"{where}.{m.name}: {n}")
        if json.loads(json.dumps(m)) != n:
            raise Violation("member does not serialise to its wire name", f"{where}.{m.name}")
        if m.name != n and m.name.rstrip("_") != n.rstrip("_"):
            raise Violation("unrecognisable member name", f"{where}.{m.name} for {n}")


def foreign(t, cls):
    """strings close to the wire names that are none"""
    out = ["", " ", "0"]
    for n in t.values:
        out += [n.lower(), n.upper(), n + " ", " " + n, n + "_", n[:-1], f"{cls.__name__}.{n}", f'"{n}"']
    out += [m.name for m in cls]
    return [x for x in dict.fromkeys(out) if x not in t.values]


def run_members(case):
    schema = build_schema(case["sdl"])
    labels = set()
    with cm.load(case, ["enums", "inputs", "fragments", "operations"]) as mod:
        for name, t in schema.type_map.items():
            if not isinstance(t, GraphQLEnumType) or name.startswith("__"):
                continue
            cls = cm.enum_class(mod, name)
            if cls is None:
                raise Violation("missing enum", name)
            check_enum(cls, t, name)
            if any(n in sg.AWKWARD_ENUM_VALUES or n in VALUES[4:] for n in t.values):
                labels.add("nt")
            for bad in foreign(t, cls):
                try:
                    cls(bad)
                except ValueError:
                    continue
                raise Violation("foreign value accepted", f"{name}: {bad!r}")
    return labels


@st.composite
def member_cases(draw):
    model = {"types": [], "scalars": {}, "directives": []}
    for n in sg.uniq(draw, sg.ENUM_NAMES + ["direction", "HTTPMethod", "_Private"], 1, 3):
        vals = draw(st.permutations(VALUES))[:draw(st.integers(1, 12))]
        model["types"].append({"kind": "enum", "name": n, "desc": sg._desc(draw, sg.DEFAULT),
                               "values": [{"name": v, "desc": sg._desc(draw, sg.DEFAULT), "deprecated": sg._depr(draw, sg.DEFAULT)} for v in vals]})
    model["types"].append({"kind": "object", "name": "Query", "fields": [{"name": f"f{i}", "type": t["name"], "args": []} for i, t in enumerate(model["types"])]})
    text = "query Q { " + " ".join(f"f{i}" for i in range(len(model["types"]) - 1)) + " }"
    return {"sdl": sg.print_schema(model), "files": {"a.graphql": text}, "scalars": {}, "stylers": draw(cm.styler_stacks)}


# ---------------------------------------------------------------- enum positions in responses

def run_responses(case):
    labels = set()
    ve = cm.validation_error()
    schema = build_schema(case["sdl"])
    ref = dg.RefDoc(schema, cm.case_text(case))
    with cm.load(case) as mod:
        for name, responses in case["responses"].items():
            cls = cm.operation(mod, name)
            for response in responses:
                obj = cls(**response)
                wire = json.loads(obj.model_dump_json(by_alias=True))
                for path, t, value, under, exact in dg.positions(ref, ref.ops[name], response):
                    inner = get_nullable_type(t)
                    if not exact or not isinstance(inner, GraphQLEnumType) or value is None:
                        continue
                    labels.add("nt")
                    ecls = cm.enum_class(mod, inner.name)
                    if ecls is None:
                        raise Violation("missing enum", inner.name)
                    at = wire
                    for p in path:
                        at = at[p]
                    if at != value:
                        raise Violation("wire name changed", f"{name} {path}: {value!r} became {at!r}")
                    for good in inner.values:
                        data = ig.apply(response, path, [good])
                        try:
                            again = json.loads(cls(**data).model_dump_json(by_alias=True))
                        except ve as e:
                            raise Violation("wire value rejected", f"{name} {path}: {good!r}\n{e}")
                        d = oracle.diff(ig.apply(wire, path, [good]), again)
                        if d:
                            raise Violation("wire name changed", f"{name} {path}: {good!r}: {d}")
                    for bad in foreign(inner, ecls) + [0, True, [value]]:
                        try:
                            cls(**ig.apply(response, path, [bad]))
                        except ve:
                            continue
                        raise Violation("foreign value accepted", f"{name} {path}: {bad!r} for {inner.name}")
    return labels


def response_cases():
    return cm.client_cases(schema_opts=dict(enums=(1, 3), objects=(1, 3), interfaces=(0, 1), unions=(0, 1), inputs=(0, 0), args=False, scalars=(0, 0)),
                           doc_opts=dict(vars=False, ops=(1, 2)), responses=1, resp_opts=dict(null_rate=9),
                           extra=lambda *_: {"config": {"create_catchall": False}})


# ---------------------------------------------------------------- enum positions in variables

def run_variables(case):
    labels = set()
    ve = cm.validation_error()
    schema = build_schema(case["sdl"])
    with cm.load(case, ["enums", "inputs", "fragments", "operations"]) as mod:
        for op in case["ops"]:
            cls = cm.operation(mod, op["name"]).Arguments
            types = {n: type_from_ast(schema, parse_type(v["type"])) for n, v in op["vars"].items()}
            for values in case["calls"][op["name"]]:
                for n, v in values.items():
                    for path, t, value, default in ig.places(types[n], v, (n,)):
                        inner = get_nullable_type(t)
                        if not isinstance(inner, GraphQLEnumType) or value is None:
                            continue
                        labels.add("nt")
                        ecls = cm.enum_class(mod, inner.name)
                        if ecls is None:
                            raise Violation("missing enum", inner.name)
                        for good in inner.values:
                            for as_value in (good, ecls(good)):
                                data = ig.apply(values, path, [as_value])
                                obj = cls(**data)
                                for wire in (oracle.dump(obj, exclude_unset=True), json.loads(json.dumps(obj.model_dump(by_alias=True, exclude_unset=True), default=str))):
                                    at = wire
                                    for p in path:
                                        at = at[p]
                                    if at != good or type(at) is not str:
                                        raise Violation("wire name changed", f"{op['name']} {path}: {as_value!r} became {at!r}")
                        for bad in foreign(inner, ecls) + [0, True]:
                            try:
                                cls(**ig.apply(values, path, [bad]))
                            except ve:
                                continue
                            raise Violation("foreign value accepted", f"{op['name']} {path}: {bad!r} for {inner.name}")
    return labels


def variable_cases():
    def extra(draw, model, schema, case):
        return {"calls": {o["name"]: vc.assignments(draw, schema, o, model["scalars"], 2) for o in case["ops"]}}

    def types(draw, model):
        return [t["name"] for t in model["types"] if t["kind"] in ("enum", "input")]
    return vc.cases({"enums": (1, 3), "inputs": (0, 3), "scalars": (0, 0)}, extra=extra, types=types)


SUBS = [
    Sub("members", member_cases, run_members, quick=500, rule="1-3 enums of 1-12 values with keyword, builtin, underscore, dunder-like, str-method, case-variant and colliding names, all styler stacks; "
        "non-trivial: a name python or Enum treats specially"),
    Sub("responses", response_cases, run_responses, quick=350, rule="enum values at every position of random responses replaced by each wire name and by near misses; non-trivial: a non-null enum position"),
    Sub("variables", variable_cases, run_variables, quick=500, rule="enum values at every position of variables and inputs, as strings and members, and near misses; non-trivial: a non-null enum position"),
]
ASSUMPTIONS = ["enum types with distinct generated class names"]
