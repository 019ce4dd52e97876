"""C26: configured scalars drive parsing and serialisation at every position."""
import copy
import inspect
import json
import typing

from graphql import (GraphQLEnumType, GraphQLInputObjectType, GraphQLInterfaceType, GraphQLList, GraphQLNonNull, GraphQLObjectType, GraphQLScalarType, GraphQLUnionType, build_schema,
                     get_named_type, is_required_input_field, parse_type, type_from_ast)
from hypothesis import assume, strategies as st

import basescalars as bs
import common as cm
import docgen as dg
import exec_stub
import inputgen as ig
import oracle
import sut
import varcases as vc
from core import Sub
from oracle import Violation

TECHNIQUE = "property-based testing (Hypothesis): random scalar mappings (standard library and own types, built-ins remapped); every leaf is compared with what a reference says the mapped type makes of the wire value, and back"
BUILTINS = ["Int", "Float", "String", "Boolean", "ID"]


def mapping(draw, names, remap=4):
    out = {n: draw(st.sampled_from(sorted(bs.TYPES))) for n in sorted(names)}
    for b in BUILTINS:
        if draw(st.integers(0, remap)) == 0:
            out[b] = draw(st.sampled_from(sorted(bs.TYPES)))
    return out


def python_of(scalars, t):
    return scalars.get(t.name) or dg.BUILTIN_PY[t.name]


class Leaves:
    """walks values, dumps and wire data together"""

    def __init__(self, scalars, labels):
        self.scalars, self.labels, self.count = scalars, labels, 0

    def leaf(self, t, value, dumped, data, where):
        if isinstance(t, GraphQLEnumType):
            return
        py = python_of(self.scalars, t)
        want = bs.TYPES[py][1](data)
        if type(value) is not type(want) or value != want:
            raise Violation("parsed value", f"{where} ({t} as {py}): {data!r} became {value!r} ({type(value).__name__}), expected {want!r}")
        d = oracle.diff(bs.wire(py, want), dumped)
        if d:
            raise Violation("serialised value", f"{where} ({t} as {py}): {value!r} became {dumped!r}, expected {bs.wire(py, want)!r}")
        if t.name in self.scalars:
            self.labels.update({"nt", py, "built-in" if t.name in BUILTINS else "custom"})

    def field(self, model, dumped, key, where):
        fields = oracle.fields_by_alias(type(model))
        if key not in fields or key not in dumped:
            raise Violation("field missing", f"{where}.{key}: {type(model).__qualname__}, dumped {cm.short(dumped)}")
        return getattr(model, fields[key][0]), dumped[key]


class ResponseLeaves(Leaves):
    def object(self, ref, model, dumped, obj, sets, data, where):
        for key, nodes in ref.collect(obj, sets).items():
            name = nodes[0].name.value
            if name != "__typename":
                value, wire = self.field(model, dumped, key, where)
                self.at(ref, value, wire, obj.fields[name].type, [n.selection_set for n in nodes], data[key], f"{where}.{key}")

    def at(self, ref, value, dumped, t, sets, data, where):
        if isinstance(t, GraphQLNonNull):
            t = t.of_type
        if data is None:
            if value is not None or dumped is not None:
                raise Violation("null", f"{where}: {value!r}, {dumped!r}")
        elif isinstance(t, GraphQLList):
            for i, (v, w, d) in enumerate(zip(value, dumped, data, strict=True)):
                self.at(ref, v, w, t.of_type, sets, d, f"{where}[{i}]")
        elif isinstance(t, (GraphQLObjectType, GraphQLInterfaceType, GraphQLUnionType)):
            self.object(ref, value, dumped, ref.schema.type_map[data["__typename"]], sets, data, where)
        else:
            self.leaf(t, value, dumped, data, where)


class InputLeaves(Leaves):
    def at(self, value, dumped, t, data, where):
        if isinstance(t, GraphQLNonNull):
            t = t.of_type
        if data is None:
            if value is not None or dumped is not None:
                raise Violation("null", f"{where}: {value!r}, {dumped!r}")
        elif isinstance(t, GraphQLList):
            for i, (v, w, d) in enumerate(zip(value, dumped, data, strict=True)):
                self.at(v, w, t.of_type, d, f"{where}[{i}]")
        elif isinstance(t, GraphQLInputObjectType):
            if set(dumped) != set(data):
                raise Violation("fields on the wire", f"{where}: {sorted(dumped)} for {sorted(data)}")
            for k, d in data.items():
                v, w = self.field(value, dumped, k, where)
                self.at(v, w, t.fields[k].type, d, f"{where}.{k}")
        else:
            self.leaf(t, value, dumped, data, where)


def as_python(scalars, t, data):
    """the data with every scalar as the Python value of its mapped type"""
    if isinstance(t, GraphQLNonNull):
        t = t.of_type
    if data is None or isinstance(t, GraphQLEnumType):
        return data
    if isinstance(t, GraphQLList):
        return [as_python(scalars, t.of_type, d) for d in data]
    if isinstance(t, GraphQLInputObjectType):
        return {k: as_python(scalars, t.fields[k].type, d) for k, d in data.items()}
    return bs.TYPES[python_of(scalars, t)][1](data)


def spoil(draw, places, scalars):
    """one leaf with a value its type refuses"""
    options = []
    for path, t, value in places:
        t = t.of_type if isinstance(t, GraphQLNonNull) else t
        if isinstance(t, GraphQLScalarType) and value is not None and t.name in scalars:
            options += [(list(path), [w]) for w in bs.TYPES[scalars[t.name]][2]]
    return draw(st.sampled_from(options)) if options else None


def input_places(t, value, path=()):
    if isinstance(t, GraphQLNonNull):
        t = t.of_type
    yield path, t, value
    if isinstance(t, GraphQLList) and value is not None:
        for i, v in enumerate(value):
            yield from input_places(t.of_type, v, path + (i,))
    elif isinstance(t, GraphQLInputObjectType) and value is not None:
        for k, v in value.items():
            yield from input_places(t.fields[k].type, v, path + (k,))


# ------------------------------------------------------------------ responses
def response_extra(draw, model, schema, doc):
    scalars = mapping(draw, model["scalars"])
    ref = dg.RefDoc(schema, dg.doc_text(doc))
    responses, bad = {}, {}
    for o in doc["ops"]:
        gen = dg.ResponseGen(draw, ref, scalars, null_rate=8)
        responses[o["name"]] = [gen.operation(ref.ops[o["name"]]) for _ in range(2)]
        bad[o["name"]] = spoil(draw, [p[:3] for p in dg.positions(ref, ref.ops[o["name"]], responses[o["name"]][0])], scalars)
    return {"scalars": scalars, "responses": responses, "bad": bad, "config": {"create_catchall": False}}


def run_responses(case):
    labels, schema = set(), build_schema(case["sdl"])
    ref = dg.RefDoc(schema, cm.case_text(case))
    leaves = ResponseLeaves(case["scalars"], labels)
    with cm.load(case) as mod:
        classes = cm.operations(mod)
        for op in case["ops"]:
            cls, node = classes[op["name"]], ref.ops[op["name"]]
            for i, data in enumerate(case["responses"][op["name"]]):
                model = cls.model_validate_json(json.dumps(data)) if i else cls.model_validate(copy.deepcopy(data))
                leaves.object(ref, model, oracle.dump(model), ref.root(node), [node.selection_set], data, op["name"])
            bad = case["bad"][op["name"]]
            if bad:
                data = ig.apply(case["responses"][op["name"]][0], bad[0], bad[1])
                try:
                    cls.model_validate(data)
                except cm.validation_error():
                    labels.add("refused")
                else:
                    raise Violation("value of another type accepted", f"{op['name']} at {bad[0]}: {bad[1][0]!r}")
    return labels


# ------------------------------------------------------------------ variables and inputs
def input_extra(draw, model, schema, case):
    scalars = mapping(draw, model["scalars"])
    assignments, bad, inputs = {}, {}, []
    for op in case["ops"]:
        assignments[op["name"]] = vc.assignments(draw, schema, op, scalars, 2)
        given = assignments[op["name"]][0]
        places = [((n, *p), t, v) for n, value in given.items() for p, t, v in input_places(type_from_ast(schema, parse_type(op["vars"][n]["type"])), value)]
        bad[op["name"]] = spoil(draw, places, scalars)
    gen = ig.InputGen(draw, scalars)
    for n, t in schema.type_map.items():
        if isinstance(t, GraphQLInputObjectType):
            inputs.append({"type": n, "value": gen.nn(t, 0)})
    return {"scalars": scalars, "assignments": assignments, "bad": bad, "inputs": inputs}


def run_inputs(case):
    labels, schema = set(), build_schema(case["sdl"])
    leaves = InputLeaves(case["scalars"], labels)
    ve = cm.validation_error()
    with cm.load(case, [["enums", {"skip_unreferenced": False}], ["inputs", {"skip_unreferenced": False}], "fragments", "operations"], skip_forwards=False) as mod:
        classes = cm.operations(mod)
        for op in case["ops"]:
            arguments = classes[op["name"]].Arguments
            types = {n: type_from_ast(schema, parse_type(v["type"])) for n, v in op["vars"].items()}
            names = {a: n for a, (n, _) in oracle.fields_by_alias(arguments).items()}
            for values in case["assignments"][op["name"]]:
                for how in ("wire", "json", "python"):
                    if how == "wire":
                        model = arguments(**copy.deepcopy(values))
                    elif how == "json":
                        model = arguments.model_validate_json(json.dumps(values))
                    else:
                        model = arguments(**{k: as_python(case["scalars"], types[k], v) for k, v in values.items()})
                    dumped = oracle.dump(model, exclude_unset=True)
                    if set(dumped) != set(values):
                        raise Violation("variables on the wire", f"{op['name']} from {how}: {sorted(dumped)} for {sorted(values)}")
                    for k, data in values.items():
                        leaves.at(getattr(model, names[k]), dumped[k], types[k], data, f"{op['name']} ${k} from {how}")
            bad = case["bad"][op["name"]]
            if bad:
                try:
                    arguments(**ig.apply(case["assignments"][op["name"]][0], bad[0], bad[1]))
                except ve:
                    labels.add("refused")
                else:
                    raise Violation("value of another type accepted", f"{op['name']} at {bad[0]}: {bad[1][0]!r}")
        for item in case["inputs"]:
            cls, t = cm.input_class(mod, item["type"]), schema.type_map[item["type"]]
            for how in ("wire", "python"):
                model = cls(**(copy.deepcopy(item["value"]) if how == "wire" else as_python(case["scalars"], t, item["value"])))
                leaves.at(model, oracle.dump(model, exclude_unset=True), t, item["value"], f"{item['type']} from {how}")
    return labels


# ------------------------------------------------------------------ coercible parameters
def coercible_extra(draw, model, schema, case):
    scalars = mapping(draw, model["scalars"], 2)
    everywhere, funcs, inputs = {}, {}, {}
    for name in sorted({*scalars, *BUILTINS}):
        options = bs.COERCIBLE.get(scalars.get(name) or dg.BUILTIN_PY[name])
        if options and name in schema.type_map or options and name in scalars:
            for target in (everywhere, funcs, inputs):
                if draw(st.integers(0, 2)) == 0:
                    target[name] = draw(st.sampled_from(options))[0]
    texts = [n for n, t in schema.type_map.items() if isinstance(t, GraphQLInputObjectType) and draw(st.integers(0, 2)) == 0]
    gen = ig.InputGen(draw, scalars)
    return {"scalars": scalars, "coercible": [everywhere, funcs, inputs], "texts": texts, "calls": {op["name"]: vc.assignments(draw, schema, op, scalars, 2) for op in case["ops"]},
            "values": [{"type": n, "value": gen.nn(t, 0)} for n, t in schema.type_map.items() if isinstance(t, GraphQLInputObjectType)],
            "config": {"coercible_scalars": everywhere, "coercible_inputs": {n: "basescalars.Text" for n in texts}, "additional_bases": {n: ["basescalars.FromText"] for n in texts}}}


def coerced(case, coercible, t, data):
    """(what a caller passes, what is due on the wire)"""
    if isinstance(t, GraphQLNonNull):
        t = t.of_type
    if data is None:
        return None, None
    if isinstance(t, GraphQLList):
        pairs = [coerced(case, coercible, t.of_type, d) for d in data]
        return [a for a, _ in pairs], [b for _, b in pairs]
    if isinstance(t, GraphQLInputObjectType):
        wire = settle(case, t, data)
        return (bs.Text(json.dumps(data)) if t.name in case["texts"] else data), wire
    if isinstance(t, GraphQLScalarType) and t.name in coercible:
        py = python_of(case["scalars"], t)
        values = dict(bs.COERCIBLE[py])[coercible[t.name]]
        return values[0]
    return data, settle(case, t, data)


def settle(case, t, data):
    """the wire data as the mapped types write it"""
    if isinstance(t, GraphQLNonNull):
        t = t.of_type
    if data is None or isinstance(t, GraphQLEnumType):
        return data
    if isinstance(t, GraphQLList):
        return [settle(case, t.of_type, d) for d in data]
    if isinstance(t, GraphQLInputObjectType):
        return {k: settle(case, t.fields[k].type, d) for k, d in data.items()}
    py = python_of(case["scalars"], t)
    return bs.wire(py, bs.TYPES[py][1](data))


def resolve(path):
    if "." not in path:
        return {"str": str, "int": int, "float": float, "bool": bool, "dict": dict}[path]
    module, name = path.rsplit(".", 1)
    return getattr(__import__(module), name)


def leaf_types(hint):
    if typing.get_origin(hint) is typing.Annotated:
        return {hint}
    args = [a for a in typing.get_args(hint) if a is not type(None)]
    return {hint} if not args else set().union(*map(leaf_types, args))


def check_hint(case, coercible, f, p, t, hints):
    named, have = get_named_type(t), leaf_types(hints[p])
    if isinstance(named, GraphQLScalarType):
        want = resolve(coercible[named.name] if named.name in coercible else python_of(case["scalars"], named))
        if want not in have:
            raise Violation("parameter type", f"{f.__name__}({p}) of {t}: {hints[p]} has no {want}")
    elif isinstance(named, GraphQLInputObjectType) and named.name in case["texts"] and bs.Text not in have:
        raise Violation("parameter type", f"{f.__name__}({p}) of {t}: {hints[p]} has no Text")


def run_coercible(case):
    labels, schema = set(), build_schema(case["sdl"])
    everywhere, in_funcs, in_inputs = case["coercible"]
    funcs = {"definitions": [{"type": k, "is_async": False, "use": "exec_stub.vp_execute"} for k in ("query", "mutation")], "collapse_lonely": False, "prepend_sync": "call_", "coercible_scalars": in_funcs}
    unreferenced = {"skip_unreferenced": False}
    plugins = [["enums", unreferenced], ["inputs", unreferenced], "fragments", "operations", ["funcs", funcs], ["input_funcs", {**unreferenced, "prepend": "new_", "coercible_scalars": in_inputs}]]
    with cm.load(case, plugins) as mod:
        functions = {cm.squash(n): f for n, f in vars(mod.mod).items() if inspect.isfunction(f) and f.__module__ == mod.name}
        coercible = {**everywhere, **in_funcs}
        for op in case["ops"]:
            f, cls = functions[cm.squash("call_" + op["name"])], cm.operation(mod, op["name"])
            hints = typing.get_type_hints(f, include_extras=True)
            params = {n: next(p for p in inspect.signature(f).parameters if cm.squash(p) == cm.squash(n)) for n in op["vars"]}
            types = {n: type_from_ast(schema, parse_type(v["type"])) for n, v in op["vars"].items()}
            for n, p in params.items():
                check_hint(case, coercible, f, p, types[n], hints)
            for values in case["calls"][op["name"]]:
                pairs = {n: coerced(case, coercible, types[n], v) for n, v in values.items()}
                exec_stub.reset(None)
                f(**{params[n]: given for n, (given, _) in pairs.items()})
                (args, _), = exec_stub.calls
                try:
                    wire = oracle.dump(cls.Arguments(**args[-1]), exclude_unset=True)
                except cm.validation_error() as e:
                    raise Violation("coercible value refused", f"{f.__name__}({pairs}): {e}")
                d = oracle.diff({n: due for n, (_, due) in pairs.items()}, wire)
                if d:
                    raise Violation("wire value", f"{f.__name__}({pairs}): {d}")
                mark(labels, case, coercible, types, values, "function")
        coercible = {**everywhere, **in_inputs}
        for item in case["values"]:
            t = schema.type_map[item["type"]]
            f = functions[cm.squash("new_" + t.name)] if cm.squash("new_" + t.name) in functions else functions[cm.squash("new_" + t.name + "In")]
            cls = cm.input_class(mod, t.name)
            names = {a: n for a, (n, _) in oracle.fields_by_alias(cls).items()}
            hints = typing.get_type_hints(f, include_extras=True)
            for k, field in t.fields.items():
                check_hint(case, coercible, f, names[k], field.type, hints)
            pairs = {k: coerced(case, coercible, t.fields[k].type, v) for k, v in item["value"].items()}
            try:
                wire = oracle.dump(f(**{names[k]: given for k, (given, _) in pairs.items()}), exclude_unset=True)
            except cm.validation_error() as e:
                raise Violation("coercible value refused", f"{f.__name__}({pairs}): {e}")
            d = oracle.diff({k: due for k, (_, due) in pairs.items()}, wire)
            if d:
                raise Violation("wire value", f"{f.__name__}({pairs}): {d}")
            mark(labels, case, coercible, {k: x.type for k, x in t.fields.items()}, item["value"], "factory")
    return labels


def mark(labels, case, coercible, types, values, what):
    for n, v in values.items():
        name = get_named_type(types[n]).name
        if v is not None and name in coercible:
            labels |= {"nt", what, "built-in" if name in BUILTINS else "custom"}
        if v is not None and name in case["texts"]:
            labels |= {"nt", "input as text"}


INPUTS = {"scalars": (0, 2), "inputs": (0, 3)}
SUBS = [
    Sub("responses", lambda: cm.client_cases(schema_opts=dict(scalars=(0, 3), inputs=(0, 1)), doc_opts=dict(vars=False, root_typename=False), responses=0, extra=response_extra), run_responses, quick=900,
        rule="responses parsed from objects and from JSON text under random scalar mappings; non-trivial: a leaf of a mapped scalar"),
    Sub("inputs", lambda: vc.cases(INPUTS, extra=input_extra), run_inputs, quick=900, rule="variables and inputs built from wire values, JSON text and Python values; non-trivial: a leaf of a mapped scalar"),
    Sub("coercible", lambda: vc.cases({**INPUTS, "scalars": (1, 3)}, kinds=("query", "mutation"), extra=coercible_extra), run_coercible, quick=700,
        rule="operation functions and input factories called with values of coercible types; non-trivial: such a value is passed"),
]
ASSUMPTIONS = ["mapped types are importable, validated by pydantic and have distinct class names", "coercible types are such that the mapped type takes their values (the model does the coercion)"]
