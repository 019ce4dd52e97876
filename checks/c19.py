"""C19: object models mirror the schema's object types."""
import copy
import json

from graphql import (GraphQLEnumType, GraphQLInterfaceType, GraphQLList, GraphQLNonNull, GraphQLObjectType, GraphQLScalarType, GraphQLUnionType,
                     build_schema, get_named_type)
from hypothesis import assume, strategies as st

import c03
import common as cm
import docgen as dg
import oracle
import schemagen as sg
from core import Sub
from oracle import Violation

PLUGINS = [["enums", {"skip_unreferenced": False}], "objects"]
SCALARS = ["str", "int", "float", "bool", "typing.Any", "datetime.datetime", "uuid.UUID", "decimal.Decimal", "dict"]


class Unbuildable(Exception):
    pass


class ValueGen:
    """complete values of output types; every composite carries its type under the key "" """
    def __init__(self, draw, schema, scalars, null_rate=5, omit=4):
        self.draw, self.schema, self.scalars, self.null_rate, self.omit = draw, schema, scalars, null_rate, omit
        self.leafs = dg.ResponseGen(draw, None, scalars)

    def value(self, t, depth):
        if isinstance(t, GraphQLNonNull):
            return self.nn(t.of_type, depth)
        if depth > 3 and not isinstance(t, (GraphQLScalarType, GraphQLEnumType)):
            return None
        return None if self.draw(st.integers(0, self.null_rate)) == 0 else self.nn(t, depth)

    def nn(self, t, depth):
        if depth > 9:
            raise Unbuildable()
        if isinstance(t, GraphQLList):
            return [self.value(t.of_type, depth + 1) for _ in range(0 if depth > 3 else self.draw(st.integers(0, 2)))]
        if isinstance(t, (GraphQLScalarType, GraphQLEnumType)):
            return self.leafs.leaf(t)
        obj = t if isinstance(t, GraphQLObjectType) else self.draw(st.sampled_from(list(self.schema.get_possible_types(t))))
        out = {"": obj.name}
        for name, f in obj.fields.items():
            if isinstance(f.type, GraphQLNonNull) or self.draw(st.integers(0, self.omit)):
                out[name] = self.value(f.type, depth + 1)
        return out


def wire(v):
    if isinstance(v, dict) and "" in v:
        return {k: wire(x) for k, x in v.items() if k}
    return [wire(x) for x in v] if isinstance(v, list) else v


def instances(mod, schema, v):
    if isinstance(v, dict) and "" in v:
        return object_class(mod, v[""])(**{k: instances(mod, schema, x) for k, x in v.items() if k})
    return [instances(mod, schema, x) for x in v] if isinstance(v, list) else v


def object_class(mod, name, suffix=""):
    from pydantic import BaseModel
    cls = cm.by_graphql_name(mod, name, BaseModel, (suffix,))
    if cls is None:
        raise Violation("missing type", name)
    return cls


def places(schema, t, v, path=(), abstract=False):
    """(path, type, wire value) of positions that are not below an interface or union"""
    out = [(list(path), t, wire(v))] if path else []
    if isinstance(t, GraphQLNonNull):
        t = t.of_type
    if v is None:
        return out
    if isinstance(t, GraphQLList):
        for i, x in enumerate(v):
            out += places(schema, t.of_type, x, (*path, i))
    elif isinstance(t, GraphQLObjectType):
        for k, x in v.items():
            if k:
                out += places(schema, t.fields[k].type, x, (*path, k))
    return out


def same_classes(mod, obj, v, where, labels, abstract=False):
    from pydantic import BaseModel
    if isinstance(v, dict) and "" in v:
        cls = object_class(mod, v[""])
        if type(obj) is not cls:
            raise Violation("wrong class", f"{where}: {type(obj).__name__} for an object of type {v['']}")
        names = oracle.fields_by_alias(cls)
        for k, x in v.items():
            if k:
                same_classes(mod, getattr(obj, names[k][0]), x, f"{where}.{k}", labels)
    elif isinstance(v, list):
        for i, (o, x) in enumerate(zip(obj, v)):
            same_classes(mod, o, x, f"{where}[{i}]", labels)


def run(case):
    labels = set()
    schema = build_schema(case["sdl"])
    ve = cm.validation_error()
    with cm.load(case, PLUGINS) as mod:
        for name, t in schema.type_map.items():
            if name.startswith("__") or not isinstance(t, (GraphQLObjectType, GraphQLInterfaceType)):
                continue
            cls = object_class(mod, name, "" if isinstance(t, GraphQLObjectType) else "Base")
            fields = oracle.fields_by_alias(cls)
            if set(fields) != set(t.fields):
                raise Violation("wrong fields", f"{name}: {sorted(fields)}, the schema declares {sorted(t.fields)}")
            for k, f in t.fields.items():
                if fields[k][1].is_required() != isinstance(f.type, GraphQLNonNull):
                    raise Violation("requiredness", f"{name}.{k}: {f.type} is {'' if fields[k][1].is_required() else 'not '}required")
            for i in t.interfaces:
                if not issubclass(cls, object_class(mod, i.name, "Base")):
                    raise Violation("inheritance", f"{name} implements {i.name}, {cls.__name__} has bases {[c.__name__ for c in cls.__mro__]}")
                labels.add("implements")
            for i in schema.type_map.values():
                if isinstance(i, GraphQLInterfaceType) and i is not t and i not in t.interfaces and issubclass(cls, object_class(mod, i.name, "Base")):
                    raise Violation("inheritance", f"{name} does not implement {i.name}")
        for item in case["values"]:
            cls = object_class(mod, item["type"])
            data = wire(item["value"])
            labels.add("nt" if any(isinstance(x, (dict, list)) for x in data.values()) else "flat")
            by_name = {n: data[a] for a, (n, _) in oracle.fields_by_alias(cls).items() if a in data}
            try:
                forms = {"instances": instances(mod, schema, item["value"])}
                if not item["abstract"]:
                    forms["data"] = cls(**data)
                    forms["json"] = cls.model_validate_json(json.dumps(data))
            except ve as e:
                raise Violation("valid value rejected", f"{item['type']}: {cm.short(data, 1000)}\n{e}")
            for how, obj in forms.items():
                d = oracle.diff(data, oracle.dump(obj, exclude_unset=True))
                if d:
                    raise Violation("value changed", f"{item['type']} from {how}: {d}\n{cm.short(data, 800)}")
                same_classes(mod, obj, item["value"], item["type"], labels)
            if item["abstract"]:
                labels.add("abstract")
            for path, new in item["bad"]:
                broken = copy.deepcopy(data)
                c03.put(broken, path, new)
                for how in (cls.model_validate, lambda x: cls.model_validate_json(json.dumps(x))):
                    try:
                        how(broken)
                    except ve:
                        continue
                    raise Violation("invalid value accepted", f"{item['type']}: {cm.short(broken, 800)} (changed {path} to {new})")
                labels.add("rejected")
    return labels


def abstract_in(schema, t, v):
    """does the value hold an object at an interface or union position?"""
    if isinstance(t, GraphQLNonNull):
        t = t.of_type
    if v is None or isinstance(t, (GraphQLScalarType, GraphQLEnumType)):
        return False
    if isinstance(t, GraphQLList):
        return any(abstract_in(schema, t.of_type, x) for x in v)
    if not isinstance(t, GraphQLObjectType):
        return True
    return any(abstract_in(schema, t.fields[k].type, x) for k, x in v.items() if k)


def bad_ones(draw, schema, t, v, scalars):
    out = []
    for path, pt, x in places(schema, t, v):
        nonnull = isinstance(pt, GraphQLNonNull)
        inner = pt.of_type if nonnull else pt
        anything = isinstance(inner, GraphQLScalarType) and scalars.get(inner.name) == "typing.Any"
        if nonnull and not anything:
            out.append((path, [None]))
            if isinstance(path[-1], str):
                out.append((path, ["delete"]))
        if x is not None:
            for w in dg.wrong_values(inner, x, scalars)[:4]:
                if not (isinstance(inner, (GraphQLInterfaceType, GraphQLUnionType)) and isinstance(w, list)):
                    out.append((path, [w]))
    return [draw(st.sampled_from(out)) for _ in range(3)] if out else []


@st.composite
def cases(draw, schema_opts=None):
    model = draw(sg.schema_models({**dict(inputs=(0, 1), scalar_py=SCALARS), **(schema_opts or {})}))
    sdl = sg.print_schema(model)
    schema = build_schema(sdl)
    gen = ValueGen(draw, schema, model["scalars"])
    names = [t["name"] for t in model["types"] if t["kind"] == "object"]
    values = []
    for n in draw(st.lists(st.sampled_from(names), min_size=1, max_size=4)):
        t = schema.type_map[n]
        try:
            v = gen.nn(t, 0)
        except Unbuildable:
            continue
        values.append({"type": n, "value": v, "abstract": abstract_in(schema, t, v), "bad": bad_ones(draw, schema, t, v, model["scalars"])})
    return {"sdl": sdl, "files": None, "scalars": model["scalars"], "stylers": draw(st.sampled_from([["default"], [], ["snake"], ["capitalize"], ["capitalize", "snake"]])),
            "values": values}


# ------------------------------------------------------------------ data that fits one type only

def run_resolved(case):
    """raw data at interface and union positions: every concrete type has a required field of its own"""
    labels = set()
    schema = build_schema(case["sdl"])
    ve = cm.validation_error()
    with cm.load(case, PLUGINS) as mod:
        for item in case["values"]:
            cls = object_class(mod, item["type"])
            data = wire(item["value"])
            for how, make in (("data", lambda: cls(**data)), ("json", lambda: cls.model_validate_json(json.dumps(data)))):
                try:
                    obj = make()
                except ve as e:
                    raise Violation("valid value rejected", f"{item['type']}: {cm.short(data, 1000)}\n{e}")
                d = oracle.diff(data, oracle.dump(obj, exclude_unset=True))
                if d:
                    raise Violation("value changed", f"{item['type']} from {how}: {d}\n{cm.short(data, 800)}")
                same_classes(mod, obj, item["value"], item["type"], labels)
            if item["abstract"]:
                labels.add("nt")
    return labels


@st.composite
def resolved(draw):
    model = draw(sg.schema_models(dict(inputs=(0, 0), interfaces=(0, 3), unions=(0, 2), scalar_py=["str", "int", "bool"], args=False)))
    for t in model["types"]:
        if t["kind"] == "object":
            t["fields"].append({"name": "only" + t["name"], "type": "Int!", "args": [], "desc": None, "deprecated": None})
            t["fields"] = list(draw(st.permutations(t["fields"])))
    sdl = sg.print_schema(model)
    schema = build_schema(sdl)
    gen = ValueGen(draw, schema, model["scalars"])
    names = [t["name"] for t in model["types"] if t["kind"] == "object"]
    values = []
    for n in draw(st.lists(st.sampled_from(names), min_size=1, max_size=4)):
        try:
            v = gen.nn(schema.type_map[n], 0)
        except Unbuildable:
            continue
        values.append({"type": n, "value": v, "abstract": abstract_in(schema, schema.type_map[n], v)})
    return {"sdl": sdl, "files": None, "scalars": model["scalars"], "stylers": draw(st.sampled_from([["default"], [], ["snake"], ["capitalize"]])), "values": values}


SUBS = [
    Sub("objects", cases, run, quick=500, rule="random schemas with interface hierarchies, unions, recursion and awkward names under random stylers: fields, requiredness and inheritance of every "
        "object and interface model, values built from data, JSON and nested instances, dumps, and single-point changes the type forbids; non-trivial: a value with lists or objects"),
    Sub("resolved", resolved, run_resolved, quick=400, rule="schemas whose object types each have a required field of their own: raw data at interface and union positions must become the "
        "concrete type's model, losslessly; non-trivial: an object at an interface or union position"),
]
ASSUMPTIONS = ["object models carry no type name: raw data at an abstract position is only judged when it fits a single concrete type",
               "values certainly outside a type are used for rejection (pydantic's lax conversions are not counted)"]
