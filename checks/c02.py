"""C02: every conforming response is parsed without loss."""
import enum
import json

from graphql import (GraphQLInterfaceType, GraphQLUnionType, build_schema, get_named_type)
from hypothesis import strategies as st

import common as cm
import docgen as dg
import oracle
from core import Sub
from oracle import Violation


def parse_with(cls, response, how):
    if how == 0:
        return cls(**response)
    if how == 1:
        return cls.model_validate(response)
    return cls.model_validate_json(json.dumps(response))


def check_tree(obj, data, path, schema, labels):
    """parsed value against the response: classes at abstract positions, attribute access by wire name"""
    from pydantic import BaseModel
    if isinstance(data, dict) and isinstance(obj, BaseModel):
        by_alias = oracle.fields_by_alias(type(obj))
        if set(by_alias) != set(data):
            raise Violation("wrong fields", f"{path}: {type(obj).__name__} exposes {sorted(by_alias)}, the response selects {sorted(data)}")
        if "__typename" in data and "__typename" in by_alias:
            name = by_alias["__typename"][0]
            if getattr(obj, name) != data["__typename"]:
                raise Violation("wrong typename", f"{path}: {getattr(obj, name)!r} for {data['__typename']!r}")
            f = type(obj).model_fields[name]
            lit = getattr(f.annotation, "__args__", ())
            if lit and tuple(lit) != (data["__typename"],):
                raise Violation("wrong class", f"{path}: {type(obj).__name__} for an object of type {data['__typename']}")
            if not lit and path != "$":
                raise Violation("wrong class", f"{path}: fallback class {type(obj).__name__} for the known type {data['__typename']}")
        for alias, (name, _) in by_alias.items():
            check_tree(getattr(obj, name), data[alias], f"{path}.{alias}", schema, labels)
            if data[alias] == dg.LEFT_OUT and name in obj.model_fields_set:
                raise Violation("left out field", f"{path}.{alias} counts as set")
    elif data == dg.LEFT_OUT:
        labels.add("left out")
        if obj is not None:
            raise Violation("left out field", f"{path}: {obj!r} for a field that was left out")
    elif isinstance(data, list):
        if not isinstance(obj, (list, tuple)) or len(obj) != len(data):
            raise Violation("list", f"{path}: {obj!r} for {data!r}")
        for i, (o, d) in enumerate(zip(obj, data)):
            check_tree(o, d, f"{path}[{i}]", schema, labels)
    elif data is None and obj is not None:
        raise Violation("null", f"{path}: {obj!r} for null")
    elif data is not None and obj is None:
        raise Violation("value lost", f"{path}: None for {data!r}")
    elif isinstance(obj, enum.Enum):
        labels.add("enum")
        if obj.value != data:
            raise Violation("enum", f"{path}: {obj!r} for {data!r}")
    elif isinstance(data, dict) and isinstance(obj, dict):
        d = oracle.diff(obj, data, path)
        if d:
            raise Violation("value changed", d)
    elif isinstance(obj, BaseModel):
        raise Violation("kind", f"{path}: model for {data!r}")


def run(case):
    labels = set()
    schema = build_schema(case["sdl"])
    ve = cm.validation_error()
    with cm.load(case) as mod:
        ops = cm.operations(mod)
        for name, responses in case["responses"].items():
            cls = ops.get(name)
            if cls is None:
                raise Violation("missing operation", name)
            for marked in responses:
                r = dg.strip(marked)
                try:
                    obj = parse_with(cls, r, case["how"])
                except ve as e:
                    raise Violation("conforming response rejected", f"{name}: {cm.short(r, 1500)}\n{e}")
                check_tree(obj, marked, "$", schema, labels)
                d = oracle.diff(r, oracle.dump(obj, exclude_unset=True))
                if d:
                    raise Violation("value lost on the way back", f"{name}: {d}\nresponse {cm.short(r, 1500)}")
                for again in (cls.model_validate(oracle.dump(obj)), cls.model_validate_json(obj.model_dump_json(by_alias=True))):
                    d = oracle.diff(oracle.dump(obj), oracle.dump(again))
                    if d:
                        raise Violation("round trip", f"{name}: {d}")
                stats(r, labels)
    if "... on" in cm.case_text(case):
        labels.add("inline")
    if "fragment " in cm.case_text(case):
        labels.add("fragment")
    return labels


def stats(r, labels):
    if isinstance(r, dict):
        if "__typename" in r:
            labels.add("nested")
            labels.add("nt")
        for v in r.values():
            stats(v, labels)
    elif isinstance(r, list):
        labels.add("list")
        if r and isinstance(r[0], list):
            labels.add("nested list")
        for v in r:
            stats(v, labels)
    elif r is None:
        labels.add("null")


def extra(draw, model, schema, doc):
    return {"how": draw(st.integers(0, 2)), "config": {"create_catchall": draw(st.booleans())}}


def strategy():
    return cm.client_cases(doc_opts=dict(conditions=True), responses=2, extra=extra, resp_opts=dict(mark=True))


def strategy_abstract():
    return cm.client_cases(schema_opts=dict(interfaces=(1, 2), unions=(1, 2), objects=(2, 4), inputs=(0, 0), args=False, max_fields=3),
                           doc_opts=dict(depth=4, frags=(1, 4), ops=(1, 2), width=3, conditions=True), responses=3, extra=extra, resp_opts=dict(mark=True))


SUBS = [
    Sub("responses", strategy, run, quick=900,
        rule="random schema and documents; responses are executed by a reference implementation of the specification's CollectFields and "
             "value completion with random nulls, list lengths and concrete types; non-trivial: a response with nested objects"),
    Sub("abstract", strategy_abstract, run, quick=500,
        rule="the same, biased to interfaces, unions, fragments and inline fragments"),
]
