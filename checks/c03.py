"""C03: response models are exactly as strict as the schema."""
import copy
import json

from graphql import GraphQLInterfaceType, GraphQLNonNull, GraphQLScalarType, GraphQLUnionType, get_named_type
from hypothesis import strategies as st

import common as cm
import docgen as dg
from core import Sub
from oracle import Violation


def put(data, path, value):
    for p in path[:-1]:
        data = data[p]
    if value == ["delete"]:
        del data[path[-1]]
    else:
        data[path[-1]] = value[0]


def mutations(draw, model, schema, doc, catchall, count):
    """single-point corruptions of conforming responses, each with the verdict the schema implies"""
    text = dg.doc_text(doc)
    ref = dg.RefDoc(schema, text)
    out = []
    scalars = model["scalars"]
    for o in doc["ops"]:
        op = ref.ops[o["name"]]
        response = dg.ResponseGen(draw, ref, scalars, null_rate=9).operation(op)
        places = dg.positions(ref, op, response)
        for _ in range(count if places else 0):
            path, t, value, under, exact = draw(st.sampled_from(places))
            if not exact:
                continue  # selected on an interface that declares the field with a wider type
            nonnull = isinstance(t, GraphQLNonNull)
            inner = t.of_type if nonnull else t
            anything = isinstance(inner, GraphQLScalarType) and scalars.get(inner.name) == "typing.Any"
            named = isinstance(path[-1], str)
            kinds = ["null", "wrong", "wrong"]
            if nonnull and named:
                kinds.append("missing")
            if isinstance(inner, GraphQLUnionType) and value is not None:
                kinds += ["unknown type", "unknown type"]
            kind = draw(st.sampled_from(kinds))
            if kind == "null":
                if anything and nonnull:
                    continue
                expect = "reject" if nonnull else "accept"
                new = [None]
            elif kind == "missing":
                if anything:
                    continue
                expect, new = "reject", ["delete"]
            elif kind == "unknown type":
                expect, new = "reject", [dict(value, __typename="NoSuchType")]
            else:
                if value is None:
                    continue
                wrong = dg.wrong_values(inner, value, scalars)
                if not wrong:
                    continue
                expect, new = "reject", [draw(st.sampled_from(wrong))]
            if expect == "reject" and catchall and under:
                continue  # an interface value may fall back to the catch-all class, by configuration
            out.append({"op": o["name"], "path": path, "new": new, "expect": expect, "kind": kind, "response": response, "type": str(t)})
    return out


def run(case):
    labels = set()
    ve = cm.validation_error()
    with cm.load(case) as mod:
        ops = cm.operations(mod)
        for m in case["mutations"]:
            cls = ops.get(m["op"])
            if cls is None:
                raise Violation("missing operation", m["op"])
            data = copy.deepcopy(m["response"])
            put(data, m["path"], m["new"])
            try:
                if case["how"]:
                    cls.model_validate_json(json.dumps(data))
                else:
                    cls(**data)
                verdict = "accept"
            except ve:
                verdict = "reject"
            if verdict != m["expect"]:
                raise Violation(f"{m['kind']} {verdict}ed", f"{m['op']}: at {m['path']} of declared type {m['type']} the value "
                                f"{'is absent' if m['new'] == ['delete'] else cm.short(m['new'][0])}; expected {m['expect']}\n{cm.short(m['response'], 1500)}")
            labels.add(m["kind"] + " " + m["expect"])
            if m["expect"] == "reject":
                labels.add("nt")
            if any(isinstance(p, int) for p in m["path"]):
                labels.add("in list")
            if len(m["path"]) > 1:
                labels.add("nested")
    return labels


def extra(draw, model, schema, doc):
    catchall = draw(st.booleans())
    return {"how": draw(st.booleans()), "config": {"create_catchall": catchall},
            "mutations": mutations(draw, model, schema, doc, catchall, 4)}


def strategy():
    return cm.client_cases(doc_opts=dict(conditions=True), responses=0, extra=extra)


def strategy_lists():
    """deeper list nesting, leaf-heavy"""
    return cm.client_cases(schema_opts=dict(objects=(1, 2), interfaces=(0, 0), unions=(0, 1), inputs=(0, 0), args=False, enums=(1, 2), scalars=(0, 2)),
                           doc_opts=dict(depth=2, frags=(0, 1), ops=(1, 1), vars=False, conditions=True), responses=0, extra=extra)


SHADOWING = ["schema", "json", "copy", "validate", "construct", "dict", "fields", "model_fields", "model_dump", "parse_obj"]


def strategy_inherited():
    """interfaces whose fields are named like attributes of the generated classes' bases"""
    return cm.client_cases(schema_opts=dict(objects=(1, 3), interfaces=(1, 2), unions=(0, 0), inputs=(0, 0), args=False, enums=(0, 1), scalars=(0, 0), awkward_fields=SHADOWING, awkward_weight=1),
                           doc_opts=dict(depth=3, vars=False), responses=0, extra=extra_inherited)


def extra_inherited(draw, model, schema, doc):
    return {"how": draw(st.booleans()), "config": {"create_catchall": False}, "mutations": mutations(draw, model, schema, doc, False, 6)}


SUBS = [
    Sub("mutated", strategy, run, quick=800, rule="random schema, documents and conforming responses with one position changed (null, missing, unknown "
        "enum value, wrong kind of scalar/list/object, unknown union member); non-trivial: a change the schema forbids"),
    Sub("leaves", strategy_lists, run, quick=500, rule="the same over leaf-heavy schemas with nested lists, enums and custom scalars"),
    Sub("inherited", strategy_inherited, run, quick=400, rule="the same over interfaces whose fields are named like attributes of pydantic models"),
]
ASSUMPTIONS = ["values certainly outside a scalar's type are used (pydantic's lax conversions such as '5' for Int are not counted as violations)",
               "with create_catchall, positions below an interface may fall back to the catch-all class and are not mutated towards rejection"]
