"""C06: input objects serialise to the wire form the schema declares."""
import json

from graphql import GraphQLNonNull, build_schema
from hypothesis import assume, strategies as st

import common as cm
import inputgen as ig
import oracle
import schemagen as sg
import sut
from core import Sub
from oracle import Violation
from pyvalues import HOWS, build, plain, shape

def top(mod, cls, t, value, how):
    if how == "json":
        return cls.model_validate_json(json.dumps(value))
    if how == "instances":
        return build(mod, t, value, how)
    return cls(**build(mod, t, value, how))


def run(case):
    labels = set()
    schema = build_schema(case["sdl"])
    ve = cm.validation_error()
    with cm.load(case, ["enums", "inputs"] if not case.get("objects") else ["enums", "inputs", "objects"]) as mod:
        for item in case["values"]:
            t = schema.type_map[item["type"]]
            cls = cm.input_class(mod, t.name)
            if cls is None:
                raise Violation("missing input", t.name)
            aliases = oracle.fields_by_alias(cls)
            if set(aliases) != set(t.fields):
                raise Violation("wrong fields", f"{t.name}: {sorted(aliases)} for {sorted(t.fields)}")
            how = item["how"]
            if how == "names" and not by_name(case):
                how = "instances"
            try:
                obj = top(mod, cls, t, item["value"], how)
            except ve as e:
                raise Violation("valid value rejected", f"{t.name} ({how}): {cm.short(item['value'])}\n{e}")
            wire = oracle.dump(obj, exclude_unset=True)
            d = oracle.diff(item["value"], wire)
            if d:
                raise Violation("wire value differs", f"{t.name} ({how}): {d}\n{cm.short(item['value'])} became {cm.short(wire)}")
            python = plain(obj.model_dump(by_alias=True, exclude_unset=True))
            d = oracle.diff(shape(item["value"]), shape(python))
            if d:
                raise Violation("python dump differs", f"{t.name}: {d}")
            again = cls.model_validate(wire)
            if oracle.diff(wire, oracle.dump(again, exclude_unset=True)):
                raise Violation("round trip", f"{t.name}: {wire}")
            labels.add(item["how"])
            if any(isinstance(v, (dict, list)) for v in item["value"].values()):
                labels.add("nt")
            if len(item["value"]) < len(t.fields):
                labels.add("omitted")
            if None in item["value"].values():
                labels.add("null")
            if item["bad"]:
                path, new = item["bad"]
                bad = ig.apply(item["value"], path, new)
                try:
                    cls.model_validate(bad) if item["how"] != "json" else cls.model_validate_json(json.dumps(bad))
                except ve:
                    labels.add("rejected")
                else:
                    raise Violation("invalid value accepted", f"{t.name}: {cm.short(bad)} (changed at {path})")
    return labels


def by_name(case):
    o = case["config"].get("options") or {}
    return bool(o.get("enabled") and o.get("allow_population_by_field_name") and "input" in o.get("types", ["input"]))


OPTIONS = [{}, {"enabled": True, "allow_population_by_field_name": True}, {"enabled": True, "extra": "forbid"},
           {"enabled": True, "extra": "forbid", "allow_population_by_field_name": True, "validate_assignment": True}]


@st.composite
def cases(draw, **kw):
    opts = dict(objects=(1, 1), interfaces=(0, 0), unions=(0, 0), inputs=(1, 4), enums=(0, 2), scalars=(0, 2), mutation=False, subscription=False,
                max_fields=5)
    opts.update(kw)
    model = draw(sg.schema_models(opts))
    inputs = [t["name"] for t in model["types"] if t["kind"] == "input"]
    assume(inputs)
    sdl = sg.print_schema(model)
    schema = build_schema(sdl)
    gen = ig.InputGen(draw, model["scalars"])
    values = []
    for name in inputs:
        for _ in range(2):
            t = schema.type_map[name]
            v = gen.nn(t, 0)
            bad = ig.corrupt(draw, GraphQLNonNull(t), v, model["scalars"]) if draw(st.booleans()) else None
            values.append({"type": name, "value": v, "how": draw(st.sampled_from(HOWS)), "bad": list(bad) if bad and bad[0] else None})
    return {"sdl": sdl, "files": None, "scalars": model["scalars"], "stylers": draw(cm.styler_stacks), "values": values,
            "objects": draw(st.integers(0, 3)) == 0,
            "config": {"options": draw(st.sampled_from(OPTIONS)), **({"freeze": {"enabled": True}} if draw(st.integers(0, 3)) == 0 else {})}}


SUBS = [
    Sub("values", cases, run, quick=1500, rule="random input types (recursive, nested lists, enums, custom scalars, defaults, keyword names) and valid values built "
        "as wire kwargs, JSON, by Python name and as nested instances, plus one forbidden change each; non-trivial: a value with a nested object or list"),
]
ASSUMPTIONS = ["by-name construction is checked where options.allow_population_by_field_name enables it"]
