"""C05: variables reach the wire exactly as given."""
import json

from graphql import GraphQLNonNull, Undefined, build_schema, parse, parse_type, type_from_ast
from graphql.execution.values import get_variable_values
from hypothesis import strategies as st

import common as cm
import inputgen as ig
import oracle
import varcases as vc
from core import Sub
from oracle import Violation
from pyvalues import HOWS, build, plain, shape


def run(case):
    labels = set()
    schema = build_schema(case["sdl"])
    document = parse(cm.case_text(case))
    defs = {d.name.value: d for d in document.definitions}
    ve = cm.validation_error()
    plugins = ["enums", "inputs", "fragments", ["operations", {"arguments_allow_population_by_field_name": case["by_name"]}]]
    with cm.load(case, plugins) as mod:
        for op in case["ops"]:
            args_cls = cm.operation(mod, op["name"]).Arguments
            names = {a: n for a, (n, _) in oracle.fields_by_alias(args_cls).items()}
            if set(names) != set(op["vars"]):
                raise Violation("wrong arguments", f"{op['name']}: {sorted(names)} for {sorted(op['vars'])}")
            types = {n: type_from_ast(schema, parse_type(v["type"])) for n, v in op["vars"].items()}
            for item in case["calls"][op["name"]]:
                given = item["values"]
                coerced = get_variable_values(schema, defs[op["name"]].variable_definitions, given)
                if isinstance(coerced, list):
                    raise AssertionError(f"generator produced invalid variables {given}: {coerced}")
                how = item["how"]
                if how == "json":
                    make = lambda v: args_cls.model_validate_json(json.dumps(v))
                else:
                    make = lambda v: args_cls(**{(names[k] if how == "names" and case["by_name"] and k in names else k):
                                                 (build(mod, types[k], x, "instances" if how == "names" else how) if k in types else x) for k, x in v.items()})
                try:
                    obj = make(given)
                except ve as e:
                    raise Violation("valid variables rejected", f"{op['name']} ({how}): {cm.short(given)}\n{e}")
                wire = oracle.dump(obj, exclude_unset=True)
                d = oracle.diff(given, wire)
                if d:
                    raise Violation("wire variables differ", f"{op['name']} ({how}): {d}\n{cm.short(given)} became {cm.short(wire)}")
                d = oracle.diff(shape(given), shape(plain(obj.model_dump(by_alias=True, exclude_unset=True))))
                if d:
                    raise Violation("python dump differs", f"{op['name']}: {d}")
                labels.add(how)
                if len(given) < len(op["vars"]):
                    labels.add("omitted")
                if None in given.values():
                    labels.add("null")
                if len(op["vars"]) > 1:
                    labels.add("nt")
                for name, v in op["vars"].items():
                    required = isinstance(types[name], GraphQLNonNull) and v["default"] is None
                    if required and case["scalars"].get(types[name].of_type.name if hasattr(types[name].of_type, "name") else "") != "typing.Any":
                        for bad in ({k: x for k, x in given.items() if k != name}, {**given, name: None}):
                            try:
                                args_cls(**bad)
                            except ve:
                                labels.add("rejected")
                            else:
                                raise Violation("required variable missing or null accepted", f"{op['name']}.{name}: {cm.short(bad)}")
                if item["bad"]:
                    name, path, new = item["bad"]
                    bad = {**given, name: ig.apply(given[name], path, new)}
                    try:
                        args_cls(**bad)
                    except ve:
                        labels.add("rejected inside")
                    else:
                        raise Violation("invalid variable accepted", f"{op['name']}.{name}: {cm.short(bad)} (changed at {path})")
    return labels


def extra(draw, model, schema, case):
    calls = {}
    for op in case["ops"]:
        calls[op["name"]] = []
        for given in vc.assignments(draw, schema, op, model["scalars"]):
            bad = None
            if given and draw(st.booleans()):
                name = draw(st.sampled_from(sorted(given)))
                t = type_from_ast(schema, parse_type(op["vars"][name]["type"]))
                if op["vars"][name]["default"] is not None and isinstance(t, GraphQLNonNull):
                    t = t.of_type
                c = ig.corrupt(draw, t, given[name], model["scalars"])
                if c and (c[0] or c[1] != ["delete"]):
                    bad = [name, *c]
            calls[op["name"]].append({"values": given, "how": draw(st.sampled_from(HOWS)), "bad": bad})
    return {"calls": calls, "by_name": draw(st.booleans())}


SUBS = [
    Sub("arguments", lambda: vc.cases(extra=extra), run, quick=1400, rule="random input types and operations with 1-4 variables each (stricter types, "
        "operation and schema defaults, keyword names), three assignments per operation with omissions, nulls and one forbidden change; "
        "non-trivial: at least two variables"),
]
