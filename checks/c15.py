"""C15: freezing and model options take effect where configured, and nowhere else."""
import copy
import enum
import json

from graphql import (GraphQLEnumType, GraphQLInterfaceType, GraphQLList, GraphQLNonNull, GraphQLObjectType, GraphQLScalarType, GraphQLUnionType,
                     build_schema, get_named_type, parse_type, type_from_ast)
from graphql.language import ast as gast
from hypothesis import strategies as st

import c03
import common as cm
import docgen as dg
import inputgen as ig
import oracle
import pyvalues as pv
import sut
import varcases as vc
from core import Sub
from oracle import Violation

KINDS = ["input", "fragment", "object", "query", "mutation", "subscription"]


# ------------------------------------------------------------------ what the configuration says

def selected(setting, kind, typename):
    """True / False / None (undecided: an operation has no type name)"""
    if not setting.get("enabled"):
        return False
    if kind not in setting.get("types", ["input", "fragment", "object"]):
        return False
    if typename is None:
        return None if setting.get("include") or setting.get("exclude") else True
    if typename in (setting.get("exclude") or ()):
        return False
    return not (setting.get("include") and typename not in setting["include"])


def verdict(setting, candidates):
    """candidates: (kind, typename) pairs, each of which may be the model a class derives from"""
    found = {selected(setting, k, t) for k, t in candidates}
    return found.pop() if len(found) == 1 else None


# ------------------------------------------------------------------ the models of a parsed response

def walk(ref, op, parsed, data):
    """(model, candidates, wire data, object type, exact position?) for every model of a parsed response"""
    out = []

    def fields(model, obj, selsets, value):
        names = oracle.fields_by_alias(type(model))
        for key, nodes in ref.collect(obj, selsets).items():
            if nodes[0].name.value == "__typename":
                continue
            at(getattr(model, names[key][0]), obj.fields[nodes[0].name.value].type, nodes, value[key])

    def at(model, t, nodes, value):
        if value is None:
            return
        if isinstance(t, GraphQLNonNull):
            t = t.of_type
        if isinstance(t, GraphQLList):
            for m, v in zip(model, value):
                at(m, t.of_type, nodes, v)
        elif isinstance(t, (GraphQLObjectType, GraphQLInterfaceType, GraphQLUnionType)):
            obj = ref.schema.type_map[value["__typename"]]
            spreads = any(not isinstance(s, gast.FieldNode) for n in nodes for s in n.selection_set.selections)
            if isinstance(t, GraphQLObjectType) and not spreads:
                cands = [("object", t.name)]
            elif isinstance(t, GraphQLObjectType):
                cands = [("object", t.name), ("fragment", t.name)]
                conds = {ref.frags[s.name.value].type_condition.name.value for n in nodes for s in n.selection_set.selections
                         if isinstance(s, gast.FragmentSpreadNode)}
                cands += [("fragment", c) for c in conds]
            else:
                cands = [("fragment", t.name), ("fragment", obj.name), ("object", t.name), ("object", obj.name)]
                cands += [("fragment", i.name) for i in obj.interfaces]
            out.append((model, cands, value))
            fields(model, obj, [n.selection_set for n in nodes], value)

    root = ref.root(op)
    out.append((parsed, [(op.operation.value, None)], data))
    fields(parsed, root, [op.selection_set], data)
    return out


def assignable(model):
    """does the model accept setting its first field to its present value?"""
    name = next(iter(type(model).model_fields), None)
    if name is None:
        return None
    try:
        setattr(model, name, getattr(model, name))
        return True
    except cm.validation_error() as e:
        if e.errors()[0]["type"] in ("frozen_instance", "frozen_field"):
            return False
        raise Violation("assignment of a valid value rejected", f"{type(model).__name__}.{name}: {e}")


def hashable(value):
    """are the leaves of this wire value hashable Python objects in the generated models?"""
    if isinstance(value, dict):
        return all(hashable(v) for v in value.values())
    if isinstance(value, list):
        return all(hashable(v) for v in value)
    return True


def check_frozen(model, cands, setting, options, where):
    frozen = verdict(setting, cands)
    forbidden = verdict(options, cands) if options.get("allow_mutation") is False else False
    can = assignable(model)
    if can is None or frozen is None or forbidden is None:
        return "undecided"
    if (frozen or forbidden) == can:
        raise Violation("frozen model accepts assignment" if can else "unselected model is frozen",
                        f"{where}: {type(model).__name__} for {cands[0]} with freeze {setting} and options {options}")
    return "frozen" if frozen else "mutable"


def check_options(model, cands, value, options, labels, where, rebuild):
    """rebuild(value, by) builds the same model from changed data"""
    on = verdict(options, cands)
    if on is None:
        return
    cls = type(model)
    extra = options.get("extra") if on else None
    try:
        again = cls(**{**value, "unknownKey_": 1})
        accepted = True
        kept = "unknownKey_" in again.model_dump(by_alias=True)
    except cm.validation_error():
        accepted = kept = False
    if accepted != (extra != "forbid") or kept != (extra == "allow"):
        raise Violation("extra fields policy", f"{where}: {cls.__name__} for {cands[0]}: an unknown key is {'kept' if kept else 'accepted' if accepted else 'rejected'} under {options}")
    labels.add("extra " + str(extra))
    if assignable(model):
        target = None
        for alias, (name, f) in oracle.fields_by_alias(cls).items():
            if isinstance(value.get(alias), dict):
                target = name
        if target:
            probe = copy.copy(model)
            try:
                setattr(probe, target, 5)
                checked = False
            except cm.validation_error():
                checked = True
            if checked != bool(on and options.get("validate_assignment")):
                raise Violation("assignment validation", f"{where}: {cls.__name__}.{target} = 5 {'rejected' if checked else 'accepted'} under {options}")
            labels.add("validate_assignment " + str(checked))
    for alias, (name, f) in oracle.fields_by_alias(cls).items():
        v = getattr(model, name)
        if isinstance(v, enum.Enum) and on and options.get("use_enum_values") and not cls.model_config.get("use_enum_values"):
            raise Violation("enum values", f"{where}: {cls.__name__}.{name} is {v!r} under {options}")
        if isinstance(v, enum.Enum) or (isinstance(v, str) and on and options.get("use_enum_values")):
            labels.add("enum")
    for n, f in cls.model_fields.items():
        if f.alias and f.alias != n and f.alias in value and on and options.get("allow_population_by_field_name"):
            try:
                cls(**{(n if k == f.alias else k): v for k, v in value.items()})
            except cm.validation_error() as e:
                raise Violation("population by name", f"{where}: {cls.__name__} refuses {n} under {options}: {e}")
            labels.add("by name")


# ------------------------------------------------------------------ responses

def run(case):
    labels = set()
    schema = build_schema(case["sdl"])
    ref = dg.RefDoc(schema, cm.case_text(case))
    ve = cm.validation_error()
    freeze, options = case["config"]["freeze"], case["config"]["options"]
    plain_case = {**case, "config": {k: v for k, v in case["config"].items() if k not in ("freeze", "options", "additional_config")}}
    with cm.load(case) as mod, cm.load(plain_case) as plain:
        ops, plain_ops = cm.operations(mod), cm.operations(plain)
        for name, responses in case["responses"].items():
            cls = ops[name]
            for r in responses:
                try:
                    obj = cls(**r)
                except ve as e:
                    raise Violation("settings reject a conforming response", f"{name}: {cm.short(r, 1500)}\n{e}")
                want, got = oracle.dump(plain_ops[name](**r)), oracle.dump(obj)
                d = oracle.diff(want, got)
                if d:
                    raise Violation("settings change the dump", f"{name}: {d}")
                models = walk(ref, ref.ops[name], obj, r)
                for m, cands, value in models:
                    labels.add(check_frozen(m, cands, freeze, options, f"{name}: {cm.short(value, 200)}"))
                    check_options(m, cands, value, options, labels, name, None)
                frozen = [(m, v) for m, c, v in models if all(selected(freeze, k, t) for k, t in c)]
                if freeze.get("convert_list_to_tuple", True) and freeze["enabled"] and case["hashable"]:
                    again = walk(ref, ref.ops[name], cls(**r), r)
                    for (m, cands, value), (m2, _, _) in zip(models, again):
                        inner = [c for mm, c, v in models if mm is m or contains(value, v)]
                        if all(selected(freeze, k, t) for cs in inner for k, t in cs):
                            try:
                                same = hash(m) == hash(m2)
                            except TypeError as e:
                                raise Violation("frozen model is not hashable", f"{name}: {type(m).__name__} {cm.short(value, 300)}: {e} under {freeze}")
                            if not same or m != m2 or len({m, m2}) != 1:
                                raise Violation("frozen models not equal by value", f"{name}: {m!r} and {m2!r}")
                            labels.add("hash")
                if frozen:
                    labels.add("nt")
                for m, value in frozen:
                    lists(m, value, freeze, name)
        for m in case["mutations"]:
            data = copy.deepcopy(m["response"])
            c03.put(data, m["path"], m["new"])
            verdicts = []
            for which in (ops, plain_ops):
                try:
                    which[m["op"]](**data)
                    verdicts.append("accept")
                except ve:
                    verdicts.append("reject")
            if verdicts[0] != verdicts[1]:
                raise Violation("settings change what is accepted", f"{m['op']}: {cm.short(data, 1500)} {verdicts[0]}ed, without settings {verdicts[1]}ed")
            labels.add(verdicts[0])
    if options["enabled"]:
        labels.add("nt")
    return labels


def contains(value, inner):
    if value is inner:
        return True
    if isinstance(value, dict):
        return any(contains(v, inner) for v in value.values())
    if isinstance(value, list):
        return any(contains(v, inner) for v in value)
    return False


def lists(model, value, freeze, where):
    for alias, (name, _) in oracle.fields_by_alias(type(model)).items():
        v = getattr(model, name)
        if isinstance(value.get(alias), list):
            want = tuple if freeze.get("convert_list_to_tuple", True) else list
            if not isinstance(v, want):
                raise Violation("list conversion", f"{where}: {type(model).__name__}.{name} is a {type(v).__name__} under {freeze}")


@st.composite
def freezes(draw, names):
    if draw(st.integers(0, 5)) == 0:
        return {"enabled": False}
    f = {"enabled": True, "types": draw(st.lists(st.sampled_from(KINDS), unique=True, min_size=1)), "convert_list_to_tuple": draw(st.booleans())}
    if draw(st.integers(0, 2)) == 0:
        f["types"] = list(KINDS)
    filters(draw, f, names)
    return f


def filters(draw, f, names):
    how = draw(st.integers(0, 4))
    if names and how in (1, 3):
        f["exclude"] = draw(st.lists(st.sampled_from(names), unique=True, max_size=3))
    if names and how in (2, 3):
        f["include"] = draw(st.lists(st.sampled_from(names), unique=True, min_size=1, max_size=4))


@st.composite
def option_settings(draw, names):
    if draw(st.booleans()):
        return {"enabled": False}
    o = {"enabled": True, "types": draw(st.sampled_from([KINDS, KINDS, ["object"], ["fragment"], ["input"], ["query", "mutation", "object"]]))}
    o["extra"] = draw(st.sampled_from([None, "ignore", "allow", "forbid"]))
    for k in ("validate_assignment", "use_enum_values", "allow_population_by_field_name", "orm_mode"):
        v = draw(st.sampled_from([None, True, False, True]))
        if v is not None:
            o[k] = v
    if draw(st.integers(0, 4)) == 0:
        o["allow_mutation"] = draw(st.booleans())
    filters(draw, o, names)
    return o


def settings(draw, schema):
    names = [n for n, t in schema.type_map.items() if not n.startswith("__") and not isinstance(t, (GraphQLScalarType, GraphQLEnumType))]
    return {"freeze": draw(freezes(names)), "options": draw(option_settings(names))}


def extra(draw, model, schema, doc):
    config = {**settings(draw, schema), "create_catchall": draw(st.booleans())}
    strict = config["options"].get("extra") == "forbid"  # then the catch-all class refuses what it does not know, too
    return {"config": config,
            "hashable": all(py not in ("dict", "typing.Dict", "typing.Any") for py in model["scalars"].values()),
            "mutations": c03.mutations(draw, model, schema, doc, config["create_catchall"] and strict, 2)}


def strategy():
    return cm.client_cases(schema_opts=dict(inputs=(0, 1)), responses=2, extra=extra)


# ------------------------------------------------------------------ inputs and arguments

def run_inputs(case):
    labels = set()
    schema = build_schema(case["sdl"])
    freeze, options = case["config"]["freeze"], case["config"]["options"]
    ve = cm.validation_error()
    plugins = [["enums", {"skip_unreferenced": False}], ["inputs", {"skip_unreferenced": False}], "fragments", "operations"]
    with cm.load(case, plugins) as mod, cm.load({**case, "config": {}}, plugins) as plain:
        for item in case["values"]:
            t = schema.type_map[item["type"]]
            cls, ref = cm.input_class(mod, t.name), cm.input_class(plain, t.name)
            if cls is None:
                raise Violation("missing input", t.name)
            given = {k: pv.build(mod, t.fields[k].type, v, item["how"]) for k, v in item["value"].items()}
            try:
                m = cls(**given)
            except ve as e:
                raise Violation("settings reject a valid input", f"{t.name}: {cm.short(item['value'])}\n{e}")
            d = oracle.diff(oracle.dump(ref(**item["value"]), exclude_unset=True), oracle.dump(m, exclude_unset=True))
            if d:
                raise Violation("settings change the wire", f"{t.name}: {d}")
            cands = [("input", t.name)]
            state = check_frozen(m, cands, freeze, options, t.name)
            labels.add(state)
            if state == "frozen" or options["enabled"]:
                labels.add("nt")
            if state == "frozen":
                lists(m, item["value"], freeze, t.name)
            nested = {get_named_type(f.type).name for t2 in schema.type_map.values() if hasattr(t2, "fields") and not hasattr(t2, "interfaces") for f in t2.fields.values()
                      if hasattr(get_named_type(f.type), "fields")} | {t.name}
            if freeze["enabled"] and freeze.get("convert_list_to_tuple", True) and case["hashable"] and all(selected(freeze, "input", n) for n in nested):
                m2 = cls(**given)
                try:
                    same = hash(m) == hash(m2) and m == m2
                except TypeError as e:
                    raise Violation("frozen model is not hashable", f"{t.name}: {cm.short(item['value'])}: {e}")
                if not same:
                    raise Violation("frozen models not equal by value", f"{m!r} {m2!r}")
                labels.add("hash")
            # the inputs plugin has its own setting for population by name
            check_options(m, cands, {k: pv.build(mod, t.fields[k].type, v, "kwargs") for k, v in item["value"].items()},
                          {k: v for k, v in options.items() if k != "allow_population_by_field_name"}, labels, t.name, None)
            if item["bad"] is not None:
                verdicts = []
                for c in (cls, ref):
                    try:
                        c(**ig.apply(item["value"], *item["bad"]))
                        verdicts.append("accept")
                    except ve:
                        verdicts.append("reject")
                if verdicts[0] != verdicts[1]:
                    raise Violation("settings change what is accepted", f"{t.name}: {item['value']} with {item['bad']}: {verdicts[0]}ed, without settings {verdicts[1]}ed")
        ops, plain_ops = cm.operations(mod), cm.operations(plain)
        for op, values in case["assignments"]:
            a, b = ops[op].Arguments(**values), plain_ops[op].Arguments(**values)
            d = oracle.diff(oracle.dump(b, exclude_unset=True), oracle.dump(a, exclude_unset=True))
            if d:
                raise Violation("settings change the wire", f"{op}: {d}")
            if values and not assignable(a):
                raise Violation("unselected model is frozen", f"Arguments of {op}")
    return labels


def extra_inputs(draw, model, schema, case):
    gen = ig.InputGen(draw, model["scalars"])
    names = [t["name"] for t in model["types"] if t["kind"] == "input"]
    values = []
    for n in draw(st.lists(st.sampled_from(names), max_size=4)) if names else []:
        t = schema.type_map[n]
        value = gen.nn(t, 0)
        values.append({"type": n, "value": value, "how": draw(st.sampled_from(["kwargs", "instances"])), "bad": ig.corrupt(draw, t, value, model["scalars"]) if value else None})
    for v in values:
        if v["bad"] is not None and not v["bad"][0]:
            v["bad"] = None
    return {"values": values, "config": settings(draw, schema),
            "hashable": all(py not in ("dict", "typing.Dict", "typing.Any") for py in model["scalars"].values()),
            "assignments": [(o["name"], a) for o in case["ops"] for a in vc.assignments(draw, schema, o, model["scalars"], n=1)]}


def strategy_inputs():
    return vc.cases(schema_opts=dict(inputs=(1, 3)), ops=(1, 2), extra=extra_inputs)


SUBS = [
    Sub("responses", strategy, run, quick=350, rule="random freeze and option settings (kinds, include/exclude lists, list conversion, extra, validate_assignment, use_enum_values, "
        "population by name) over random schemas, documents and responses: every model of every parsed response must be frozen, hashable and configured exactly when its kind and type "
        "are selected, and accept and dump what the module generated without settings does; non-trivial: a selected model occurs or options are on"),
    Sub("inputs", strategy_inputs, run_inputs, quick=350, rule="the same for input models and operation arguments; non-trivial: a frozen input or options on"),
]
ASSUMPTIONS = ["a model that derives from both a selected and an unselected one (fragment combinations, interface implementations) may have either setting",
               "operations have no type name: with include or exclude lists their state is not judged",
               "objects selected through a fragment spread are of the fragment kind and, where more is selected, of both kinds"]
