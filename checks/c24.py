"""C24: configured bases reach every class they are configured for; catch-all classes take unknown implementations."""
import copy
import importlib

from graphql import GraphQLInputObjectType, GraphQLInterfaceType, GraphQLList, GraphQLNonNull, GraphQLObjectType, GraphQLUnionType, build_schema, get_named_type
from graphql.language import ast as gast
from hypothesis import assume, strategies as st

import common as cm
import docgen as dg
import oracle
import sut
from core import Sub
from oracle import Violation

TECHNIQUE = "property-based testing (Hypothesis): random base-class configurations and responses; an independent walk of documents and responses says which bases each parsed value needs"
GLOBAL = [["pydantic.BaseModel"], ["basemarks.GlobalA"], ["basemarks.GlobalMixin", "pydantic.BaseModel"], ["basemarks.GlobalA", "basemarks.GlobalB"], ["basemarks.GlobalMixin", "basemarks.GlobalB"]]


def cls_of(path):
    module, name = path.rsplit(".", 1)
    return getattr(importlib.import_module(module), name)


def own(prefix, complete):
    """bases of a kind; those that stand alone have to be models"""
    a, m = f"basemarks.{prefix}A", f"basemarks.{prefix}M"
    if complete:
        return st.sampled_from([[], [], [a], [m, a], [m, "pydantic.BaseModel"]])
    return st.sampled_from([[], [], [a], [m], [m, a]])


@st.composite
def base_settings(draw, schema):
    types = sorted(n for n, t in schema.type_map.items() if isinstance(t, (GraphQLObjectType, GraphQLInterfaceType, GraphQLInputObjectType)) and not n.startswith("__"))
    pool = ["basemarks.TypeM", "basemarks.TypeA", "basemarks.TypeN", "basemarks.TypeB"]       # any two types agree on their order
    additional = {t: [p for p in pool if draw(st.booleans())] for t in types if draw(st.booleans())}
    config = {"object_bases": draw(st.sampled_from(GLOBAL)), "additional_bases": {k: v for k, v in additional.items() if v}}
    iface = draw(own("Iface", True))
    if iface:
        config["interface_bases"] = iface
    options = {"operations": {k: v for k, v in (("query_bases", draw(own("Query", True))), ("mutation_bases", draw(own("Mutation", True))), ("subscription_bases", draw(own("Subscription", True))),
                                                ("arguments_bases", draw(own("Arguments", True)))) if v},
               "fragments": {k: v for k, v in (("fragment_bases", draw(own("Fragment", False))), ("object_bases", draw(own("FragObject", False)))) if v},
               "inputs": {k: v for k, v in (("inputtype_bases", draw(own("Input", True))),) if v},
               "objects": {k: v for k, v in (("types_bases", draw(own("Object", True))),) if v}}
    return config, options


def extra(draw, model, schema, doc):
    config, options = draw(base_settings(schema))
    config["create_catchall"] = draw(st.booleans())
    return {"config": config, "options": options}


def require(cls, wanted, what, defaults=(), first=()):
    mro = cls.__mro__
    missing = [b for b in wanted if cls_of(b) not in mro]
    if missing:
        raise Violation("base missing", f"{what}: {cls.__qualname__} has no {missing}; it derives from {[c.__qualname__ for c in mro[1:]]}")
    for f in first:
        for d in defaults:
            a, b = cls_of(f), cls_of(d)
            if a is not b and not issubclass(b, a) and mro.index(a) > mro.index(b):
                raise Violation("base order", f"{what}: {f} comes after {d} in {[c.__qualname__ for c in mro]}")


def spread_fragments(ref, obj, nodes, out=None):
    """fragments that apply to the object at this position"""
    out = set() if out is None else out
    for ss in nodes:
        for s in ss.selections:
            if isinstance(s, gast.InlineFragmentNode):
                if s.type_condition is None or ref.applies(s.type_condition.name.value, obj):
                    spread_fragments(ref, obj, [s.selection_set], out)
            elif isinstance(s, gast.FragmentSpreadNode):
                f = ref.frags[s.name.value]
                if ref.applies(f.type_condition.name.value, obj):
                    out.add(s.name.value)
                    spread_fragments(ref, obj, [f.selection_set], out)
    return out


def field_of(model, key):
    fields = oracle.fields_by_alias(type(model))
    if key not in fields:
        raise Violation("field missing", f"{type(model).__qualname__} has no field for {key}")
    return getattr(model, fields[key][0])


def run_responses(case):
    labels, schema = set(), build_schema(case["sdl"])
    ref = dg.RefDoc(schema, cm.case_text(case))
    config, options = case["config"], case["options"]
    objects, additional = config["object_bases"], config["additional_bases"]
    interfaces = config.get("interface_bases") or objects
    plugins = ["enums", ["inputs", options["inputs"]], ["fragments", options["fragments"]], ["operations", options["operations"]]]

    def at_object(model, t, obj, sets, data, where):
        cls = type(model)
        extension = list(additional.get(obj.name, ()))
        defaults = objects
        if isinstance(t, GraphQLInterfaceType):
            extension += [b for b in additional.get(t.name, ()) if b not in extension]
            defaults = interfaces
        frags = spread_fragments(ref, obj, sets)
        fragment_bases, direct = [], list(extension)
        for f in frags:
            on = schema.type_map[ref.frags[f].type_condition.name.value]
            fragment_bases += options["fragments"].get("fragment_bases", [])
            if isinstance(on, GraphQLObjectType):
                fragment_bases += options["fragments"].get("object_bases", [])
            extension += [b for b in additional.get(on.name, ()) if b not in extension and not isinstance(on, GraphQLUnionType)]
        if isinstance(t, GraphQLObjectType) and interfaces != objects and all(cls_of(b) in cls.__mro__ for b in interfaces) and any(
                isinstance(schema.type_map[ref.frags[f].type_condition.name.value], GraphQLInterfaceType) for f in frags):
            defaults = interfaces          # the implementation class of an interface fragment, taken as it is
        require(cls, [*extension, *fragment_bases, *defaults], f"{where} ({obj.name} as {t})", [d for d in defaults if d not in extension], extension if len(frags) < 2 else direct)
        if extension or fragment_bases or defaults != ["pydantic.BaseModel"]:
            labels.update({"nt", f"{type(t).__name__}", *(["by fragment"] if frags else []), *(["type base"] if extension else [])})
        for key, nodes in ref.collect(obj, sets).items():
            name = nodes[0].name.value
            if name != "__typename":
                walk(field_of(model, key), obj.fields[name].type, [n.selection_set for n in nodes], data[key], f"{where}.{key}")

    def walk(value, t, sets, data, where):
        if isinstance(t, GraphQLNonNull):
            t = t.of_type
        if value is None or data is None:
            return
        if isinstance(t, GraphQLList):
            for i, (v, d) in enumerate(zip(value, data)):
                walk(v, t.of_type, sets, d, f"{where}[{i}]")
        elif isinstance(t, (GraphQLObjectType, GraphQLInterfaceType, GraphQLUnionType)):
            at_object(value, t, schema.type_map[data["__typename"]], sets, data, where)

    try:
        loaded = cm.load(case, plugins)
    except sut.SutError as e:
        if "method resolution" in str(e) and options["fragments"] and (additional or interfaces != objects):
            return {"bases at odds"}       # fragments put their bases before those of their types, their spreads the other way round
        raise
    with loaded as mod:
        classes = cm.operations(mod)
        for op in case["ops"]:
            node, cls = ref.ops[op["name"]], classes[op["name"]]
            bases = options["operations"].get(f"{op['kind']}_bases") or objects
            require(cls, bases, f"{op['kind']} {op['name']}")
            require(cls.Arguments, options["operations"].get("arguments_bases") or objects, f"arguments of {op['name']}")
            others = {b for k in ("query", "mutation", "subscription") if k != op["kind"] for b in options["operations"].get(f"{k}_bases") or ()} - set(bases) - {"pydantic.BaseModel"}
            if any(cls_of(b) in cls.__mro__ for b in others):
                raise Violation("base of another kind", f"{op['name']}: {others}")
            for data in case["responses"][op["name"]]:
                model = cls.model_validate(copy.deepcopy(data))
                root = ref.root(node)
                for key, nodes in ref.collect(root, [node.selection_set]).items():
                    name = nodes[0].name.value
                    if name != "__typename":
                        walk(field_of(model, key), root.fields[name].type, [n.selection_set for n in nodes], data[key], f"{op['name']}.{key}")
        for name, cls in cm.fragments(mod).items():
            on = ref.frags[name].type_condition.name.value
            require(cls, [*additional.get(on, ()), *options["fragments"].get("fragment_bases", ()), *options["fragments"].get("object_bases", ()), *objects], f"fragment {name}",
                    [o for o in objects if o not in additional.get(on, ())], additional.get(on, ()))
    return labels


def run_types(case):
    """inputs and objects"""
    labels, schema = set(), build_schema(case["sdl"])
    config, options = case["config"], case["options"]
    additional = config["additional_bases"]
    unreferenced = {"skip_unreferenced": False}
    for plugins, kind, defaults in (([["enums", unreferenced], ["inputs", {**unreferenced, **options["inputs"]}]], GraphQLInputObjectType, options["inputs"].get("inputtype_bases") or ["pydantic.BaseModel"]),
                                    ([["enums", unreferenced], ["objects", options["objects"]]], (GraphQLObjectType, GraphQLInterfaceType), options["objects"].get("types_bases") or ["pydantic.BaseModel"])):
        with sut.load(case["sdl"], None, cm.config_of(case), plugins, cm.stylers_of(case)) as mod:
            from pydantic import BaseModel
            for name, t in schema.type_map.items():
                if not isinstance(t, kind) or name.startswith("__"):
                    continue
                cls = cm.by_graphql_name(mod, name, BaseModel, ("", "In", "Base") if isinstance(t, GraphQLInterfaceType) else ("", "In"))
                if cls is None:
                    labels.add("class not found")
                    continue
                extension = list(additional.get(name, ()))
                inherited = [b for i in getattr(t, "interfaces", ()) for b in additional.get(i.name, ())]
                require(cls, [*extension, *inherited, *defaults], name, [d for d in defaults if d not in extension], extension + inherited)
                labels |= {"nt", type(t).__name__} if extension else {type(t).__name__}
    return labels


# ------------------------------------------------------------------ implementations the schema does not know
def shared(ref, sets, interface, out=None):
    """what is selected of any implementation: response key -> nodes"""
    out = {} if out is None else out
    for ss in sets:
        for s in ss.selections:
            if isinstance(s, gast.FieldNode):
                out.setdefault(s.alias.value if s.alias else s.name.value, []).append(s)
            elif isinstance(s, gast.InlineFragmentNode):
                if s.type_condition is None or covers(ref, s.type_condition.name.value, interface):
                    shared(ref, [s.selection_set], interface, out)
            elif covers(ref, ref.frags[s.name.value].type_condition.name.value, interface):
                shared(ref, [ref.frags[s.name.value].selection_set], interface, out)
    return out


def covers(ref, condition, interface):
    """whether a condition holds of every implementation of the interface"""
    t = ref.schema.type_map[condition]
    return t is interface or isinstance(t, GraphQLInterfaceType) and ref.schema.is_sub_type(t, interface)


def unknown_extra(draw, model, schema, doc):
    ref = dg.RefDoc(schema, dg.doc_text(doc))
    out = []
    for o in doc["ops"]:
        op = ref.ops[o["name"]]
        response = dg.ResponseGen(draw, ref, model["scalars"], null_rate=9).operation(op)
        places = [p for p in typed_places(ref, op, response) if isinstance(p[1], GraphQLInterfaceType)]
        for path, t, value, sets in ([draw(st.sampled_from(places))] if places else []):
            keys = shared(ref, sets, t)
            new = {k: v for k, v in value.items() if k in keys}
            for k, nodes in keys.items():
                if nodes[0].name.value == "__typename":
                    new[k] = "NoSuchType"
            new["__typename"] = "NoSuchType"
            for k in draw(st.sampled_from([[], ["unrelated"]])):
                new[k] = 1
            out.append({"op": o["name"], "path": path, "new": new, "response": response, "interface": t.name, "keys": sorted(k for k, n in keys.items() if n[0].name.value != "__typename")})
    assume(out)
    return {"config": {"create_catchall": draw(st.integers(0, 3)) != 0, "additional_bases": {}}, "unknown": out}


def typed_places(ref, op, response):
    """(path, composite type, value, selection sets) of every object in a response"""
    out = []

    def fields(obj, sets, value, path):
        for key, nodes in ref.collect(obj, sets).items():
            if nodes[0].name.value != "__typename":
                at(obj.fields[nodes[0].name.value].type, [n.selection_set for n in nodes], value[key], path + [key])

    def at(t, sets, value, path):
        if isinstance(t, GraphQLNonNull):
            t = t.of_type
        if value is None:
            return
        if isinstance(t, GraphQLList):
            for i, v in enumerate(value):
                at(t.of_type, sets, v, path + [i])
        elif isinstance(t, (GraphQLObjectType, GraphQLInterfaceType, GraphQLUnionType)):
            out.append((path, t, value, sets))
            fields(ref.schema.type_map[value["__typename"]], sets, value, path)

    fields(ref.root(op), [op.selection_set], response, [])
    return out


def run_unknown(case):
    labels, ve = set(), cm.validation_error()
    with cm.load(case) as mod:
        classes = cm.operations(mod)
        for u in case["unknown"]:
            data = copy.deepcopy(u["response"])
            place = data
            for p in u["path"][:-1]:
                place = place[p]
            place[u["path"][-1]] = u["new"]
            try:
                model = classes[u["op"]].model_validate(copy.deepcopy(data))
            except ve as e:
                if case["config"]["create_catchall"]:
                    raise Violation("unknown implementation rejected", f"{u['op']} {u['path']} ({u['interface']}): {cm.short(u['new'])}\n{e}")
                labels |= {"nt", "rejected without catch-all"}
                continue
            if not case["config"]["create_catchall"]:
                raise Violation("unknown implementation accepted", f"without catch-all, {u['op']} {u['path']}: {cm.short(u['new'])}")
            value = model
            for p in u["path"]:
                value = value[p] if isinstance(p, int) else field_of(value, p)
            if getattr(value, "typename", None) != "NoSuchType":
                raise Violation("typename of an unknown implementation", f"{u['op']} {u['path']}: {value!r}")
            wire = oracle.dump(value)
            want = {k: v for k, v in u["new"].items() if k in u["keys"]}
            got = {k: v for k, v in wire.items() if k in u["keys"]}
            d = oracle.diff(want, got)
            if d:
                raise Violation("shared fields of an unknown implementation", f"{u['op']} {u['path']} ({u['interface']}): {d}\n{cm.short(want)} became {cm.short(got)}")
            labels |= {"nt", "accepted"} | ({"shared fields"} if u["keys"] else set()) | ({"in list"} if isinstance(u["path"][-1], int) else set()) | ({"nested"} if len(u["path"]) > 2 else set())
    return labels


SUBS = [
    Sub("bases", lambda: cm.client_cases(extra=extra), run_responses, quick=1200, rule="random schemas, documents, responses and base settings of every level; non-trivial: a parsed value whose position calls for another base than BaseModel"),
    Sub("types", lambda: cm.client_cases(extra=extra, responses=0), run_types, quick=400, rule="classes of the inputs and objects plugins under random base settings; non-trivial: types with bases of their own"),
    Sub("unknown", lambda: cm.client_cases(schema_opts=dict(interfaces=(1, 2), objects=(2, 4), args=False), doc_opts=dict(vars=False), responses=0, extra=unknown_extra), run_unknown, quick=900,
        rule="conforming responses in which one interface value is of a type the schema does not declare and carries the shared fields; all are non-trivial"),
]
ASSUMPTIONS = ["bases are importable, compatible with each other (combinations of fragment bases and type bases without a method resolution order are skipped) and independent (no base of one setting derives from one of another), and their class names differ",
               "interface_bases stand in for object_bases at interface positions, operation bases for object_bases on operations"]
