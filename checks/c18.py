"""C18: generated Strawberry schemas reproduce the source schema."""
import json

from graphql import (GraphQLEnumType, GraphQLInputObjectType, GraphQLInterfaceType, GraphQLObjectType, GraphQLScalarType,
                     GraphQLUnionType, Undefined, ast_from_value, build_client_schema, build_schema, get_introspection_query, get_named_type, parse,
                     print_ast, value_from_ast)
from hypothesis import strategies as st

import common as cm
import schemagen as sg
import sut
from core import Sub
from oracle import Violation

BUILTIN = {"String", "Int", "Float", "Boolean", "ID"}
OWN = {"DateTime"}  # scalars the plugin leaves to strawberry by default
DIRECTIVE_NAMES = ["tag", "auth_level", "keyDirective", "class", "x1"]
DIRECTIVE_ARGS = ["name", "max_count", "isOK", "from", "values", "class"]
LOCATIONS = {"OBJECT": "object", "FIELD_DEFINITION": "field", "ARGUMENT_DEFINITION": "arg", "INTERFACE": "interface", "UNION": "union", "ENUM": "enum",
             "ENUM_VALUE": "enum_value", "INPUT_OBJECT": "input", "INPUT_FIELD_DEFINITION": "input_field", "SCALAR": "scalar"}


# ------------------------------------------------------------------ the schema a generated module stands for
def build(mod, source):
    import strawberry
    from strawberry.schema.config import StrawberryConfig
    classes = {}
    for name, x in vars(mod.mod).items():
        d = getattr(x, "__strawberry_definition__", None)
        if isinstance(x, type) and d is not None and getattr(x, "__module__", None) == mod.name:
            classes[name] = x
    roots = {}
    for op in ("query", "mutation", "subscription"):
        t = getattr(source, op + "_type")
        if t is not None:
            found = [c for c in classes.values() if c.__strawberry_definition__.name == t.name]
            if len(found) != 1:
                raise Violation("missing root type", f"{op}: {t.name}")
            roots[op] = found[0]
    others = [c for c in classes.values() if c not in roots.values()]
    others += [x for x in vars(mod.mod).values() if hasattr(x, "__strawberry_enum__") or hasattr(x, "_scalar_definition") or hasattr(x, "_enum_definition")]
    try:
        return strawberry.Schema(**roots, types=others, config=StrawberryConfig())
    except Exception as e:
        raise Violation("schema does not build", f"{type(e).__name__}: {cm.short(str(e), 1500)}")


def introspect(schema):
    query = get_introspection_query(descriptions=True, specified_by_url=True, directive_is_repeatable=True, input_value_deprecation=True)
    result = schema.execute_sync(query)
    if result.errors:
        raise Violation("introspection fails", cm.short([str(e) for e in result.errors], 800))
    return build_client_schema(result.data)


# ------------------------------------------------------------------ normal forms
def default_of(x):
    if x.default_value is Undefined:
        return "(none)"
    node = ast_from_value(x.default_value, x.type) if not custom(x.type) else None
    return print_ast(node) if node is not None else repr(x.default_value)


def custom(t):
    n = get_named_type(t)
    return isinstance(n, GraphQLScalarType) and n.name not in BUILTIN


def inputs_of(args):
    return {n: {"type": str(a.type), "default": default_of(a), "description": a.description or None, "deprecated": a.deprecation_reason} for n, a in args.items()}


def normal(schema):
    out = {"roots": [t and t.name for t in (schema.query_type, schema.mutation_type, schema.subscription_type)]}
    for name, t in schema.type_map.items():
        if name.startswith("__") or name in BUILTIN:
            continue
        d = out[name] = {"kind": type(t).__name__, "description": t.description or None}
        if isinstance(t, (GraphQLObjectType, GraphQLInterfaceType)):
            d["fields"] = {n: {"type": str(f.type), "description": f.description or None, "deprecated": f.deprecation_reason, "args": inputs_of(f.args)}
                           for n, f in t.fields.items()}
            d["interfaces"] = sorted(i.name for i in t.interfaces)
        elif isinstance(t, GraphQLInputObjectType):
            d["fields"] = inputs_of(t.fields)
        elif isinstance(t, GraphQLEnumType):
            d["values"] = {n: {"description": v.description or None, "deprecated": v.deprecation_reason} for n, v in t.values.items()}
        elif isinstance(t, GraphQLUnionType):
            d["members"] = sorted(m.name for m in t.types)
        elif isinstance(t, GraphQLScalarType):
            d["url"] = t.specified_by_url
            if name in OWN:
                out[name] = {"kind": "GraphQLScalarType"}
    return out


def reachable(schema):
    """names of the types that the objects of a schema refer to"""
    seen, todo = set(), [t for n, t in schema.type_map.items() if isinstance(t, (GraphQLObjectType, GraphQLInterfaceType, GraphQLInputObjectType)) and not n.startswith("__")]
    while todo:
        t = todo.pop()
        if t.name in seen:
            continue
        seen.add(t.name)
        if isinstance(t, GraphQLUnionType):
            todo += t.types
        for f in getattr(t, "fields", {}).values():
            todo += [get_named_type(f.type)] + [get_named_type(a.type) for a in getattr(f, "args", {}).values()]
    return seen


def diff(a, b, path=""):
    if isinstance(a, dict) and isinstance(b, dict):
        for k in [*a, *(k for k in b if k not in a)]:
            if k not in b:
                return f"{path}{k}: missing, expected {cm.short(a[k], 300)}"
            if k not in a:
                return f"{path}{k}: unexpected {cm.short(b[k], 300)}"
            d = diff(a[k], b[k], f"{path}{k}.")
            if d:
                return d
        return None
    return None if a == b else f"{path[:-1]}: {b!r}, the source has {a!r}"


PLUGINS = ["strawberry"]


def config(case):
    return {**case["config"], "skip_forwards": True, "scalar_definitions": {"ID": "strawberry.ID", **case["scalars"]}}


def load(case):
    src = sut.generate_source(case["sdl"], None, config(case), case.get("plugins", PLUGINS), case["stylers"])
    return sut.Module(src)


def run(case):
    source = build_schema(case["sdl"])
    labels = set()
    with load(case) as mod:
        built = build(mod, source)
        expected, found = normal(source), normal(introspect(built))
        needed = reachable(source)
        for name in list(expected):
            if name != "roots" and name not in needed and name not in found:
                labels.add("unreachable")
                del expected[name]
        d = diff(expected, found)
        if d:
            raise Violation("schema differs", d)
        # the printed schema is valid SDL for the same schema
        try:
            printed = build_schema(built.as_str())
        except Exception as e:
            raise Violation("printed schema is invalid", f"{type(e).__name__}: {e}")
        d = diff(expected, normal(printed))
        if d:
            raise Violation("printed schema differs", d)
    kinds = {x["kind"] for n, x in expected.items() if n != "roots"}
    labels |= {k[7:].lower() for k in kinds}
    if len(kinds) >= 2 and len(expected) >= 5:
        labels.add("nt")
    if '"description": null' not in json.dumps(expected):
        labels.add("documented")
    if any(f.get("args") for x in expected.values() if isinstance(x, dict) for f in x.get("fields", {}).values()):
        labels.add("arguments")
    return labels


# ------------------------------------------------------------------ generators
STYLERS = [["default"], ["default"], ["snake"], ["capitalize"], ["capitalize", "snake"], ["default", "capitalize"]]


@st.composite
def models(draw, scale=2):
    model = draw(sg.schema_models(objects=(1, 2 * scale + 1), interfaces=(0, scale + 1), enums=(0, 2), inputs=(0, scale + 1), scalars=(0, 2),
                                  scalar_py=["str", "int", "float", "bool"]))
    for t in model["types"]:
        for f in t.get("fields", []):
            if t["kind"] == "input" and dated(model, f["type"]):
                f["default"] = None
                if f["type"].endswith("!"):
                    f["deprecated"] = None
            for a in f.get("args") or []:
                if dated(model, a["type"]):
                    a["default"] = None
                a["desc"] = draw(st.sampled_from([None, None, "An argument", 'with "quotes"']))
                if a["default"] is not None or not a["type"].endswith("!"):
                    a["deprecated"] = draw(st.sampled_from([None, None, None, "use other"]))
    return model


@st.composite
def cases(draw):
    model = draw(models())
    rename = draw(st.sampled_from([{}, {}, {}, {"Query": "RootQuery"}, {"Mutation": "my_mutation", "Subscription": "Sub_scription"}]))
    sdl = print_schema(model, rename)
    return {"sdl": sdl, "config": {}, "stylers": draw(st.sampled_from(STYLERS)), "scalars": {}}


def dated(model, t, seen=()):
    """whether values of an input type may carry strawberry's own scalar, whose defaults are datetimes rather than text"""
    t = sg.named(t)
    fields = (sg.model_type(model, t) or {}).get("fields", [])
    return t in OWN or t not in seen and any(dated(model, f["type"], (*seen, t)) for f in fields)


def print_schema(model, rename):
    for t in model["types"]:
        t["name"] = rename.get(t["name"], t["name"])
    out = sg.print_schema(model)
    names = {rename.get(n, n): op for n, op in (("Query", "query"), ("Mutation", "mutation"), ("Subscription", "subscription"))}
    if rename:
        roots = [f"  {names[t['name']]}: {t['name']}" for t in model["types"] if t["name"] in names]
        out += "\nschema {\n" + "\n".join(roots) + "\n}\n"
    return out


# ------------------------------------------------------------------ directives applied to the schema
NODES = {"OBJECT": "object_type_definition", "INTERFACE": "interface_type_definition", "UNION": "union_type_definition", "ENUM": "enum_type_definition",
         "INPUT_OBJECT": "input_object_type_definition", "SCALAR": "scalar_type_definition"}
STANDARD = {"deprecated", "specifiedBy", "oneOf", "skip", "include"}


def applied(document, definitions):
    """place -> directives applied there, arguments completed with the defaults of their definition"""
    out = {}

    def record(place, node):
        found = []
        for d in node.directives:
            name = d.name.value
            if name in STANDARD or name not in definitions:
                continue
            types = definitions[name].args
            args = {a: t.default_value for a, t in types.items() if t.default_value is not Undefined}
            args.update({a.name.value: value_from_ast(a.value, types[a.name.value].type) for a in d.arguments})
            found.append([name, args])
        if found:
            out[place] = sorted(found, key=str)
    for node in document.definitions:
        if not hasattr(node, "name") or node.kind == "directive_definition" or not hasattr(node, "directives"):
            continue
        name = node.name.value
        record(name, node)
        for child in [*(getattr(node, "fields", None) or ()), *(getattr(node, "values", None) or ())]:
            record(f"{name}.{child.name.value}", child)
            for a in getattr(child, "arguments", None) or ():
                record(f"{name}.{child.name.value}({a.name.value})", a)
    return out


def run_directives(case):
    source = build_schema(case["sdl"])
    labels = set()
    before = parse(case["sdl"])
    own = {d.name: d for d in source.directives if d.name not in STANDARD}
    with load(case) as mod:
        built = build(mod, source)
        expected, found = normal(source), normal(introspect(built))
        d = diff({k: v for k, v in expected.items() if k in found}, found)
        if d:
            raise Violation("schema differs", d)
        printed = built.as_str()
        after = parse(printed)
        places = {k: v for k, v in applied(before, own).items() if k.split(".")[0] in found}
        d = diff(places, applied(after, own))
        if d:
            raise Violation("directives differ", d)
        defined = {d.name: d for d in build_schema(printed).directives}
        for name, node in defined.items():
            if name in own:
                d = diff(definition(own[name]), definition(node))
                if d:
                    raise Violation("directive definition differs", f"@{name} {d}")
                labels.add("definition")
        used = {x[0] for v in places.values() for x in v}
        if used - set(defined):
            raise Violation("directive definition missing", str(used - set(defined)))
        if used:
            labels.add("nt")
        labels |= {place.count(".") and ("argument" if "(" in place else "member") or "type" for place in places}
    return labels


def definition(d):
    return {"locations": sorted(x.name for x in d.locations if x.name in LOCATIONS), "repeatable": d.is_repeatable, "description": d.description,
            # strawberry evaluates no default factories when it prints the definition of a directive
            "args": {n: {"type": str(a.type), "default": None if "[" in str(a.type) else default_of(a)} for n, a in d.args.items()}}


ARG_TYPES = ["String", "Int", "Float", "Boolean", "String!", "Int!", "[String!]", "[Int]!", "ID"]


@st.composite
def directive_cases(draw):
    case_model = draw(models(1))
    defs = []
    for name in sg.uniq(draw, DIRECTIVE_NAMES, 1, 3):
        args = []
        for a in sg.uniq(draw, DIRECTIVE_ARGS, 0, 3):
            t = draw(st.sampled_from(ARG_TYPES))
            args.append({"name": a, "type": t, "default": sg.literal_for(draw, t, case_model) if draw(st.integers(0, 2)) == 0 else None})
        locs = draw(st.lists(st.sampled_from(sorted(LOCATIONS)), min_size=1, max_size=6, unique=True))
        if "INTERFACE" in locs and "OBJECT" not in locs:
            locs.append("OBJECT")  # strawberry prints the directives of an interface only where they fit objects too
        defs.append({"name": name, "args": args, "locs": locs + draw(st.sampled_from([[], [], ["FIELD", "QUERY"]])), "repeatable": draw(st.booleans()),
                     "desc": draw(st.sampled_from([None, "What it does", 'a "quote"']))})
    if draw(st.integers(0, 3)) == 0:
        defs.append({"name": "clientOnly", "args": [], "locs": ["FIELD"], "repeatable": False, "desc": None})

    def apply(loc):
        out = ""
        for d in defs:
            if loc in d["locs"] and draw(st.integers(0, 2)) == 0:
                for _ in range(draw(st.integers(1, 2)) if d["repeatable"] else 1):
                    args = [f"{a['name']}: {sg.literal_for(draw, a['type'], case_model)}" for a in d["args"]
                            if a["type"].endswith("!") and a["default"] is None or draw(st.booleans())]
                    out += f" @{d['name']}" + (f"({', '.join(args)})" if args else "")
        return out

    for t in case_model["types"]:
        t.setdefault("directives", [])
        loc = {"object": "OBJECT", "interface": "INTERFACE", "union": "UNION", "enum": "ENUM", "input": "INPUT_OBJECT"}[t["kind"]]
        t["directives"] = [*t["directives"], apply(loc).strip()]
        for v in t.get("values", []):
            v["name"] += apply("ENUM_VALUE")
        for f in t.get("fields", []):
            f["suffix"] = apply("INPUT_FIELD_DEFINITION" if t["kind"] == "input" else "FIELD_DEFINITION")
            for a in f.get("args") or []:
                a["suffix"] = apply("ARGUMENT_DEFINITION")
    sdl = sg.print_schema(case_model)
    for d in defs:
        args = ", ".join(f"{a['name']}: {a['type']}" + (f" = {a['default']}" if a["default"] is not None else "") for a in d["args"])
        sdl += "\n" + (sg.sdl_string(d["desc"]) + "\n" if d["desc"] else "") + f"directive @{d['name']}" + (f"({args})" if args else "") + \
            (" repeatable" if d["repeatable"] else "") + " on " + " | ".join(d["locs"]) + "\n"
    return {"sdl": sdl, "config": {}, "stylers": draw(st.sampled_from(STYLERS)), "scalars": {}}


SUBS = [
    Sub("round-trip", cases, run, quick=500, rule="at least two kinds of types and five types"),
    Sub("directives", directive_cases, run_directives, quick=300, rule="a directive of the schema is applied somewhere"),
]
