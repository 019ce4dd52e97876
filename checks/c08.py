"""C08: discriminated input unions select and emit the right member."""
from graphql import GraphQLInputObjectType, GraphQLList, GraphQLNonNull, build_schema, get_named_type, parse, parse_type, type_from_ast
from graphql.execution.values import get_variable_values
from hypothesis import strategies as st

import common as cm
import inputgen as ig
import oracle
import schemagen as sg
import varcases as vc
from core import Sub
from oracle import Violation
from pyvalues import build as plain_build, plain, shape

DISCRIMINATORS = ["kind", "type", "elementType", "Tag", "class", "_kind", "schema"]
KEYS = ["AFFINE", "Scale", "field_x", "with-dash", "1", "it's", "class"]
MEMBERS = ["AffineInput", "scaleInput", "Field_Input", "LaserInput"]
UNIONS = ["TransformInput", "relationInput"]
FIELDS = ["scale", "affine", "fieldId", "weight", "URL", "nested", "data", "import"]


def prepare(draw, model):
    inputs = [t["name"] for t in model["types"] if t["kind"] == "input"]
    enums = [t["name"] for t in model["types"] if t["kind"] == "enum"]
    model["directives"].append("directive @unionElementOf(union: String!, discriminator: String!, key: String!) repeatable on INPUT_OBJECT")
    unions = draw(st.permutations(UNIONS))[:draw(st.integers(1, 2))]
    members = draw(st.permutations(MEMBERS))[:draw(st.integers(1, 4))]
    pool = {}
    for fn in draw(st.permutations(FIELDS))[:4]:
        base = draw(st.sampled_from(sg.BUILTINS + enums + list(model["scalars"]) + inputs * 2 + unions))
        t = sg.wrap(draw, base, 1)
        if base in unions:
            t = t.rstrip("!")
        pool[fn] = t
    info = {"unions": {}, "members": {}}
    discs = {}
    for u in unions:
        discs[u] = draw(st.sampled_from(DISCRIMINATORS))
    for m in members:
        own = [u for u in unions if draw(st.booleans())] or [draw(st.sampled_from(unions))]
        keys = {}
        for u in own:  # one key per discriminator name and member, distinct keys within a union
            taken = [k for u2 in unions for m2, ms in info["members"].items() if u2 in ms for d, k in ms.items() if discs[u2] == discs[u] and d == u2]
            same = [keys[u2] for u2 in keys if discs[u2] == discs[u]]
            keys[u] = same[0] if same else draw(st.sampled_from([k for k in KEYS if k not in taken]))
        info["members"][m] = keys
        fields = []
        for fn in draw(st.permutations(sorted(pool)))[:draw(st.integers(0, 3))]:
            fields.append({"name": fn, "type": pool[fn], "default": None})
        for d in sorted({discs[u] for u in own}):
            if draw(st.booleans()) or not fields:
                fields.insert(draw(st.integers(0, len(fields))), {"name": d, "type": draw(st.sampled_from(["String", "String!"])), "default": None})
        dirs = [f"@unionElementOf(union: {sg.sdl_string(u)}, discriminator: {sg.sdl_string(discs[u])}, key: {sg.sdl_string(k)})" for u, k in keys.items()]
        model["types"].append({"kind": "input", "name": m, "fields": fields, "directives": dirs, "desc": sg._desc(draw, sg.DEFAULT)})
    for u in unions:
        if not any(u in ks for ks in info["members"].values()):
            # nobody joined: give it the first member
            m = members[0]
            info["members"][m][u] = next((k for u2, k in info["members"][m].items() if discs[u2] == discs[u]), KEYS[0])
            sg.model_type(model, m)["directives"].append(f"@unionElementOf(union: {sg.sdl_string(u)}, discriminator: {sg.sdl_string(discs[u])}, key: {sg.sdl_string(info['members'][m][u])})")
    for u in unions:
        names = [m for m, ks in info["members"].items() if u in ks]
        fields = {discs[u]: "String!"}
        for m in names:
            for f in sg.model_type(model, m)["fields"]:
                fields.setdefault(f["name"], f["type"].rstrip("!") if not f["type"].startswith("[") else f["type"].rstrip("!"))
            for u2 in info["members"][m]:  # a member of several unions carries all its discriminators
                fields.setdefault(discs[u2], "String")
        model["types"].append({"kind": "input", "name": u, "fields": [{"name": n, "type": t, "default": None} for n, t in fields.items()]})
        info["unions"][u] = {"discriminator": discs[u], "members": names}
    container = {"kind": "input", "name": "ContainerInput", "fields": [{"name": n, "type": sg.wrap(draw, draw(st.sampled_from(unions)), 2), "default": None}
                                                                      for n in ["transform", "otherOne", "in"][:draw(st.integers(1, 3))]]}
    model["types"].append(container)
    model["union_info"] = info


def extend(info, schema):
    """input generation that yields member values at union positions"""
    class Gen(ig.InputGen):
        def nn(self, t, depth):
            if isinstance(t, GraphQLInputObjectType) and t.name in info["unions"]:
                names = info["unions"][t.name]["members"]
                if depth >= self.depth:
                    names = sorted(names, key=lambda n: len(schema.type_map[n].fields))[:1]
                m = self.draw(st.sampled_from(names))
                return self.nn(schema.type_map[m], depth) | {"\0": m}
            if isinstance(t, GraphQLInputObjectType) and t.name in info["members"]:
                discs = tags(info, t.name)
                out = super().nn(t, depth)
                out.update(discs)
                return out
            return super().nn(t, depth)
    return Gen


def tags(info, member):
    return {info["unions"][u]["discriminator"]: k for u, k in info["members"][member].items()}


def strip(v):
    if isinstance(v, dict):
        return {k: strip(x) for k, x in v.items() if k != "\0"}
    if isinstance(v, list):
        return [strip(x) for x in v]
    return v


def member_class(mod, name):
    cls = cm.input_class(mod, name)
    if cls is None:
        raise Violation("missing member", name)
    return cls


def build(mod, schema, info, t, value, how):
    """how: raw (wire dicts carrying the discriminator) or instances (members built without discriminator)"""
    if value is None:
        return None
    if isinstance(t, GraphQLNonNull):
        t = t.of_type
    if isinstance(t, GraphQLList):
        return [build(mod, schema, info, t.of_type, v, how) for v in value]
    if isinstance(t, GraphQLInputObjectType):
        if t.name in info["unions"]:
            t = schema.type_map[value["\0"]]
            value = {k: v for k, v in value.items() if k != "\0"}
        tagged = tags(info, t.name) if t.name in info["members"] else {}
        if how == "instances":
            value = {k: v for k, v in value.items() if k not in tagged}
        inner = {k: (v if k in tagged else build(mod, schema, info, t.fields[k].type, v, how)) for k, v in value.items()}
        return member_class(mod, t.name)(**inner) if how == "instances" else inner
    return plain_build(mod, t, value, how)


def check_classes(mod, info, t, value, obj, where):
    """every union position holds exactly the member with the key"""
    if value is None:
        if obj is not None:
            raise Violation("null became a value", f"{where}: {obj!r}")
        return
    if isinstance(t, GraphQLNonNull):
        t = t.of_type
    if isinstance(t, GraphQLList):
        for i, (v, o) in enumerate(zip(value, obj)):
            check_classes(mod, info, t.of_type, v, o, f"{where}[{i}]")
    elif isinstance(t, GraphQLInputObjectType):
        if t.name in info["unions"]:
            cls = member_class(mod, value["\0"])
            if type(obj) is not cls:
                raise Violation("wrong member", f"{where}: {type(obj).__name__} for {value['\0']}")
        names = {a: n for a, (n, _) in oracle.fields_by_alias(type(obj)).items()}
        for k, v in value.items():
            if k in t.fields and k in names and k != "\0":
                check_classes(mod, info, t.fields[k].type, v, getattr(obj, names[k]), f"{where}.{k}")


def union_places(info, t, value, path=()):
    if value is None:
        return
    if isinstance(t, GraphQLNonNull):
        t = t.of_type
    if isinstance(t, GraphQLList):
        for i, v in enumerate(value):
            yield from union_places(info, t.of_type, v, (*path, i))
    elif isinstance(t, GraphQLInputObjectType):
        if t.name in info["unions"]:
            yield path, t
        for k, v in value.items():
            if k in t.fields:
                yield from union_places(info, t.fields[k].type, v, (*path, k))


def run(case):
    labels = set()
    schema = build_schema(case["sdl"])
    info = case["info"]
    ve = cm.validation_error()
    defs = {d.name.value: d for d in parse(cm.case_text(case)).definitions}
    with cm.load(case, ["enums", "inputs", "fragments", "operations"] + (["input_funcs"] if case["factories"] else [])) as mod:
        for op in case["ops"]:
            args_cls = cm.operation(mod, op["name"]).Arguments
            names = {a: n for a, (n, _) in oracle.fields_by_alias(args_cls).items()}
            types = {n: type_from_ast(schema, parse_type(v["type"])) for n, v in op["vars"].items()}
            for item in case["calls"][op["name"]]:
                given = item["values"]
                expected = strip(given)
                how = item["how"]
                try:
                    obj = args_cls(**{k: build(mod, schema, info, types[k], v, how) for k, v in given.items()})
                except ve as e:
                    raise Violation("valid union value rejected", f"{op['name']} ({how}): {cm.short(expected)}\n{e}")
                wire = oracle.dump(obj, exclude_unset=True)
                d = oracle.diff(expected, wire)
                if d:
                    raise Violation("wire value differs", f"{op['name']} ({how}): {d}\n{cm.short(expected)} became {cm.short(wire)}")
                coerced = get_variable_values(schema, defs[op["name"]].variable_definitions, wire)
                if isinstance(coerced, list):
                    raise AssertionError(f"generator produced invalid variables {wire}: {coerced}")
                d = oracle.diff(shape(expected), shape(plain(obj.model_dump(by_alias=True, exclude_unset=True))))
                if d:
                    raise Violation("python dump differs", f"{op['name']}: {d}")
                again = args_cls.model_validate(wire)
                if oracle.diff(wire, oracle.dump(again, exclude_unset=True)):
                    raise Violation("round trip", f"{wire} became {oracle.dump(again, exclude_unset=True)}")
                for n, v in given.items():
                    check_classes(mod, info, types[n], v, getattr(obj, names[n]), n)
                    for path, t in union_places(info, types[n], v):
                        labels.update({"nt", how, f"members{min(3, len(info['unions'][t.name]['members']))}"})
                        if len(path) > 1:
                            labels.add("deep")
                        # an unknown key, a foreign member
                        disc = info["unions"][t.name]["discriminator"]
                        foreign = [m for m in info["members"] if m not in info["unions"][t.name]["members"]]
                        raw = build(mod, schema, info, types[n], v, "raw")
                        at = raw
                        for p in path:
                            at = at[p]
                        bads = [{**at, disc: "unknown key"}, 5]
                        if foreign:
                            m = foreign[0]
                            bads.append({**at, disc: "-foreign"})
                            fc = cm.input_class(mod, m)
                            if fc is not None and not any(isinstance(f, GraphQLNonNull) for f in [x.type for k, x in schema.type_map[m].fields.items() if k not in tags(info, m)]):
                                bads.append(fc())
                        for bad in bads:
                            value = ig.apply(raw, list(path), [bad]) if path else bad
                            others = {k: build(mod, schema, info, types[k], x, "instances") for k, x in given.items() if k != n}
                            try:
                                args_cls(**{**others, n: value})
                            except ve:
                                labels.add("rejected")
                            else:
                                raise Violation("foreign value accepted", f"{op['name']}.{n} at {path}: {bad!r} for {t.name}")
    return labels


def extra(draw, model, schema, case):
    info = model["union_info"]
    # memberships of unions no document needs are not generated
    live = set()
    todo = [v["type"].strip("[]!").replace("]", "").replace("!", "") for op in case["ops"] for v in op["vars"].values()]
    while todo:
        t = schema.type_map.get(todo.pop())
        if isinstance(t, GraphQLInputObjectType) and t.name not in live:
            live.add(t.name)
            todo += [get_named_type(f.type).name for f in t.fields.values()]
    info = {"unions": {u: x for u, x in info["unions"].items() if u in live},
            "members": {m: {u: k for u, k in ks.items() if u in live} for m, ks in info["members"].items()}}
    calls = {}
    for op in case["ops"]:
        calls[op["name"]] = []
        for _ in range(3):
            gen = extend(info, schema)(draw, model["scalars"])
            calls[op["name"]].append({"values": gen.variables(op["vars"], schema), "how": draw(st.sampled_from(["raw", "instances"]))})
    # members only occur inside unions
    return {"info": info, "calls": calls, "factories": draw(st.integers(0, 3)) == 0}


def strategy():
    return vc.cases({"inputs": (0, 2), "max_fields": 3}, extra=extra, prepare=prepare, n=(1, 3), ops=(1, 2),
                    types=lambda draw, model: ["ContainerInput"] + list(model["union_info"]["unions"]))


SUBS = [
    Sub("values", strategy, run, quick=1200, rule="random unions (1-2 unions, 1-4 members, members of several unions, keys and discriminator names of all kinds, members declaring the discriminator or "
        "not) at variable, list and nested positions; values passed as instances without the discriminator and as raw data with it; unknown keys and foreign members; non-trivial: a union value occurs"),
]
