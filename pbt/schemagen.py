"""Hypothesis strategies for GraphQL schemas (as a JSON-able model that prints to SDL).

A schema model is
  {"types": [ {kind, name, ...} ... in definition order ], "directives": [...], "scalars": {name: pytype}}
Field: {name, type, args, desc, deprecated};  input field / arg: {name, type, default, desc, deprecated}
`type` is GraphQL type syntax ("[Foo!]!").
"""
import json

from hypothesis import strategies as st

# ------------------------------------------------------------------ names
# The Python names derived from any two names of one pool stay distinct under the stylers
# (snake_case / capitalisation), unless a property asks for collisions explicitly.
TYPE_NAMES = ["Alpha", "Beta", "Gamma", "deltaThing", "Epsilon_Two", "ZETA", "Theta9", "iotaKappa",
              "HTTPRoute", "Lambda_", "muNu", "XiPi", "Rho", "Sigma_Tau", "Upsilon", "Phi2Chi", "Psi",
              "Omega", "AlphaConnection", "Node", "Edge", "PageInfo", "User", "Document"]
ENUM_NAMES = ["Color", "sortOrder", "Status_Kind", "ROLE", "Unit2"]
INPUT_NAMES = ["FilterInput", "userInput", "Page_Input", "OrderINPUT", "Item2Input", "NestedInput", "PatchInput"]
# names that generated modules need for themselves, and Python keywords
AWKWARD_TYPE_NAMES = ["Dict", "Iterable", "UnsetType", "Iterator", "Annotated", "is", "Location", "NewType", "AsyncGenerator", "strawberry"]
AWKWARD_ENUM_NAMES = ["Enum", "ConfigDict", "UNSET", "Deprecated", "False"]
AWKWARD_INPUT_NAMES = ["AsyncIterator", "GraphQLDefault", "Union", "Tuple", "as"]
SCALAR_NAMES = ["DateTime", "UUID", "JSON", "Money", "my_scalar"]
FIELD_NAMES = ["id", "name", "createdAt", "user_name", "items", "child", "parentNode", "count2", "isOK",
               "URL", "value", "description", "kind", "owner", "edges", "totalPrice", "x", "HTMLBody", "v1Beta"]
AWKWARD_FIELD_NAMES = ["class", "from", "in", "lambda", "None", "type", "match", "self", "cls", "global", "async",
                       "json", "copy", "schema", "validate", "True", "import", "data", "key", "result", "_id", "_meta_data", "_", "_7", "model_fields",
                       "model_config", "model_type", "construct", "l", "dict", "datetime", "str", "int", "Field", "Optional", "UUID", "List", "Literal"]
ENUM_VALUES = ["RED", "GREEN", "blue", "ASC_NULLS", "v1", "camelCase", "X2", "Mixed_Case", "LAST"]
AWKWARD_ENUM_VALUES = ["None", "class", "import", "in", "def", "async", "match", "type", "print", "True_", "self", "lambda"]
ARG_NAMES = ["first", "filter", "orderBy", "page_size", "ids", "flag", "where", "limit2"]
AWKWARD_ARG_NAMES = ["from", "class", "in", "is", "lambda", "data", "self", "global", "async", "_id", "schema", "model_dump", "variables", "datetime", "str", "Optional"]

TEXTS = ["", "plain words", "it's \"quoted\"", "back\\slash \\n", "ümläut ✓ 漢字", "two\nlines", "tab\there", "{curly}",
         "'''", "percent %s", "#hash", " leading"]
text_values = st.one_of(st.sampled_from(TEXTS), st.text(max_size=6).filter(lambda s: s.isprintable() or s == ""))

BUILTINS = ["Int", "Float", "String", "Boolean", "ID"]


def uniq(draw, pool, lo, hi, awkward=(), weight=6):
    """draw lo..hi distinct names, mostly from pool, sometimes from awkward."""
    n = draw(st.integers(lo, hi))
    out = []
    for _ in range(n):
        src = pool
        if awkward and draw(st.integers(0, weight)) == weight:
            src = awkward
        cand = [x for x in src if x not in out and x.lower().replace("_", "") not in [o.lower().replace("_", "") for o in out]]
        if cand:
            out.append(draw(st.sampled_from(cand)))
    return out


def wrap(draw, base, max_list=2, nonnull=None):
    """wrap a named type in list/non-null layers"""
    t = base
    depth = draw(st.sampled_from([0, 0, 0, 1, 1, 2] if max_list >= 2 else [0, 0, 1] if max_list == 1 else [0]))
    if draw(st.booleans()):
        t += "!"
    for _ in range(depth):
        t = f"[{t}]"
        if draw(st.booleans()):
            t += "!"
    return t


def named(t):
    return t.replace("[", "").replace("]", "").replace("!", "")


DESCS = ["A plain description", "With \"quotes\" and 'ticks'", "back\\slash", "line one\nline two", "ümläut ✓", "ends with quote\"",
         "{braces} %s", "# hash", "tri'''ple"]


def sdl_string(s):
    return json.dumps(s, ensure_ascii=False)


class Opts(dict):
    __getattr__ = dict.get


DEFAULT = Opts(enums=(0, 2), scalars=(0, 1), objects=(1, 4), interfaces=(0, 2), unions=(0, 2), inputs=(0, 3), awkward=True,
               args=True, mutation=True, subscription=True, descs=True, deprecations=True, defaults=True,
               interface_hierarchy=True, recursive_inputs=True, max_fields=5, max_list=2, awkward_weight=6, awkward_types=True)


def awkward_fields(o):
    return o.awkward_fields or AWKWARD_FIELD_NAMES

SCALAR_PY = ["str", "int", "float", "bool", "typing.Any", "datetime.datetime", "datetime.date", "uuid.UUID", "decimal.Decimal", "dict"]


def _desc(draw, o):
    if o.descs and draw(st.integers(0, 4)) == 0:
        return draw(st.sampled_from(DESCS))
    return None


def _depr(draw, o):
    if o.deprecations and draw(st.integers(0, 6)) == 0:
        return draw(st.sampled_from(["No longer supported", "use other", "it's \"old\"", "back\\slash", ""]))
    return None


def literal_for(draw, t, model, depth=0):
    """A GraphQL literal (text) valid for input type t (SDL syntax)."""
    if t.endswith("!"):
        t = t[:-1]
    elif draw(st.integers(0, 7)) == 0 or depth >= 3:
        return "null"
    if t.startswith("["):
        n = draw(st.integers(0, 2)) if depth < 2 else 0
        return "[" + ", ".join(literal_for(draw, t[1:-1], model, depth + 1) for _ in range(n)) + "]"
    if t == "Int":
        return str(draw(st.integers(-5, 1000)))
    if t == "Float":
        return draw(st.sampled_from(["1.5", "0.0", "3", "-2.25", "1e3"]))
    if t == "Boolean":
        return draw(st.sampled_from(["true", "false"]))
    if t == "String":
        return sdl_string(draw(st.sampled_from(["a", "it's", "q\"q", "back\\slash", "ünï", "...spread", "{ id }", "# c", ""])))
    if t == "ID":
        return draw(st.sampled_from(['"id1"', "7"]))
    ty = model_type(model, t)
    if ty is None:
        py = model["scalars"].get(t, "str")
        return {"int": "3", "float": "1.5", "bool": "true", "typing.Any": '"any"', "dict": "{k: 1}", "str": '"s"',
                "datetime.datetime": '"2020-01-02T03:04:05"', "datetime.date": '"2020-01-02"', "decimal.Decimal": '"1.50"',
                "uuid.UUID": '"12345678-1234-5678-1234-567812345678"'}[py]
    if ty["kind"] == "enum":
        return draw(st.sampled_from([v["name"] for v in ty["values"]]))
    # input object
    if "@oneOf" in ty.get("directives", []):
        fields = ty["fields"]
        if depth >= 2:
            finite = [f for f in fields if not (model_type(model, named(f["type"])) or {}).get("fields") or f["type"].startswith("[")]
            fields = finite or [f for f in fields if "@oneOf" not in (model_type(model, named(f["type"])) or {}).get("directives", [])] or fields
        f = draw(st.sampled_from(fields))
        return "{" + f"{f['name']}: {literal_for(draw, f['type'] + '!', model, depth + 1)}" + "}"
    parts = []
    for f in ty["fields"]:
        req = f["type"].endswith("!") and f.get("default") is None
        if req or (depth < 2 and draw(st.booleans())):
            parts.append(f"{f['name']}: {literal_for(draw, f['type'], model, depth + 1)}")
    return "{" + ", ".join(parts) + "}"


def model_type(model, name):
    for t in model["types"]:
        if t["name"] == name:
            return t
    return None


@st.composite
def schema_models(draw, opts=None, **kw):
    o = Opts(DEFAULT)
    o.update(opts or {})
    o.update(kw)
    aw = o.awkward
    types = []
    model = {"types": types, "scalars": {}, "directives": []}

    for n in uniq(draw, SCALAR_NAMES, *o.scalars):
        model["scalars"][n] = draw(st.sampled_from(o.scalar_py or SCALAR_PY))
    enums = uniq(draw, ENUM_NAMES, *o.enums, awkward=AWKWARD_ENUM_NAMES if o.awkward_types else (), weight=9)
    for n in enums:
        vals = uniq(draw, ENUM_VALUES, 1, 4, AWKWARD_ENUM_VALUES if aw else ())
        types.append({"kind": "enum", "name": n, "desc": _desc(draw, o),
                      "values": [{"name": v, "desc": _desc(draw, o), "deprecated": _depr(draw, o)} for v in vals]})
    leafs = BUILTINS + list(model["scalars"]) + enums

    # ---- inputs
    inputs = uniq(draw, INPUT_NAMES, *o.inputs, awkward=AWKWARD_INPUT_NAMES if o.awkward_types else (), weight=9)
    for i, n in enumerate(inputs):
        fields = []
        for fn in uniq(draw, FIELD_NAMES, 1, o.max_fields, awkward_fields(o) if aw else (), o.awkward_weight):
            if inputs and draw(st.integers(0, 2)) == 0:
                target = draw(st.sampled_from(inputs))
                t = wrap(draw, target, o.max_list)
                # no unbreakable cycles: non-null direct references only to later inputs
                if t.endswith("!") and not t.startswith("[") and inputs.index(target) <= i:
                    t = t[:-1]
                if not o.recursive_inputs and inputs.index(target) <= i:
                    t = draw(st.sampled_from(BUILTINS))
            else:
                t = wrap(draw, draw(st.sampled_from(leafs)), o.max_list)
            fields.append({"name": fn, "type": t, "desc": _desc(draw, o), "deprecated": None, "default": None})
        types.append({"kind": "input", "name": n, "fields": fields, "desc": _desc(draw, o)})
    for t in types:  # defaults and deprecations (inputs complete now)
        if t["kind"] == "input":
            for f in t["fields"]:
                if o.defaults and named(f["type"]) not in inputs and draw(st.integers(0, 4)) == 0:
                    f["default"] = literal_for(draw, f["type"], model)
                if not f["type"].endswith("!") or f["default"] is not None:
                    f["deprecated"] = _depr(draw, o)

    # ---- output types
    pool = TYPE_NAMES
    all_names = uniq(draw, pool, o.objects[0] + o.interfaces[0] + o.unions[0], o.objects[1] + o.interfaces[1] + o.unions[1],
                     awkward=AWKWARD_TYPE_NAMES if o.awkward_types else (), weight=11)
    ni = draw(st.integers(o.interfaces[0], max(o.interfaces[0], min(o.interfaces[1], len(all_names) - o.objects[0]))))
    nu = draw(st.integers(o.unions[0], max(o.unions[0], min(o.unions[1], len(all_names) - o.objects[0] - ni))))
    ifaces, unions, objects = all_names[:ni], all_names[ni:ni + nu], all_names[ni + nu:]
    outs = objects + ifaces + unions

    def args(depth_ok=True):
        if not o.args or draw(st.integers(0, 3)) != 0:
            return []
        res = []
        for an in uniq(draw, ARG_NAMES, 1, 2, AWKWARD_ARG_NAMES if aw else ()):
            t = wrap(draw, draw(st.sampled_from(BUILTINS + enums + list(model["scalars"]) + inputs)), 1)
            a = {"name": an, "type": t, "default": None, "desc": None, "deprecated": None}
            if o.defaults and draw(st.integers(0, 4)) == 0:
                a["default"] = literal_for(draw, t, model)
            res.append(a)
        return res

    def field(fn, composite=2):
        if outs and draw(st.integers(0, composite)) != 0:
            t = wrap(draw, draw(st.sampled_from(outs)), o.max_list)
        else:
            t = wrap(draw, draw(st.sampled_from(leafs)), o.max_list)
        return {"name": fn, "type": t, "args": args(), "desc": _desc(draw, o), "deprecated": _depr(draw, o)}

    idefs = {}
    for i, n in enumerate(ifaces):
        parents = []
        if o.interface_hierarchy and i and draw(st.booleans()):
            p = ifaces[draw(st.integers(0, i - 1))]
            parents = [p] + [g for g in idefs[p]["implements"]]
        fields = []
        for p in parents:
            for f in idefs[p]["fields"]:
                if f["name"] not in [g["name"] for g in fields]:
                    fields.append(f)
        for fn in uniq(draw, [x for x in FIELD_NAMES if x not in [g["name"] for g in fields]], 1, 3, [x for x in awkward_fields(o) if x not in [g["name"] for g in fields]] if aw else (), o.awkward_weight):
            used = [f for d in idefs.values() for f in d["fields"] if f["name"] == fn]
            # same-named interface fields are identical across interfaces so that objects can implement both
            fields.append(used[0] if used else field(fn))
        idefs[n] = {"kind": "interface", "name": n, "implements": parents, "fields": fields, "desc": _desc(draw, o)}
        types.append(idefs[n])
    odefs = {}
    for i, n in enumerate(objects):
        impl = []
        for it in ifaces:
            if draw(st.integers(0, 2)) != 0 and it not in impl:
                impl.append(it)
                for p in idefs[it]["implements"]:
                    if p not in impl:
                        impl.append(p)
        fields = []
        for it in impl:
            for f in idefs[it]["fields"]:
                if f["name"] not in [g["name"] for g in fields]:
                    f = dict(f)
                    f["desc"], f["deprecated"] = _desc(draw, o), _depr(draw, o)
                    # covariant narrowing: nullable -> non-null
                    if not f["type"].endswith("!") and draw(st.integers(0, 4)) == 0:
                        f["type"] += "!"
                    fields.append(f)
        have = [g["name"] for g in fields]
        for fn in uniq(draw, [x for x in FIELD_NAMES if x not in have], 1, o.max_fields, [x for x in awkward_fields(o) if x not in have] if aw else (), o.awkward_weight):
            fields.append(field(fn))
        odefs[n] = {"kind": "object", "name": n, "implements": impl, "fields": fields, "desc": _desc(draw, o)}
        types.append(odefs[n])
    # every interface needs an implementation
    for it in ifaces:
        if not any(it in d["implements"] for d in odefs.values()):
            cand = [d for d in odefs.values() if _can_implement(d, idefs, it)]
            if not cand:
                # strip the interface: turn it into an object instead
                idefs[it]["kind"] = "object"
                for d in list(idefs.values()) + list(odefs.values()):
                    d["implements"] = [x for x in d["implements"] if x != it]
            else:
                _implement(cand[0], idefs, it)
    for n in unions:
        k = draw(st.integers(1, max(1, min(3, len(objects)))))
        members = draw(st.permutations(objects))[:k] if objects else []
        types.append({"kind": "union", "name": n, "members": list(members), "desc": _desc(draw, o)})

    roots = [("Query", True), ("Mutation", o.mutation and draw(st.booleans())), ("Subscription", o.subscription and draw(st.booleans()))]
    for rn, on in roots:
        if not on:
            continue
        fields = []
        for fn in uniq(draw, ["getItem", "all_items", "search", "viewer", "nodes2", "stats", "node"], 1, 4):
            fields.append(field(fn, 7))
        types.append({"kind": "object", "name": rn, "implements": [], "fields": fields, "desc": _desc(draw, o)})
    model["types"] = list(draw(st.permutations(types))) if o.shuffle is not False else types
    return model


def _can_implement(d, idefs, it):
    names = {f["name"]: f for f in d["fields"]}
    for p in [it] + idefs[it]["implements"]:
        for f in idefs[p]["fields"]:
            if f["name"] in names and names[f["name"]]["type"] != f["type"]:
                return False
    return True


def _implement(d, idefs, it):
    names = {f["name"]: f for f in d["fields"]}
    for p in [it] + idefs[it]["implements"]:
        if p not in d["implements"]:
            d["implements"].append(p)
        for f in idefs[p]["fields"]:
            if f["name"] in names:
                names[f["name"]].update(args=f["args"])
            else:
                d["fields"].append(dict(f))
                names[f["name"]] = d["fields"][-1]


# ------------------------------------------------------------------ printing

def _d(desc, ind=""):
    if desc is None:
        return ""
    return ind + sdl_string(desc) + "\n"


def _dep(x):
    if x is None:
        return ""
    return f" @deprecated(reason: {sdl_string(x)})" if x != "No longer supported" else " @deprecated"


def _arg(a):
    s = f"{a['name']}: {a['type']}"
    if a.get("default") is not None:
        s += f" = {a['default']}"
    s += _dep(a.get("deprecated")) + a.get("suffix", "")
    return s


def print_type(t):
    k = t["kind"]
    out = _d(t.get("desc"))
    dirs = "".join(" " + d for d in t.get("directives", []))
    if k == "enum":
        out += f"enum {t['name']}{dirs} {{\n" + "".join(
            _d(v.get("desc"), "  ") + f"  {v['name']}{_dep(v.get('deprecated'))}\n" for v in t["values"]) + "}\n"
    elif k == "input":
        out += f"input {t['name']}{dirs} {{\n" + "".join(_d(f.get("desc"), "  ") + "  " + _arg(f) + "\n" for f in t["fields"]) + "}\n"
    elif k == "union":
        out += f"union {t['name']}{dirs} = " + " | ".join(t["members"]) + "\n"
    elif k == "scalar":
        out += f"scalar {t['name']}\n"
    else:
        impl = " implements " + " & ".join(t["implements"]) if t.get("implements") else ""
        out += f"{'type' if k == 'object' else 'interface'} {t['name']}{impl}{dirs} {{\n"
        for f in t["fields"]:
            a = "(" + ", ".join(_arg(x) for x in f["args"]) + ")" if f.get("args") else ""
            out += _d(f.get("desc"), "  ") + f"  {f['name']}{a}: {f['type']}{_dep(f.get('deprecated'))}{f.get('suffix', '')}\n"
        out += "}\n"
    return out


def print_schema(model):
    parts = [d + "\n" for d in model.get("directives", [])]
    parts += [f"scalar {n}\n" for n in model["scalars"]]
    parts += [print_type(t) for t in model["types"]]
    return "\n".join(parts)
