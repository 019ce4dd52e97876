"""Variable-focused cases: operations whose root field takes many arguments of random input types, each
bound to a variable of a possibly stricter type or with an operation default."""
from graphql import build_schema, parse, validate
from hypothesis import assume, strategies as st

import common as cm
import inputgen as ig
import schemagen as sg

VAR_NAMES = ["a", "filter", "pageSize", "order_by", "ID2", "flag", "input", "x", "createdAt", "URL"]
AWKWARD = ["from", "class", "in", "self", "lambda", "None", "variables", "type", "_id", "schema", "data", "model_dump", "def_", "validate", "datetime", "int", "Optional", "float"]

SCHEMA = dict(objects=(1, 1), interfaces=(0, 0), unions=(0, 0), inputs=(0, 3), enums=(0, 2), scalars=(0, 2), max_fields=4)


def probe(draw, model, leafs=None, n=(1, 4), types=None):
    """one root field with arguments, and the operation using it"""
    names = sg.uniq(draw, VAR_NAMES, *n, awkward=AWKWARD, weight=3)
    inputs = [t["name"] for t in model["types"] if t["kind"] in ("input", "unionish")]
    enums = [t["name"] for t in model["types"] if t["kind"] == "enum"]
    leafs = sg.BUILTINS + list(model["scalars"]) + enums
    args, variables = [], {}
    for i, name in enumerate(names):
        base = draw(st.sampled_from(types or ((inputs or leafs) if draw(st.booleans()) else leafs)))
        t = sg.wrap(draw, base, 2)
        arg_default = sg.literal_for(draw, t, model) if draw(st.integers(0, 4)) == 0 else None
        args.append({"name": f"arg{i}", "type": t, "default": arg_default})
        vt, vdefault = t, None
        if not vt.endswith("!") and draw(st.integers(0, 4)) == 0:
            vt += "!"
        if draw(st.integers(0, 3)) == 0:
            vdefault = sg.literal_for(draw, vt, model)
            if vdefault == "null" and t.endswith("!"):
                vdefault = None
            elif t.endswith("!") and draw(st.booleans()):
                vt = vt[:-1]  # a nullable variable with a default may fill a non-null position
        variables[name] = {"type": vt, "default": vdefault, "arg": f"arg{i}"}
    return args, variables


@st.composite
def cases(draw, schema_opts=None, ops=(1, 3), n=(1, 4), kinds=("query", "mutation", "subscription"), extra=None, prepare=None, types=None, stylers=None):
    model = draw(sg.schema_models({**SCHEMA, **(schema_opts or {})}))
    if prepare:
        prepare(draw, model)
    out = []
    texts = []
    have = [t["name"] for t in model["types"]]
    for i in range(draw(st.integers(*ops))):
        kind = draw(st.sampled_from([k for k in kinds if k.capitalize() in have]))
        args, variables = probe(draw, model, n=n, types=types(draw, model) if types else None)
        root = next(t for t in model["types"] if t["name"] == kind.capitalize())
        rt = draw(st.sampled_from(["Int", "String!", "[Boolean]", "Float"]))
        fname = f"probe{i}"
        root["fields"].append({"name": fname, "type": rt, "args": args, "desc": None, "deprecated": None})
        op = ["Probe", "send_it", "DoThis"][i] if i < 3 else f"Op{i}"
        vs = ", ".join(f"${k}: {v['type']}" + (f" = {v['default']}" if v["default"] is not None else "") for k, v in variables.items())
        call = ", ".join(f"{v['arg']}: ${k}" for k, v in variables.items())
        texts.append(f"{kind} {op}({vs}) {{ {fname}({call}) }}")
        out.append({"name": op, "kind": kind, "vars": variables, "field": fname, "type": rt})
    sdl = sg.print_schema(model)
    schema = build_schema(sdl)
    text = "\n\n".join(texts)
    assume(not validate(schema, parse(text)))
    case = {"sdl": sdl, "files": {"ops.graphql": text}, "scalars": model["scalars"], "ops": out,
            "stylers": draw(stylers if stylers is not None else cm.styler_stacks)}
    if extra:
        case.update(extra(draw, model, schema, case))
    return case


def assignments(draw, schema, op, scalars, n=3):
    gen = ig.InputGen(draw, scalars)
    return [gen.variables(op["vars"], schema) for _ in range(n)]
