"""C25: defaults, deprecations and descriptions are preserved and never alter behaviour."""
import ast
import copy
import enum
import inspect
import itertools
import re
import typing

from graphql import (GraphQLEnumType, GraphQLInputObjectType, GraphQLInterfaceType, GraphQLList, GraphQLNonNull, GraphQLObjectType, GraphQLUnionType, Undefined, build_schema,
                     get_named_type, parse, print_ast, type_from_ast, value_from_ast, value_from_ast_untyped)
from graphql.language import ast as gast
from hypothesis import assume, strategies as st

import common as cm
import docgen as dg
import inputgen as ig
import oracle
import sut
from core import Sub
from oracle import Violation

TECHNIQUE = ("property-based testing (Hypothesis): random descriptions, deprecations and defaults; markers and documentation are compared with the schema, "
             "and modules generated with and without descriptions and deprecations are run on the same payloads (differential)")
NASTY = ['"', "'", "\\", '"""', "'''", "'\"'\"", "ends with \\", 'ends with "', "a\nb", "  indented\n    more\n", "\n", "tab\there", "{x} %s %(y)d", "# no comment", "\r\n", "\x00", "\x7f", "\x1b[0m",
         "ümläut ✓ \U0001f600", "\u2028", "\ufeff", "\u202e", "\\n \\x41 \\u0041 \\N{DASH}", "f'{__import__}'", "Args:\n    x: y", "No documentation", " ", "DEPRECATED: ", "\"\"\"\n\nclass X: pass\n\"\"\""]
texts = st.one_of(st.sampled_from(NASTY), st.lists(st.sampled_from(NASTY), min_size=2, max_size=3).map("".join), st.text("ab \"'\\\n{}%#é✓", min_size=1, max_size=8), st.just("A plain description"))
DESCRIBED = (gast.ObjectTypeDefinitionNode, gast.InterfaceTypeDefinitionNode, gast.UnionTypeDefinitionNode, gast.EnumTypeDefinitionNode, gast.InputObjectTypeDefinitionNode, gast.ScalarTypeDefinitionNode,
             gast.FieldDefinitionNode, gast.InputValueDefinitionNode, gast.EnumValueDefinitionNode)


def strip(sdl):
    document = parse(sdl, no_location=True)
    for d in document.definitions:
        undress(d)
    return print_ast(document)


def members(d):
    return list(getattr(d, "fields", None) or ()) + list(getattr(d, "values", None) or ())


def undress(d):
    if isinstance(d, DESCRIBED):
        d.description = None
    d.directives = tuple(x for x in getattr(d, "directives", None) or () if x.name.value != "deprecated")
    for m in members(d) + list(getattr(d, "arguments", None) or ()):
        undress(m)


def decorate(draw, sdl, share=3):
    """random descriptions and deprecations wherever the language allows them"""
    document = parse(strip(sdl), no_location=True)

    def dress(d):
        if isinstance(d, DESCRIBED) and draw(st.integers(0, share)) == 0:
            d.description = gast.StringValueNode(value=draw(texts), block=False)
        optional = isinstance(d, gast.InputValueDefinitionNode) and (d.default_value is not None or not isinstance(d.type, gast.NonNullTypeNode))
        if (optional or isinstance(d, (gast.FieldDefinitionNode, gast.EnumValueDefinitionNode))) and draw(st.integers(0, share)) == 0:
            reason = draw(st.one_of(st.none(), texts))
            args = () if reason is None else (gast.ArgumentNode(name=gast.NameNode(value="reason"), value=gast.StringValueNode(value=reason, block=False)),)
            d.directives = (*d.directives, gast.DirectiveNode(name=gast.NameNode(value="deprecated"), arguments=args))
        for m in members(d) + list(getattr(d, "arguments", None) or ()):
            dress(m)
    for d in document.definitions:
        if not (isinstance(d, gast.InputObjectTypeDefinitionNode) and any(x.name.value == "oneOf" for x in d.directives)):
            dress(d)
    return print_ast(document)


# ------------------------------------------------------------------ what the schema says
def literal(text):
    try:
        return ast.literal_eval(text)
    except (ValueError, SyntaxError):
        return Undefined


def tells(text, values):
    """whether the text of a marker stands for one of the values"""
    for v in values:
        if isinstance(v, str):
            if text == v:
                return True
        else:
            got = literal(text)
            if type(got) is type(v) and oracle.diff(v, got) is None:
                return True
    return False


def markers(field, names):
    default, deprecated = names
    return [m.value for m in field.metadata if type(m).__name__ == default], [m.reason for m in field.metadata if type(m).__name__ == deprecated]


def check_markers(field, names, defaults, reasons, what):
    """defaults: acceptable values, or none for no marker; reasons: acceptable reasons (None: no marker)"""
    got, why = markers(field, names)
    if (len(got) != 1 or not tells(got[0], defaults)) if defaults else got:
        raise Violation("default marker", f"{what}: {got!r} for {defaults!r}")
    if len(why) > 1 or (why[0] if why else None) not in reasons:
        raise Violation("deprecation marker", f"{what}: {why!r} for {sorted(map(repr, reasons))}")
    return {"nt"} | ({"default"} if got else set()) | ({"deprecated"} if why else set()) if got or why else {"no marker"}


def documentation(source):
    """(class, attribute) -> the string below it"""
    out = {}

    def visit_body(body, prefix):
        for i, node in enumerate(body):
            if isinstance(node, ast.ClassDef):
                visit_body(node.body, prefix + node.name + ".")
            target = node.target if isinstance(node, ast.AnnAssign) else node.targets[0] if isinstance(node, ast.Assign) else None
            if isinstance(target, ast.Name) and prefix and i + 1 < len(body):
                after = body[i + 1]
                if isinstance(after, ast.Expr) and isinstance(after.value, ast.Constant) and isinstance(after.value.value, str):
                    out[(prefix[:-1], target.id)] = after.value.value
    visit_body(ast.parse(source).body, "")
    return out


def check_documentation(text, d, default, metadata, what):
    """text: what the generated code says; d: the definition in the schema"""
    text = text or ""
    if d.description and d.description not in text:
        raise Violation("description lost", f"{what}: {text!r} for {d.description!r}")
    said = [x for x in (d.deprecation_reason, default) if x]
    if metadata:
        for x in said:
            if x not in text:
                raise Violation("metadata not documented", f"{what}: {text!r} for {x!r}")
    elif text not in ("", d.description):
        raise Violation("metadata documented in spite of the option", f"{what}: {text!r} for {d.description!r}")
    return {"documented"} if d.description else set()


def check_class(cls, t, what):
    if t.description and t.description not in (cls.__doc__ or ""):
        raise Violation("type description lost", f"{what}: {cls.__doc__!r} for {t.description!r}")


def names_of(case):
    c = case["config"]
    return c.get("graphql_default_class", "GraphQLDefault").split(".")[-1], c.get("deprecated_class", "Deprecated").split(".")[-1]


def settings(draw):
    config = {"document_field_metadata": draw(st.booleans())}
    if draw(st.booleans()):
        config["graphql_default_class"] = "basemarks.Preset"
    if draw(st.booleans()):
        config["deprecated_class"] = "basemarks.Obsolete"
    return config


def extra(draw, model, schema, doc):
    return {"sdl": decorate(draw, cm_sdl(model)), "config": settings(draw)}


def cm_sdl(model):
    import schemagen as sg
    return sg.print_schema(model)


def check_own_markers(mod, case):
    for option, name in (("graphql_default_class", "GraphQLDefault"), ("deprecated_class", "Deprecated")):
        own, generated = case["config"].get(option), mod.mod.__dict__.get(name)
        if own and isinstance(generated, type) and generated.__module__ == mod.name:
            raise Violation("marker generated in spite of the option", f"{option}={own}")
        if own and own.split(".")[-1] in mod.mod.__dict__:
            import basemarks
            if mod.mod.__dict__[own.split(".")[-1]] is not getattr(basemarks, own.split(".")[-1]):
                raise Violation("wrong marker class", f"{option}={own}")


def default_text(value):
    return None if value is Undefined or value is None else str(value)


def run_client(case):
    labels, schema = set(), build_schema(case["sdl"])
    ref = dg.RefDoc(schema, cm.case_text(case))
    names, metadata = names_of(case), case["config"]["document_field_metadata"]
    unreferenced = {"skip_unreferenced": False}
    with cm.load(case, [["enums", unreferenced], ["inputs", unreferenced], "fragments", "operations"]) as mod:
        docs = documentation(mod.source)
        check_own_markers(mod, case)
        for name, t in schema.type_map.items():
            if isinstance(t, GraphQLInputObjectType):
                cls = cm.input_class(mod, name)
                if cls is None:
                    continue
                check_class(cls, t, name)
                fields = oracle.fields_by_alias(cls)
                for key, f in t.fields.items():
                    pyname, info = fields[key]
                    default = f.default_value
                    labels |= check_markers(info, names, [] if default is Undefined or default is None else [default], {f.deprecation_reason}, f"{name}.{key}")
                    if (info.description or None) != (f.description or None):
                        raise Violation("field description", f"{name}.{key}: {info.description!r} for {f.description!r}")
                    below = docs.get((cls.__qualname__, pyname))
                    if below is not None or metadata:
                        labels |= check_documentation(below if below is not None else info.description, f, default_text(default), metadata, f"{name}.{key}")
            elif isinstance(t, GraphQLEnumType) and not name.startswith("__"):
                cls = cm.enum_class(mod, name)
                if cls is None:
                    continue
                check_class(cls, t, name)
                for key, v in t.values.items():
                    member = cls(key)
                    labels |= check_documentation(docs.get((cls.__qualname__, member.name)), v, None, True, f"{name}.{key}")
        classes = cm.operations(mod)
        for op in case["ops"]:
            node, cls = ref.ops[op["name"]], classes[op["name"]]
            fields = oracle.fields_by_alias(cls.Arguments)
            for v in node.variable_definitions:
                key, values = v.variable.name.value, []
                if v.default_value is not None and not isinstance(v.default_value, gast.NullValueNode):
                    values = [value_from_ast(v.default_value, type_from_ast(schema, v.type)), value_from_ast_untyped(v.default_value)]
                labels |= check_markers(fields[key][1], names, values, {None}, f"${key} of {op['name']}")
            for data in case["responses"][op["name"]]:
                model = cls.model_validate(copy.deepcopy(data))
                labels |= walk_object(ref, model, ref.root(node), [(node.selection_set, ref.root(node))], data, op["name"], names, docs, metadata)
    return labels


def walk_object(ref, model, obj, sets, data, where, names, docs, metadata):
    labels = set()
    fields = oracle.fields_by_alias(type(model))
    for key, pairs in dg.collect_typed(ref, obj, sets).items():
        name = pairs[0][0].name.value
        if name == "__typename":
            continue
        pyname, info = fields[key]
        defs = [parent.fields[name] for _, parent in pairs] + [obj.fields[name]]
        labels |= check_markers(info, names, [], {d.deprecation_reason for d in defs}, f"{where}.{key}")
        owner = next(c for c in type(model).__mro__ if pyname in getattr(c, "__annotations__", {}))
        text = docs.get((owner.__qualname__, pyname))
        failure = None
        for d in defs:
            try:
                labels |= check_documentation(text, d, None, metadata, f"{where}.{key}")
                break
            except Violation as e:
                failure = failure or e
        else:
            raise failure
        labels |= walk(ref, getattr(model, pyname), obj.fields[name].type, [n.selection_set for n, _ in pairs], data[key], f"{where}.{key}", names, docs, metadata)
    return labels


def walk(ref, value, t, sets, data, where, names, docs, metadata):
    labels = set()
    if isinstance(t, GraphQLNonNull):
        t = t.of_type
    if value is None or data is None:
        return labels
    if isinstance(t, GraphQLList):
        for i, (v, d) in enumerate(zip(value, data)):
            labels |= walk(ref, v, t.of_type, sets, d, f"{where}[{i}]", names, docs, metadata)
    elif isinstance(t, (GraphQLObjectType, GraphQLInterfaceType, GraphQLUnionType)):
        obj = ref.schema.type_map[data["__typename"]]
        if isinstance(t, GraphQLObjectType):
            check_class(type(value), obj, where)
        labels |= walk_object(ref, value, obj, [(s, t) for s in sets], data, where, names, docs, metadata)
    return labels


def run_objects(case):
    labels, schema = set(), build_schema(case["sdl"])
    names, metadata = names_of(case), case["config"]["document_field_metadata"]
    with sut.load(case["sdl"], None, cm.config_of(case), [["enums", {"skip_unreferenced": False}], "objects"], cm.stylers_of(case)) as mod:
        from pydantic import BaseModel
        docs = documentation(mod.source)
        check_own_markers(mod, case)
        for name, t in schema.type_map.items():
            if not isinstance(t, (GraphQLObjectType, GraphQLInterfaceType)) or name.startswith("__"):
                continue
            cls = cm.by_graphql_name(mod, name, BaseModel, ("", "Base") if isinstance(t, GraphQLInterfaceType) else ("",))
            if cls is None:
                labels.add("class not found")
                continue
            check_class(cls, t, name)
            fields = oracle.fields_by_alias(cls)
            for key, f in t.fields.items():
                pyname, info = fields[key]
                labels |= check_markers(info, names, [], {f.deprecation_reason}, f"{name}.{key}")
                owner = next(c for c in cls.__mro__ if pyname in getattr(c, "__annotations__", {}))
                labels |= check_documentation(docs.get((owner.__qualname__, pyname)), f, None, metadata, f"{name}.{key}")
    return labels


# ------------------------------------------------------------------ with and without
FUNCS = {"definitions": [{"type": k, "is_async": False, "use": "exec_stub.vp_subscribe" if k == "subscription" else "exec_stub.vp_execute"} for k in ("query", "mutation", "subscription")], "global_args": [], "prepend_sync": "call_"}


def shape(mod):
    """all that descriptions and deprecations must leave alone"""
    out = {}
    for name, value in cm.classes(mod):
        if name in ("GraphQLDefault", "Deprecated", "UnsetType"):
            continue
        if issubclass(value, enum.Enum):
            out[name] = {m: v.value for m, v in value.__members__.items()}
        elif hasattr(value, "model_fields"):
            out[name] = {f: (i.alias, i.is_required(), repr(i.default), str(i.annotation).replace(mod.name, "m"), [str(m).replace(mod.name, "m") for m in i.metadata if type(m).__name__ not in ("GraphQLDefault", "Deprecated")])
                         for f, i in value.model_fields.items()}
            out[name]["bases"] = [b.__name__ for b in value.__mro__]
        else:
            out[name] = {k: v for k, v in vars(value).items() if not k.startswith("__")}
    for name, value in vars(mod.mod).items():
        if inspect.isfunction(value) and value.__module__ == mod.name:
            out[name] = ([(p.name, p.kind.name, repr(p.default).replace(mod.name, "m")) for p in inspect.signature(value).parameters.values()],
                         {k: str(t).replace(mod.name, "m") for k, t in typing.get_type_hints(value).items()})
    return out


def outcome(cls, data, **kw):
    try:
        return ["ok", oracle.dump(cls.model_validate(copy.deepcopy(data)), **kw)]
    except cm.validation_error():
        return ["refused"]


def neutral_extra(draw, model, schema, doc):
    sdl = cm_sdl(model)
    ref = dg.RefDoc(schema, dg.doc_text(doc))
    bad = {}
    for o in doc["ops"]:
        op = ref.ops[o["name"]]
        response = dg.ResponseGen(draw, ref, model["scalars"], null_rate=9).operation(op)
        places = dg.positions(ref, op, response)
        if places:
            path, t, value, _, _ = draw(st.sampled_from(places))
            bad[o["name"]] = ig.apply(response, path, [draw(st.sampled_from([None, 5, "abc", [], {}]))]) if path else response
    inputs = {}
    for n, t in schema.type_map.items():
        if isinstance(t, GraphQLInputObjectType) and draw(st.booleans()):
            payload = ig.InputGen(draw, model["scalars"]).value(GraphQLNonNull(t))
            inputs[n] = [payload, {**payload, draw(st.sampled_from(sorted(t.fields))): draw(st.sampled_from([5, "abc", [], None]))} if isinstance(payload, dict) else payload]
    return {"plain": strip(sdl), "sdl": decorate(draw, sdl, 1), "bad": bad, "inputs": inputs, "config": {"document_field_metadata": draw(st.booleans())}}


def run_neutral(case):
    labels = set()
    unreferenced = {"skip_unreferenced": False}
    plugins = [["enums", unreferenced], ["inputs", unreferenced], "fragments", "operations", ["funcs", FUNCS], ["input_funcs", unreferenced]]
    plain = {**case, "sdl": case["plain"], "config": {}}
    with cm.load(case, plugins) as a, cm.load(plain, plugins) as b:
        one, two = shape(a), shape(b)
        for name in sorted(one.keys() | two.keys()):
            if one.get(name) != two.get(name):
                raise Violation("metadata changes the module", f"{name}: with {one.get(name)}, without {two.get(name)}")
        ca, cb = cm.operations(a), cm.operations(b)
        for op in case["ops"]:
            n = op["name"]
            for data in [*case["responses"][n], *([case["bad"][n]] if n in case["bad"] else [])]:
                x, y = outcome(ca[n], data), outcome(cb[n], data)
                if x != y:
                    raise Violation("metadata changes responses", f"{n} {cm.short(data)}: with {x}, without {y}")
                labels.add(f"response {x[0]}")
            if ca[n].Meta.document != cb[n].Meta.document:
                raise Violation("metadata changes documents", n)
        for name, payloads in case["inputs"].items():
            x, y = cm.input_class(a, name), cm.input_class(b, name)
            if x is None or y is None:
                continue
            for p in payloads:
                with_, without = outcome(x, p, exclude_unset=True), outcome(y, p, exclude_unset=True)
                if with_ != without:
                    raise Violation("metadata changes inputs", f"{name} {cm.short(p)}: with {with_}, without {without}")
                labels.add(f"input {with_[0]}")
    if case["sdl"] != case["plain"]:
        labels.add("nt")
    return labels


# ------------------------------------------------------------------ what generated functions say about operations and arguments
def described_arguments(schema, root, selection_set, out):
    """variable -> the arguments it fills directly, along the fields of the operation itself"""
    for s in selection_set.selections if selection_set else ():
        if isinstance(s, gast.FieldNode) and not s.name.value.startswith("__"):
            field = root.fields[s.name.value]
            for a in s.arguments:
                if isinstance(a.value, gast.VariableNode):
                    out.setdefault(a.value.name.value, []).append(field.args[a.name.value])
            t = get_named_type(field.type)
            if hasattr(t, "fields"):
                described_arguments(schema, t, s.selection_set, out)
    return out


def run_functions(case):
    labels, schema = set(), build_schema(case["sdl"])
    roots = {d.name.value: d for d in parse(cm.case_text(case)).definitions if isinstance(d, gast.OperationDefinitionNode)}
    with cm.load(case, ["enums", "inputs", "fragments", "operations", ["funcs", {**FUNCS, "collapse_lonely": case["collapse"]}]]) as mod:
        for op in case["ops"]:
            d = roots[op["name"]]
            root = {"query": schema.query_type, "mutation": schema.mutation_type, "subscription": schema.subscription_type}[op["kind"]]
            functions = [f for n, f in vars(mod.mod).items() if inspect.isfunction(f) and f.__module__ == mod.name and cm.squash(n) == cm.squash("call_" + op["name"])]
            if len(functions) != 1:
                raise Violation("functions", f"{op['name']}: {[f.__name__ for f in functions]}")
            fills = described_arguments(schema, root, d.selection_set, {})
            for f in functions:
                doc = f.__doc__ or ""
                for s in d.selection_set.selections:
                    if isinstance(s, gast.FieldNode) and not s.name.value.startswith("__") and root.fields[s.name.value].description:
                        labels |= {"nt", "operation described"}
                        if root.fields[s.name.value].description not in doc:
                            raise Violation("description lost", f"{f.__name__}: {doc!r} does not say {root.fields[s.name.value].description!r} of {s.name.value}")
                for p in inspect.signature(f).parameters:
                    names = [n for n in op["vars"] if cm.squash(n) == cm.squash(p)]
                    if len(names) != 1:
                        continue
                    known = [a.description for a in fills.get(names[0], []) if a.description]
                    start = re.search(r"^    %s \([^\n]*?\): " % re.escape(p), doc, re.M)
                    if not start:
                        raise Violation("argument not documented", f"{f.__name__}: {p} in {doc!r}")
                    labels.add("described" if known else "undescribed")
                    starts = {m.end() for m in re.finditer(r"^    %s \([^\n]*?\): " % re.escape(p), doc, re.M)}       # descriptions may look like a list of arguments
                    text = " AND ".join(known) if known else "No description"
                    if not any(doc.startswith(text, at) for at in starts):
                        if not known or not any(doc.startswith(" AND ".join(x), at) for at in starts for x in itertools.permutations(known)):
                            raise Violation("argument description", f"{f.__name__}: {p} fills {[a for a in fills.get(names[0], [])]} described by {known}, documented as {doc[start.start():]!r}")
                    labels |= {"nt"} if known else set()
    return labels


def function_extra(draw, model, schema, doc):
    return {"sdl": decorate(draw, cm_sdl(model), 1), "config": settings(draw), "collapse": draw(st.booleans())}


SUBS = [
    Sub("functions", lambda: cm.client_cases(responses=0, extra=function_extra), run_functions, quick=400,
        rule="functions of operations over schemas with random descriptions of fields and arguments; non-trivial: the field or an argument that a variable fills has a description"),
    Sub("client", lambda: cm.client_cases(extra=extra), run_client, quick=900, rule="inputs, enums, variables and response positions of schemas with random descriptions, deprecations and defaults; non-trivial: a marker is due"),
    Sub("objects", lambda: cm.client_cases(extra=extra, responses=0), run_objects, quick=300, rule="classes of the objects plugin for the same schemas; non-trivial: a marker is due"),
    Sub("neutral", lambda: cm.client_cases(extra=neutral_extra), run_neutral, quick=500, rule="the same schema with and without descriptions and deprecations; non-trivial: some are there"),
]
ASSUMPTIONS = ["a default is told by its text: the string itself, or the Python literal of any other value, as documented", "positions that merge selections on an interface and on its implementation may carry the metadata of either",
               "deprecated @oneOf members are not decorated"]
