"""Shared case strategies and helpers for the client-module properties."""
import json
import typing

from graphql import build_schema, parse, print_ast, validate
from graphql.language import ast as gast
from hypothesis import assume, strategies as st

import docgen as dg
import schemagen as sg
import sut
from oracle import Violation

STYLER_STACKS = [["default"], ["default"], [], ["snake"], ["capitalize"], ["capitalize", "snake"], ["snake", "capitalize"],
                 [["appender", {"append_fragment": "Fragment", "append_query": "Query", "append_input": "In", "append_enum": "En"}]],
                 ["default", ["appender", {"append_query": "Q", "append_mutation": "M", "append_subscription": "S"}]]]

styler_stacks = st.sampled_from(STYLER_STACKS)


def stylers_of(case):
    return [s if isinstance(s, str) else (s[0], s[1]) for s in case.get("stylers", ["default"])]


@st.composite
def client_cases(draw, schema_opts=None, doc_opts=None, responses=1, stylers=None, extra=None, resp_opts=None, raw_model=False):
    """schema + documents (+ responses per operation)"""
    model = draw(sg.schema_models(schema_opts or {}))
    sdl = sg.print_schema(model)
    schema = build_schema(sdl)
    doc = draw(dg.documents(schema, model, doc_opts or {}))
    text = dg.doc_text(doc)
    assume(not validate(schema, parse(text)))
    case = {"sdl": sdl, "files": doc["files"], "scalars": model["scalars"],
            "ops": [{"name": o["name"], "kind": o["kind"], "vars": o["vars"]} for o in doc["ops"]],
            "stylers": draw(stylers if stylers is not None else styler_stacks)}
    if raw_model:
        case["model"] = model
    if responses:
        ref = dg.RefDoc(schema, text)
        case["responses"] = {}
        for o in doc["ops"]:
            case["responses"][o["name"]] = [dg.ResponseGen(draw, ref, model["scalars"], **(resp_opts or {})).operation(ref.ops[o["name"]])
                                            for _ in range(responses)]
    if extra:
        case.update(extra(draw, model, schema, doc))
    return case


def case_text(case):
    return "\n\n".join(case["files"][k] for k in sorted(case["files"]))


def config_of(case, **kw):
    return {"scalar_definitions": case["scalars"], **case.get("config", {}), **kw}


def load(case, plugins=sut.CLIENT, **kw):
    return sut.load(case["sdl"], case["files"], config_of(case, **kw), plugins, stylers_of(case))


def source(case, plugins=sut.CLIENT, **kw):
    return sut.generate_source(case["sdl"], case["files"], config_of(case, **kw), plugins, stylers_of(case))


# ------------------------------------------------------------------ finding things in a generated module

def classes(mod):
    """all classes defined by the module, nested ones included: [(qualified name, class)]"""
    out, seen = [], set()

    def visit(ns, prefix):
        for name, value in list(ns.items()):
            if isinstance(value, type) and value.__module__ == mod.name and value not in seen:
                seen.add(value)
                out.append((prefix + name, value))
                visit(vars(value), prefix + name + ".")
    visit(mod.mod.__dict__, "")
    return out


def models(mod):
    from pydantic import BaseModel
    return [(n, c) for n, c in classes(mod) if issubclass(c, BaseModel)]


def meta_documents(mod):
    for name, c in models(mod):
        meta = vars(c).get("Meta")
        if meta is not None and hasattr(meta, "document"):
            yield name, c, meta


def operations(mod):
    """GraphQL operation name -> class, found through the document each class carries"""
    out = {}
    for name, c, meta in meta_documents(mod):
        ops = [d for d in parse(meta.document).definitions if isinstance(d, gast.OperationDefinitionNode)]
        if ops:
            for d in ops:
                if d.name.value in out:
                    raise Violation("duplicate operation class", f"{d.name.value}: {out[d.name.value]} and {c}")
                out[d.name.value] = c
    return out


def fragments(mod):
    """object fragments: GraphQL name -> class"""
    out = {}
    for name, c, meta in meta_documents(mod):
        if hasattr(meta, "type") and hasattr(meta, "name"):
            out[meta.name] = c
    return out


def operation(mod, name):
    cls = operations(mod).get(name)
    if cls is None:
        raise Violation("missing operation", f"no class for operation {name}")
    return cls


def squash(name):
    return name.replace("_", "").lower()


def by_graphql_name(mod, name, base, suffixes=("",)):
    """the class generated for a GraphQL input/enum/object type, whatever styler was used"""
    wanted = {squash(name) + squash(s) for s in suffixes}
    found = [c for n, c in classes(mod) if "." not in n and issubclass(c, base) and squash(n) in wanted and "Meta" not in vars(c)]
    return found[0] if len(found) == 1 else None


def input_class(mod, name):
    from pydantic import BaseModel
    return by_graphql_name(mod, name, BaseModel, ("", "In"))


def enum_class(mod, name):
    from enum import Enum
    return by_graphql_name(mod, name, Enum, ("", "En"))


def validation_error():
    from pydantic import ValidationError
    return ValidationError


def short(x, n=500):
    t = x if isinstance(x, str) else json.dumps(x, ensure_ascii=False, default=str)
    return t if len(t) <= n else t[:n] + "..."


def reachable(schema, document):
    """(enums, inputs) the documents need: selected fields' enums and variables' types, inputs transitively"""
    from graphql import (GraphQLEnumType, GraphQLInputObjectType, TypeInfo, TypeInfoVisitor, Visitor, get_named_type,
                         type_from_ast, visit)
    enums, inputs = set(), set()
    info = TypeInfo(schema)

    def need(t):
        t = get_named_type(t)
        if isinstance(t, GraphQLEnumType):
            enums.add(t.name)
        elif isinstance(t, GraphQLInputObjectType) and t.name not in inputs:
            inputs.add(t.name)
            for f in t.fields.values():
                need(f.type)

    class V(Visitor):
        def enter_field(self, node, *_):
            t = get_named_type(info.get_type())
            if isinstance(t, GraphQLEnumType):
                enums.add(t.name)

        def enter_variable_definition(self, node, *_):
            need(type_from_ast(schema, node.type))
    visit(document, TypeInfoVisitor(info, V()))
    return enums, inputs
