"""C09: generated functions forward exactly what the caller passed."""
import asyncio
import inspect
import json

from graphql import build_schema, parse, parse_type, type_from_ast, GraphQLNonNull
from hypothesis import strategies as st

import common as cm
import docgen as dg
import exec_stub
import inputgen as ig
import oracle
import varcases as vc
from core import Sub
from oracle import Violation
from pyvalues import build

USE = {("query", False): "exec_stub.vp_execute", ("query", True): "exec_stub.vp_aexecute", ("mutation", False): "exec_stub.vp_execute",
       ("mutation", True): "exec_stub.vp_aexecute", ("subscription", False): "exec_stub.vp_subscribe", ("subscription", True): "exec_stub.vp_asubscribe"}


def functions(mod):
    return {n: f for n, f in vars(mod.mod).items() if inspect.isfunction(f) and f.__module__ == mod.name}


def find_function(mod, funcs, op, definition):
    prefix = funcs["prepend_async"] if definition["is_async"] else funcs["prepend_sync"]
    found = []
    for n, f in functions(mod).items():
        is_async = inspect.iscoroutinefunction(f) or inspect.isasyncgenfunction(f)
        if is_async == definition["is_async"] and n.startswith(prefix) and cm.squash(n) == cm.squash(prefix + op["name"]):
            found.append(f)
    if len(found) != 1:
        raise Violation("missing function", f"{op['name']} ({prefix!r}, async={definition['is_async']}): {len(found)} functions among {sorted(functions(mod))}")
    return found[0]


def drive(f, definition, kind, args, kwargs):
    out = f(*args, **kwargs)
    if kind == "subscription":
        if definition["is_async"]:
            async def collect():
                return [x async for x in out]
            return asyncio.run(collect())
        return list(out)
    return asyncio.run(out) if definition["is_async"] else out


def run(case):
    labels = set()
    schema = build_schema(case["sdl"])
    document = parse(cm.case_text(case))
    roots = {d.name.value: d for d in document.definitions if d.kind == "operation_definition"}
    funcs = case["funcs"]
    ve = cm.validation_error()
    with cm.load(case, ["enums", "inputs", "fragments", "operations", ["funcs", funcs]]) as mod:
        for op in case["ops"]:
            cls = cm.operation(mod, op["name"])
            definitions = [d for d in funcs["definitions"] if d["type"] == op["kind"]]
            types = {n: type_from_ast(schema, parse_type(v["type"])) for n, v in op["vars"].items()}
            required = {n for n, v in op["vars"].items() if isinstance(types[n], GraphQLNonNull) and v["default"] is None}
            selections = roots[op["name"]].selection_set.selections
            collapsed = funcs["collapse_lonely"] and len(selections) == 1
            for definition in definitions:
                f = find_function(mod, funcs, op, definition)
                sig = inspect.signature(f)
                extra_args = funcs["global_args"] + definition["extra_args"]
                extra_kwargs = funcs["global_kwargs"] + definition["extra_kwargs"]
                extras = {a["key"] for a in extra_args + extra_kwargs}
                params = {}
                for p in sig.parameters:
                    if p not in extras:
                        names = [n for n in op["vars"] if cm.squash(n) == cm.squash(p)]
                        if len(names) != 1:
                            raise Violation("unexpected parameter", f"{f.__name__}: {p}")
                        params[names[0]] = p
                if set(params) != set(op["vars"]) or not extras <= set(sig.parameters):
                    raise Violation("wrong parameters", f"{f.__name__}{sig} for {op['vars']}")
                must = {params[n] for n in required} | {a["key"] for a in extra_args}
                actual = {n for n, p in sig.parameters.items() if p.default is inspect.Parameter.empty}
                if must != actual:
                    raise Violation("wrong required parameters", f"{f.__name__}{sig}: required {sorted(actual)}, the operation requires {sorted(must)}")
                for k in extra_kwargs:
                    if sig.parameters[k["key"]].default != k["default"]:
                        raise Violation("wrong default", f"{f.__name__}: {k}")
                for call in case["calls"][op["name"]]:
                    result = cls.model_validate(case["responses"][op["name"]][0])
                    exec_stub.reset([result, result] if op["kind"] == "subscription" else result)
                    given = {n: build(mod, types[n], v, call["how"]) for n, v in call["values"].items()}
                    bound = {params[n]: v for n, v in given.items()}
                    tokens = [object() for _ in extra_args]
                    bound.update({a["key"]: t for a, t in zip(extra_args, tokens)})
                    given_kw = {k["key"]: object() for k in extra_kwargs if call["extra"]}
                    bound.update(given_kw)
                    args, kwargs = [], {}
                    positional = call["positional"]
                    for p in sig.parameters:
                        if p not in bound:
                            positional = 0
                        elif positional:
                            args.append(bound[p])
                            positional -= 1
                        else:
                            kwargs[p] = bound[p]
                            positional = 0
                    out = drive(f, definition, op["kind"], args, kwargs)
                    if len(exec_stub.calls) != 1:
                        raise Violation("executor calls", f"{f.__name__}: called {len(exec_stub.calls)} times")
                    cargs, ckwargs = exec_stub.calls[0]
                    if len(cargs) != len(tokens) + 2 or any(a is not b for a, b in zip(cargs, tokens)) or cargs[-2] is not cls:
                        raise Violation("executor arguments", f"{f.__name__}: {cargs}")
                    expect_kw = {k["key"]: given_kw.get(k["key"], k["default"]) for k in extra_kwargs}
                    if ckwargs != expect_kw:
                        raise Violation("executor keywords", f"{f.__name__}: {ckwargs} instead of {expect_kw}")
                    variables = cargs[-1]
                    if set(variables) != set(given):
                        raise Violation("forwarded variables", f"{f.__name__}: {sorted(variables)} forwarded for {sorted(given)}")
                    for n, v in given.items():
                        if variables[n] is not v and variables[n] != v:
                            raise Violation("forwarded value", f"{f.__name__}: {n}: {variables[n]!r} for {v!r}")
                    try:
                        wire = oracle.dump(cls.Arguments(**variables), exclude_unset=True)
                    except ve as e:
                        raise Violation("arguments model rejects the forwarded variables", f"{f.__name__}: {variables}\n{e}")
                    d = oracle.diff(call["values"], wire)
                    if d:
                        raise Violation("wire variables differ", f"{f.__name__}: {d}")
                    node = selections[0]
                    expected = result
                    if collapsed:
                        key = (node.alias or node.name).value
                        expected = getattr(result, oracle.fields_by_alias(cls)[key][0])
                        labels.add("collapsed")
                    outs = out if op["kind"] == "subscription" else [out]
                    if len(outs) != len(exec_stub.results[-1] if op["kind"] == "subscription" else [0]):
                        raise Violation("results", f"{f.__name__}: {len(outs)} events")
                    for o in outs:
                        if o is not expected and o != expected:
                            raise Violation("result", f"{f.__name__} returned {o!r} instead of {expected!r}")
                    labels.add(op["kind"] + ("-async" if definition["is_async"] else ""))
                    if len(given) < len(op["vars"]):
                        labels.add("omitted")
                    if None in call["values"].values():
                        labels.add("null")
                    if len(args) > len(extra_args):
                        labels.add("positional")
                    if len(op["vars"]) > 1:
                        labels.add("nt")
                    # a required parameter left out is an error before the executor runs
                    for p in sorted(must):
                        exec_stub.reset(None)
                        try:
                            drive(f, definition, op["kind"], [], {k: v for k, v in bound.items() if k != p})
                        except TypeError:
                            pass
                        else:
                            raise Violation("required parameter omitted", f"{f.__name__}: {p}")
    return labels


KWARG_DEFAULTS = [("int", 3), ("str", "x"), ("exec_stub.Context", None), ("bool", True), ("float", 0.5), ("str", None)]


def funcs_config(draw):
    def args(keys):
        return [{"key": k, "type": draw(st.sampled_from(["exec_stub.Client", "str", "int"]))} for k in keys if draw(st.integers(0, 2)) == 0]

    def kwargs(keys):
        out = []
        for k in keys:
            if draw(st.integers(0, 2)) == 0:
                t, d = draw(st.sampled_from(KWARG_DEFAULTS))
                out.append({"key": k, "type": t, "default": d})
        return out
    definitions = []
    for kind in ("query", "mutation", "subscription"):
        for is_async in draw(st.sampled_from([[False], [True], [False, True]])):
            definitions.append({"type": kind, "is_async": is_async, "use": USE[kind, is_async], "extra_args": args(["ctx_b", "link"]),
                                "extra_kwargs": kwargs(["timeout", "retries"])})
    sync, async_ = draw(st.sampled_from([("", "a"), ("call_", "acall_"), ("run_", "a_"), ("", "async_")]))
    return {"definitions": definitions, "global_args": args(["client", "ctx_a"]), "global_kwargs": kwargs(["tracer"]),
            "collapse_lonely": draw(st.booleans()), "prepend_sync": sync, "prepend_async": async_, "extract_documentation": draw(st.booleans())}


def calls(draw, schema, ops, scalars):
    return {op["name"]: [{"values": v, "how": draw(st.sampled_from(["kwargs", "instances"])), "positional": draw(st.integers(0, 6)), "extra": draw(st.booleans())}
                         for v in vc.assignments(draw, schema, op, scalars, 2)] for op in ops}


def extra_vars(draw, model, schema, case):
    gen = dg.ResponseGen(draw, dg.RefDoc(schema, cm.case_text(case)), model["scalars"])
    ref = gen.ref
    funcs = funcs_config(draw)
    if case["stylers"] == ["snake"] and not funcs["prepend_sync"]:  # an undecorated function name may equal an undecorated class name
        funcs.update(prepend_sync="call_", prepend_async="acall_")
    return {"funcs": funcs, "calls": calls(draw, schema, case["ops"], model["scalars"]),
            "responses": {op["name"]: [gen.operation(ref.ops[op["name"]])] for op in case["ops"]}}


def extra_doc(draw, model, schema, doc):
    funcs = funcs_config(draw)
    if not funcs["prepend_sync"]:
        funcs.update(prepend_sync="call_", prepend_async="acall_")
    return {"funcs": funcs, "calls": calls(draw, schema, doc["ops"], model["scalars"])}


SUBS = [
    Sub("variables", lambda: vc.cases(extra=extra_vars, stylers=st.sampled_from([["default"], ["snake"], ["capitalize", "snake"], ["capitalize"]])), run, quick=700,
        rule="operations with 1-4 variables, function definitions (sync and async, extra arguments, keyword defaults, prefixes, collapse), calls with argument subsets, "
        "nulls, positional and keyword passing, recorded by an executor stub; non-trivial: at least two variables"),
    Sub("documents", lambda: cm.client_cases(responses=1, extra=extra_doc), run, quick=400,
        rule="the same over random documents with nested selections, fragments and aliases; non-trivial: at least two variables"),
]
