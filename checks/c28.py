"""C28: starter templates give working projects."""
import ast
import asyncio
import contextlib
import copy
import inspect
import json
import os
import re
import sys
import types
import warnings

import yaml
from graphql import build_schema, parse_type, type_from_ast, validate_schema
from hypothesis import assume, strategies as st

import c18
import common as cm
import exec_stub
import inputgen as ig
import oracle
import projects as P
import schemagen as sg
import sut
import varcases as vc
from core import Sub
from oracle import Violation

TECHNIQUE = "property-based testing (Hypothesis): 'turms init' under random environments, then generation from random schemas and documents; histories of resolver edits and schema growth for the server template"
TOOLS = ["black", "isort", "libcst"]
NAMES = ["graphql.config.yaml", "turms.config.yaml", "graphql.config.yml", "my config.yaml"]


@contextlib.contextmanager
def installed(tools):
    """an environment in which the other tools are not installed"""
    hidden = [m for m in list(sys.modules) if m.split(".")[0] in TOOLS and m.split(".")[0] not in tools]
    saved = {m: sys.modules.pop(m) for m in hidden}
    absent = [t for t in TOOLS if t not in tools]
    sys.modules.update({t: None for t in absent})
    try:
        yield
    finally:
        for t in absent:
            sys.modules.pop(t, None)
        sys.modules.update(saved)


@contextlib.contextmanager
def stand_ins(root):
    """the client libraries and the project's own modules"""
    modules = {"rath": types.SimpleNamespace(Rath=exec_stub.Client), "gql": types.SimpleNamespace(Client=exec_stub.Client)}
    proxies = types.ModuleType("api.proxies")
    proxies.execute, proxies.aexecute, proxies.subscribe, proxies.asubscribe = exec_stub.vp_execute, exec_stub.vp_aexecute, exec_stub.vp_subscribe, exec_stub.vp_asubscribe
    api = types.ModuleType("api")
    api.__path__, api.proxies = [os.path.join(root, "api")], proxies
    modules.update({"api": api, "api.proxies": proxies})
    saved = {m: sys.modules.get(m) for m in modules}
    sys.modules.update(modules)
    try:
        yield
    finally:
        for m, old in saved.items():
            if old is None:
                sys.modules.pop(m, None)
            else:
                sys.modules[m] = old


def command(w, args, text=None):
    from click.testing import CliRunner
    from turms.cli.main import cli
    with w.inside():
        result = CliRunner().invoke(cli, args, input=text)
    if result.exception is not None and not isinstance(result.exception, SystemExit):
        raise Violation("escaped", f"turms {args}: {result.exception!r}")
    return result.exit_code, result.output


def init(w, case, labels):
    """runs init as the case says; what a user has afterwards as configuration"""
    name = case["name"]
    args = ["init", *(["--config", name] if name != NAMES[0] else []), *(["--template", case["template"]] if case["template"] != "documents" or case["explicit"] else [])]
    if case["present"] is not None:
        w.write(name, case["present"])
        before = w.snapshot()
        code, output = command(w, args, "n\n")
        if code or w.snapshot() != before:
            raise Violation("overwritten", f"{args} declined: exits {code}, {name} {'kept' if w.snapshot() == before else 'changed'}")
        labels.add("declined")
    before = w.snapshot()
    code, output = command(w, args, "y\n" if case["present"] is not None else None)
    after = w.snapshot()
    if code or {k for k in {*before, *after} if before.get(k) != after.get(k)} - {name} or name not in after:
        raise Violation("init", f"{args}: exits {code}, files {sorted(after)}: {cm.short(output, 600)}")
    if case["present"] is not None and after[name].decode() == case["present"]:
        raise Violation("init", f"{args} confirmed: {name} is not replaced")
    return yaml.safe_load(after[name])


def processors(settings):
    return [p["type"].rsplit(".", 1)[1] for p in settings["projects"]["default"]["extensions"]["turms"].get("processors", [])]


def generate(w, case, settings, schema):
    """the user points the template at a schema and generates; the generated file"""
    project = settings["projects"]["default"]
    project["schema"] = schema
    turms = project["extensions"]["turms"]
    turms["scalar_definitions"] = {**turms.get("scalar_definitions", {}), **case["scalars"]}
    w.write(case["name"], yaml.dump(settings, sort_keys=False))
    found = bool(re.fullmatch(r"graphql\.config\.(yaml|yml)", case["name"]))
    before = w.snapshot()
    code, output = command(w, ["gen", *([] if found and case["plain"] else ["--config", case["name"]])])
    if code:
        raise Violation("generation fails", cm.short(output, 1500))
    after = w.snapshot()
    new = [k for k in after if before.get(k) != after[k]]
    made = [k for k in after if k.startswith("api/") and k.endswith(".py")]
    if len(made) != 1 or set(new) - set(made):
        raise Violation("files", f"gen wrote {new}")
    return after[made[0]].decode()


def common(draw, templates):
    return {"template": draw(st.sampled_from(templates)), "explicit": draw(st.booleans()), "tools": [t for t in TOOLS if draw(st.integers(0, 3))], "name": draw(st.sampled_from([NAMES[0]] * 4 + NAMES)),
            "present": draw(st.sampled_from([None, None, "", "projects: {}\n", "not: [yaml"])), "plain": draw(st.booleans())}


# ------------------------------------------------------------------ client templates
def client_extra(draw, model, schema, case):
    return {**common(draw, ["documents", "rath", "gql"]), "calls": {op["name"]: vc.assignments(draw, schema, op, model["scalars"], 2) for op in case["ops"]}}


WANTED = {"documents": [], "gql": [("execute", False)], "rath": [("aexecute", True), ("execute", False)]}


def run_client(case):
    labels = {case["template"]}
    schema = build_schema(case["sdl"])
    with P.Workspace({"schema.graphql": case["sdl"], **{"graphql/" + k: v for k, v in case["files"].items()}}) as w, installed(case["tools"]):
        settings = init(w, case, labels)
        want = [p for p, t in (("BlackProcessor", "black"), ("IsortProcessor", "isort")) if t in case["tools"]]
        if processors(settings) != want:
            raise Violation("processors", f"{processors(settings)} with {case['tools']} installed")
        if settings["projects"]["default"]["documents"] != "graphql/**.graphql":
            raise Violation("documents", settings["projects"]["default"]["documents"])
        source = generate(w, case, settings, "schema.graphql")
        with stand_ins(w.root), sut.Module(source) as mod:
            for op in case["ops"]:
                cls = cm.operation(mod, op["name"])
                for values in case["calls"][op["name"]]:
                    wire = oracle.dump(cls.Arguments(**copy.deepcopy(values)), exclude_unset=True)
                    if set(wire) != set(values):
                        raise Violation("variables", f"{op['name']}: {values} became {wire}")
                functions(case, mod, op, cls, schema, labels)
            if case["template"] == "documents":
                extra = [n for n, f in vars(mod.mod).items() if inspect.isfunction(f) and f.__module__ == mod.name]
                if extra:
                    raise Violation("functions", f"{extra} without a client")
                labels.add("nt")
        again = generate(w, case, settings, "schema.graphql")
        if again != source:
            raise Violation("not repeatable", "generating again gives another file")
    labels |= set(case["tools"])
    return labels


class Answer:
    """answers any operation with nothing"""
    def __getattr__(self, name):
        return None


def functions(case, mod, op, cls, schema, labels):
    found = [f for n, f in vars(mod.mod).items() if inspect.isfunction(f) and f.__module__ == mod.name and cm.squash(n) in (cm.squash(op["name"]), cm.squash("a" + op["name"]))]
    want = sorted(k == "aexecute" for k, _ in WANTED[case["template"]])
    is_async = lambda f: inspect.iscoroutinefunction(f) or inspect.isasyncgenfunction(f)
    if sorted(map(is_async, found)) != want:
        raise Violation("functions", f"{op['name']} with the {case['template']} template: {[f.__name__ for f in found]}")
    client = exec_stub.Client()
    for f in found:
        params = inspect.signature(f).parameters
        names = {n: next((p for p in params if cm.squash(p) == cm.squash(n)), None) for n in op["vars"]}
        if None in names.values():
            raise Violation("parameters", f"{f.__name__}{inspect.signature(f)} for ${sorted(op['vars'])}")
        for values in case["calls"][op["name"]]:
            exec_stub.reset([] if op["kind"] == "subscription" else Answer())
            given = {names[n]: v for n, v in values.items()}
            out = f(client, **given) if case["template"] == "gql" else f(**given, rath=client)
            if op["kind"] == "subscription":
                drain(out, is_async(f))
            elif is_async(f):
                asyncio.run(out)
            args, kwargs = exec_stub.calls[0]
            if len(exec_stub.calls) != 1 or client not in (*args, *kwargs.values()) or cls not in args:
                raise Violation("call", f"{f.__name__}({given}) called {exec_stub.calls}")
            wire = oracle.dump(cls.Arguments(**args[-1]), exclude_unset=True)
            if set(wire) != set(values):
                raise Violation("variables", f"{f.__name__}({given}) sends {wire}")
            labels.add("nt")


def drain(out, is_async):
    if is_async:
        async def collect():
            return [x async for x in out]
        return asyncio.run(collect())
    return list(out)


# ------------------------------------------------------------------ server template
@st.composite
def server_cases(draw):
    model = draw(c18.models())
    texts = [sg.print_schema(model)]
    for _ in range(draw(st.integers(1, 2))):       # backwards: the schema before something was added
        old = shrink(draw, json.loads(json.dumps(model)))
        sdl = sg.print_schema(old)
        try:
            assume(not validate_schema(build_schema(sdl)))
        except TypeError:
            assume(False)
        if sdl != texts[-1]:
            texts.append(sdl)
        model = old
    return {**common(draw, ["strawberry"]), "explicit": True, "sdls": texts[::-1], "scalars": {"ID": "strawberry.ID"}, "marks": draw(st.lists(st.integers(0, 30), min_size=1, max_size=6)),
            "own": draw(st.sampled_from(["", "\n\ndef helper(x):\n    return x + 1\n", "\n\nclass Loader:\n    kept = 5\n"])), "again": draw(st.booleans())}


def shrink(draw, model):
    """drops some fields, arguments and values"""
    drop = lambda: draw(st.integers(0, 4)) == 0
    for t in model["types"]:
        if t["kind"] == "enum" and len(t["values"]) > 1:
            kept = [v for v in t["values"] if not drop()]
            t["values"] = kept or t["values"]
    gone = {(t["name"], f["name"]) for t in model["types"] for f in t.get("fields", []) if drop()}
    for t in model["types"]:
        if t.get("fields"):
            family = [t["name"], *t.get("interfaces", [])]
            below = [u["name"] for u in model["types"] if t["name"] in u.get("interfaces", [])]
            # a field is there unless nothing that implements it, or is implemented, keeps it
            kept = [f for f in t["fields"] if not any((n, f["name"]) in gone for n in [*family, *below])]
            t["fields"] = kept or t["fields"]
            for f in t["fields"]:
                if f.get("args") and not t.get("interfaces") and not below:
                    f["args"] = [a for a in f["args"] if not drop()] or f["args"]     # a field of a type is written as an attribute without
    return model


def resolvers(source):
    """[(class, function)] of the generated file, in order"""
    return [(c.name, f.name) for c in ast.parse(source).body if isinstance(c, ast.ClassDef) for f in c.body if isinstance(f, (ast.FunctionDef, ast.AsyncFunctionDef))]


def write_body(source, which, number):
    """the user fills in a resolver"""
    lines = source.split("\n")
    for c in ast.parse(source).body:
        if isinstance(c, ast.ClassDef) and c.name == which[0]:
            for f in c.body:
                if isinstance(f, (ast.FunctionDef, ast.AsyncFunctionDef)) and f.name == which[1]:
                    first = f.body[0]
                    lines[first.lineno - 1:f.body[-1].end_lineno] = [" " * first.col_offset + x for x in (f"mark = {number}  # mine", "return mark")]
                    return "\n".join(lines)
    raise AssertionError(which)


def bodies(source):
    return {(c.name, f.name): "\n".join(map(ast.unparse, f.body)) for c in ast.parse(source).body if isinstance(c, ast.ClassDef) for f in c.body if isinstance(f, (ast.FunctionDef, ast.AsyncFunctionDef))}


def check_server(source, sdl):
    schema = build_schema(sdl)
    with sut.Module(source) as mod:
        built = c18.build(mod, schema)
        expected, found = c18.normal(schema), c18.normal(c18.introspect(built))
        needed = c18.reachable(schema)
        expected = {n: v for n, v in expected.items() if n == "roots" or n in needed or n in found}
        d = c18.diff(expected, found)
        if d:
            raise Violation("schema differs", d)


def run_server(case):
    labels = set()
    with P.Workspace() as w, installed(case["tools"]):
        settings = init(w, case, labels)
        want = ["DisclaimerProcessor"] + [p for p, t in (("BlackProcessor", "black"), ("IsortProcessor", "isort"), ("MergeProcessor", "libcst")) if t in case["tools"]]
        if processors(settings) != want:
            raise Violation("processors", f"{processors(settings)} with {case['tools']} installed")
        merging, mine, path = "libcst" in case["tools"], {}, None
        for number, sdl in enumerate(case["sdls"]):
            w.write("schema.graphql", sdl)
            source = generate(w, case, settings, settings["projects"]["default"]["schema"])
            path = next(k for k in w.snapshot() if k.startswith("api/"))
            check_server(source, sdl)
            if merging:
                have = bodies(source)
                for k, body in mine.items():
                    if have.get(k) != body:
                        raise Violation("resolver lost", f"{k}: {body!r} became {have.get(k)!r}")
                if number and case["own"] and case["own"].strip().split("\n")[0] not in source:
                    raise Violation("own code lost", case["own"])
                if mine:
                    labels |= {"nt", "kept"}
                if generate(w, case, settings, "schema.graphql") != source:
                    raise Violation("not idempotent", "generating again changes the file")
                places = resolvers(source)
                for m in case["marks"]:
                    if places and places[m % len(places)] not in mine:
                        source = write_body(source, places[m % len(places)], m)
                        mine[places[m % len(places)]] = bodies(source)[places[m % len(places)]]
                w.write(path, source if number else source + case["own"])
            else:
                labels.add("unmerged")
    return labels | set(case["tools"])


SUBS = [
    Sub("client", lambda: vc.cases({"scalars": (0, 1)}, extra=client_extra, stylers=st.just(["capitalize", "snake"])), run_client, quick=400, rule="generated functions are called (or the template has none)"),
    Sub("server", server_cases, run_server, quick=200, rule="hand-written resolvers went through a regeneration"),
]
ASSUMPTIONS = ["the client libraries rath and gql are stand-ins", "the user replaces the example endpoint of the client templates by a local schema, maps custom scalars and keeps identifiers by mapping ID to strawberry.ID"]
