"""Thin, uniform access to the code under test: generate a module from (sdl, documents, options)
and execute it.  Every exception that comes out of the code under test is wrapped in SutError."""
import ast
import itertools
import os
import shutil
import sys
import tempfile
import types
import typing
import warnings

from graphql import build_schema


class SutError(Exception):
    def __init__(self, stage, exc):
        self.stage = stage
        self.exc = exc
        super().__init__(f"{stage}: {type(exc).__name__}: {str(exc)[:600]}")


_counter = itertools.count()

STYLERS = {}
PLUGINS = {}


def _load():
    if PLUGINS:
        return
    import importlib
    for key, path in (("enums", "enums.EnumsPlugin"), ("inputs", "inputs.InputsPlugin"),
                      ("fragments", "fragments.FragmentsPlugin"), ("operations", "operations.OperationsPlugin"),
                      ("funcs", "funcs.FuncsPlugin"), ("input_funcs", "input_funcs.InputFuncsPlugin"),
                      ("objects", "objects.ObjectsPlugin"), ("strawberry", "strawberry.StrawberryPlugin")):
        mod, cls = path.split(".")
        PLUGINS[key] = getattr(importlib.import_module("turms.plugins." + mod), cls)
    for key, path in (("default", "default.DefaultStyler"), ("capitalize", "capitalize.CapitalizeStyler"),
                      ("snake", "snake_case.SnakeCaseStyler"), ("appender", "appender.AppenderStyler")):
        mod, cls = path.split(".")
        STYLERS[key] = getattr(importlib.import_module("turms.stylers." + mod), cls)


CLIENT = ["enums", "inputs", "fragments", "operations"]


def make_plugins(spec):
    """spec: list of names or (name, options) pairs."""
    _load()
    out = []
    for item in spec:
        name, opts = (item, {}) if isinstance(item, str) else (item[0], item[1])
        out.append(PLUGINS[name](config=opts) if opts else PLUGINS[name]())
    return out


def make_stylers(spec):
    _load()
    out = []
    for item in spec or []:
        name, opts = (item, {}) if isinstance(item, str) else (item[0], item[1])
        out.append(STYLERS[name](config=opts) if opts else STYLERS[name]())
    return out


def scratch():
    return tempfile.mkdtemp(prefix="vpbt-")


def write_docs(docs, directory):
    """docs: str | list[str] | dict[name, str]"""
    if isinstance(docs, str):
        docs = [docs]
    if isinstance(docs, (list, tuple)):
        docs = {f"doc{i}.graphql": d for i, d in enumerate(docs)}
    for name, text in docs.items():
        path = os.path.join(directory, name)
        os.makedirs(os.path.dirname(path), exist_ok=True)
        with open(path, "w", encoding="utf-8", newline="") as f:
            f.write(text)
    return os.path.join(directory, "**", "*.graphql")


def generate_source(sdl, docs, config=None, plugins=CLIENT, stylers=("default",), schema=None):
    """Runs the real generator; returns the source text of the generated module."""
    from turms.config import GeneratorConfig
    from turms.run import generate_ast, parse_asts_to_string
    directory = scratch()
    try:
        options = dict(config or {})
        if docs is not None:
            options["documents"] = write_docs(docs, directory)
        if schema is None:
            schema = build_schema(sdl)
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            try:
                config = GeneratorConfig(**options)
                tree = generate_ast(config, schema, plugins=make_plugins(plugins), stylers=make_stylers(stylers),
                                    skip_forwards=config.skip_forwards)
                return parse_asts_to_string(tree)
            except Exception as e:
                raise SutError("generation", e) from e
    finally:
        shutil.rmtree(directory, ignore_errors=True)


class Module:
    """An executed generated module."""

    def __init__(self, source, extra=None):
        self.source = source
        for clear in typing._cleanups:  # typing returns annotations of earlier modules for equal new ones
            clear()
        name = f"vpbt_generated_{next(_counter)}"
        mod = types.ModuleType(name)
        sys.modules[name] = mod
        self.name = name
        self.mod = mod
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            try:
                code = compile(source, f"<{name}>", "exec")
                exec(code, mod.__dict__)
            except Exception as e:
                sys.modules.pop(name, None)
                raise SutError("import of generated module", e) from e

    def close(self):
        sys.modules.pop(self.name, None)

    def __getattr__(self, item):
        try:
            return self.mod.__dict__[item]
        except KeyError:
            raise AttributeError(item)

    def get(self, item, default=None):
        return self.mod.__dict__.get(item, default)

    def __enter__(self):
        return self

    def __exit__(self, *a):
        self.close()


def load(sdl, docs, config=None, plugins=CLIENT, stylers=("default",), schema=None):
    return Module(generate_source(sdl, docs, config, plugins, stylers, schema))
