"""The generation pipeline (generate_ast, parsers, processors) with the listing order of directories under control."""
import contextlib
import os
import warnings

from graphql import build_schema

import common as cm
import sut


class Entries:
    """what os.scandir returns, in another order"""

    def __init__(self, entries):
        self.entries = iter(entries)

    def __iter__(self):
        return self

    def __next__(self):
        return next(self.entries)

    def __enter__(self):
        return self

    def __exit__(self, *a):
        pass

    def close(self):
        pass


@contextlib.contextmanager
def listing_order(rng):
    """os.scandir and os.listdir yield entries in the order rng picks"""
    scandir, listdir = os.scandir, os.listdir

    def shuffled(items):
        items = sorted(items, key=lambda e: e if isinstance(e, (str, bytes)) else e.name)
        rng.shuffle(items)
        return items

    def my_scandir(path="."):
        with scandir(path) as it:
            return Entries(shuffled(it))
    os.scandir = my_scandir
    os.listdir = lambda path=".": shuffled(listdir(path))
    try:
        yield
    finally:
        os.scandir, os.listdir = scandir, listdir


def components(case):
    from turms.parsers.polyfill import PolyfillParser
    from turms.processors.disclaimer import DisclaimerProcessor
    plugins = sut.make_plugins([p if isinstance(p, str) else tuple(p) for p in case["plugins"]])
    parsers = [PolyfillParser(config={"python_version": v}) for v in case.get("parsers", [])]
    processors = []
    for p in case.get("processors", []):
        if p == "disclaimer":
            processors.append(DisclaimerProcessor())
        elif p == "isort":
            from turms.processors.isort import IsortProcessor
            processors.append(IsortProcessor())
        elif p == "black":
            from turms.processors.black import BlackProcessor
            processors.append(BlackProcessor())
    return plugins, sut.make_stylers(cm.stylers_of(case)), parsers, processors


def generate(case, directory, rng=None, reuse=None):
    """source text; `reuse` keeps configuration and components between calls"""
    from turms.config import GeneratorConfig
    from turms.run import generate_code
    with warnings.catch_warnings(), (listing_order(rng) if rng else contextlib.nullcontext()):
        warnings.simplefilter("ignore")
        if reuse is not None and "config" in reuse:
            config, schema, parts = reuse["config"], reuse["schema"], reuse["parts"]
        else:
            config = GeneratorConfig(documents=os.path.join(directory, "**", "*.graphql"), **cm.config_of(case))
            schema = build_schema(case["sdl"])
            parts = components(case)
            if reuse is not None:
                reuse.update(config=config, schema=schema, parts=parts)
        plugins, stylers, parsers, processors = parts
        return generate_code(config, schema, plugins=plugins, stylers=stylers, parsers=parsers, processors=processors)
