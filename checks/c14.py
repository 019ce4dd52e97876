"""C14: generation is deterministic."""
import atexit
import difflib
import json
import os
import random
import shutil
import subprocess
import sys

from hypothesis import strategies as st

import boot
import common as cm
import genpipe
import sut
import varcases as vc
from core import Sub
from oracle import Violation

SEEDS = ["0", "1", "4242"]
_workers = {}


def worker(seed):
    key = (os.getpid(), seed)
    if key not in _workers:
        env = dict(os.environ, PYTHONHASHSEED=seed)
        p = subprocess.Popen([sys.executable, os.path.join(boot.VERIF, "pbt", "detworker.py")], stdin=subprocess.PIPE, stdout=subprocess.PIPE, stderr=subprocess.DEVNULL,
                             env=env, text=True, cwd="/tmp")
        _workers[key] = p
        atexit.register(lambda: (p.stdin.close(), p.wait(10)))
    return _workers[key]


def remote(seed, case, directory, order):
    p = worker(seed)
    p.stdin.write(json.dumps({"case": case, "directory": directory, "order": order}) + "\n")
    p.stdin.flush()
    line = p.stdout.readline()
    if not line:
        _workers.pop((os.getpid(), seed))
        raise RuntimeError("worker ended")
    return json.loads(line)


def same(what, a, b):
    if a != b:
        d = "\n".join(list(difflib.unified_diff(a.splitlines(), b.splitlines(), lineterm="", n=1))[:30])
        raise Violation("output differs", f"{what}\n{d}")


def run(case):
    import warnings
    rng = random.Random(case["order"])
    names = list(case["files"])
    directories = []
    try:
        for i in range(2):  # the same files created in another order in another place
            d = sut.scratch()
            directories.append(d)
            sut.write_docs({n: case["files"][n] for n in (names if i == 0 else rng.sample(names, len(names)))}, d)
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            try:
                first = genpipe.generate(case, directories[0])
            except Exception as e:  # refused, whatever for: it must be every time
                for seed in SEEDS:
                    answer = remote(seed, case, directories[0], rng.randrange(1 << 30))
                    if "error" not in answer:
                        raise Violation("refused only sometimes", f"hash seed {seed}; {type(e).__name__}: {e}")
                return {"refused"}
            same("second run in one process", first, genpipe.generate(case, directories[0]))
            reuse = {}
            same("fresh components", first, genpipe.generate(case, directories[0], reuse=reuse))
            same("second run with the same configuration object and components", first, genpipe.generate(case, directories[0], reuse=reuse))
            same("files in another directory, listed in another order", first, genpipe.generate(case, directories[1], random.Random(case["order"])))
        for seed in SEEDS:
            answer = remote(seed, case, directories[rng.randrange(2)], rng.randrange(1 << 30))
            if "error" in answer:
                raise Violation("generation failed", f"hash seed {seed}: {answer['error']}")
            same(f"hash seed {seed} in another process", first, answer["source"])
    finally:
        for d in directories:
            shutil.rmtree(d, ignore_errors=True)
    labels = {f"files{min(3, len(names))}"}
    if len(names) > 1 or first.count("import") > 4:
        labels.add("nt")
    return labels


FUNCS = ["funcs", {"definitions": [{"type": k, "use": f"exec_stub.vp_execute", "is_async": a} for k in ("query", "mutation", "subscription") for a in (False, True)],
                   "global_kwargs": [{"type": "decimal.Decimal", "key": "vp_client"}]}]


def extra(draw, *_):
    plugins = ["enums", "inputs", "fragments", "operations"]
    plugins += draw(st.sampled_from([[], [FUNCS], [FUNCS, "input_funcs"], ["objects"]]))
    if plugins[-1] == "objects":
        plugins[0] = ["enums", {"skip_unreferenced": False}]
    config = {}
    if draw(st.booleans()):
        config["freeze"] = {"enabled": True}
    if draw(st.booleans()):
        config["options"] = {"enabled": True, "extra": "forbid", "use_enum_values": True, "validate_assignment": True}
    if draw(st.booleans()):
        config["additional_bases"] = {"Query": ["numbers.Number"]}
    config["create_catchall"] = draw(st.booleans())
    return {"plugins": plugins, "parsers": draw(st.sampled_from([[], ["3.7"], ["3.9"]])), "order": draw(st.integers(0, 1000)), "config": config,
            "processors": draw(st.sampled_from([[], [], ["disclaimer"], ["disclaimer", "isort"]]))}


def rename(case):
    """document names whose sorted order differs from any accidental one"""
    files = dict(case["files"])
    pool = ["z.graphql", "sub/a.graphql", "B.graphql", "sub/deep/10.graphql", "sub/9.graphql", "_x.graphql"]
    return {**case, "files": {pool[i % len(pool)] if i < len(pool) else n: t for i, (n, t) in enumerate(sorted(files.items()))}}


def strategy():
    return cm.client_cases(doc_opts=dict(conditions=True), schema_opts=dict(scalars=(1, 4), enums=(1, 3)), responses=0, extra=extra).map(rename)


def variables():
    return vc.cases({"scalars": (1, 4), "inputs": (1, 4)}, extra=extra).map(rename)


@st.composite
def server(draw):
    import schemagen as sg
    model = draw(sg.schema_models(dict(awkward=False)))
    return {"sdl": sg.print_schema(model), "files": {"a.graphql": "query Q { __typename }"}, "scalars": model["scalars"], "stylers": draw(cm.styler_stacks),
            "plugins": draw(st.sampled_from([["strawberry"], [["enums", {"skip_unreferenced": False}], "objects"]])), "parsers": [], "order": draw(st.integers(0, 1000)), "config": {}, "processors": []}


SUBS = [
    Sub("documents", strategy, run, quick=250, rule="random projects (schema, 1-6 document files in nested directories, plugins, stylers, options, parsers, processors) generated twice, with reused components, "
        "with permuted directory listings and in three processes with other hash seeds; non-trivial: several files or several imports"),
    Sub("variables", variables, run, quick=200, rule="the same with input-heavy schemas"),
    Sub("schema-only", server, run, quick=120, rule="strawberry and objects output of random schemas"),
]
