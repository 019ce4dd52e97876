"""C21: a failing project never damages outputs or stops the others."""
import builtins
import contextlib
import errno
import io
import json
import os
import re

from graphql import build_schema, introspection_from_schema
from hypothesis import strategies as st

import projects as P
from core import Sub
from oracle import Violation

TECHNIQUE = "stateful property-based testing (Hypothesis): histories of 'turms gen' runs with injected faults, each project compared with a run of its own"

SDL = '''"""A color%(d)s"""
enum Color { RED GREEN }
type Beast { id: ID! legName: String born: Date color: Color }
input Filter { color: Color = RED text: String! }
scalar Date
type Query { beast(id: ID, n: Int, c: Color): Beast things(filter: Filter): [Beast!]! }
'''
DOCS = ["query beast%(k)s($id: ID) { beast(id: $id) { id legName color } }\n",
        "query things%(k)s($filter: Filter) { things(filter: $filter) { ...BeastF born } }\nfragment BeastF on Beast { id color }\n",
        "query one%(k)s { beast { born } }\nquery two%(k)s { beast { ...BeastF } }\nfragment BeastF on Beast { legName }\n"]
TEXTS = ["[/x]", "[/]", "[red]", "é✓", "\\\\[", "{0}", ":smile:", "x" * 90]
CLIENT = ["enums", "inputs", "fragments", "operations"]
SCHEMA_FAULTS = ["schema-missing", "schema-syntax", "schema-unknown-type", "schema-empty", "schema-broken-json", "schema-unreachable", "unencodable"]
DOCUMENT_FAULTS = ["documents-missing", "documents-syntax", "documents-field", "documents-argument", "documents-unused", "documents-fragment", "documents-encoding", "scalar"]
COMPONENT_FAULTS = ["plugin-option", "styler-of-other-kind", "processor-fails", "processor-absent", "processor-breaks-python", "parser-option", "plugin-order"]
OUTPUT_FAULTS = ["code-is-directory", "schema-is-directory", "configuration-is-directory", "out-dir-is-file", "disk-full-1", "disk-full-2", "disk-full-3", "merge-into-rubbish"]
FAULTS = SCHEMA_FAULTS + DOCUMENT_FAULTS + COMPONENT_FAULTS + OUTPUT_FAULTS
KEYS = ["a", "b2", "[/x]", "the main one", "[red]", "ü"]


@st.composite
def cases(draw):
    keys = draw(st.lists(st.sampled_from(KEYS), unique=True, min_size=2, max_size=4))
    shared = draw(st.integers(0, 3)) == 0
    projects = {k: {"shared": shared, "dump_schema": draw(st.booleans()), "dump_configuration": draw(st.booleans()), "exit": draw(st.integers(0, 2)) > 0,
                    "processors": draw(st.sampled_from([[], [], ["merge"], ["disclaimer"]])), "funcs": draw(st.booleans()), "verbose": draw(st.integers(0, 3)) == 0} for k in keys}
    rounds = []
    for _ in range(draw(st.integers(1, 3))):
        p = draw(st.sampled_from([0, 1, 1, 2]))
        rounds.append({"order": draw(st.permutations(keys)), "faults": {k: draw(st.sampled_from(FAULTS)) for k in keys if draw(st.integers(0, 2)) < p},
                       "documents": {k: draw(st.integers(0, 2)) for k in keys}, "text": draw(st.sampled_from(TEXTS)),
                       "select": draw(st.sampled_from(keys)) if draw(st.integers(0, 4)) == 0 else None, "api": draw(st.integers(0, 5)) == 0})
    return {"projects": projects, "rounds": rounds}


def out_dir(n, spec):
    return "api" if spec["shared"] else f"out{n}/api"


def setup(n, key, spec, round_, fault):
    """(configuration of the project, its input files, files to put in the way of its outputs)"""
    base, files, obstacles = f"p{n}", {}, {}
    text = round_["text"]
    files[f"{base}/schema.graphql"] = SDL % {"d": n}
    files[f"{base}/q.graphql"] = DOCS[round_["documents"][key]] % {"k": n}
    schema, documents = f"{base}/schema.graphql", f"{base}/*.graphql"
    documents = f"{base}/q*.graphql"
    names = {"generated_name": f"code{n}.py", "schema_name": f"schema{n}.graphql", "configuration_name": f"project{n}.json"}
    stylers, parsers, processors = ["default"], [], list(spec["processors"])
    plugins = list(CLIENT) + ([["funcs", {"definitions": [{"type": "query", "use": "exec_stub.vp_execute"}]}]] if spec["funcs"] else [])
    options = {"out_dir": out_dir(n, spec), **names, "dump_schema": spec["dump_schema"], "dump_configuration": spec["dump_configuration"], "exit_on_error": spec["exit"], "scalar_definitions": {"Date": "str"}, "verbose": spec["verbose"]}
    prior = None
    if fault == "schema-missing":
        schema = f"{base}/nothing.graphql"
    elif fault == "schema-syntax":
        files[schema] = files[schema] + f'"{text}" typ X {{'
    elif fault == "schema-unknown-type":
        files[schema] = files[schema].replace("legName: String", "legName: Strin")
    elif fault == "schema-empty":
        files[schema] = "# nothing\n"
    elif fault == "schema-broken-json":
        schema = f"{base}/schema.json"
        files[schema] = "{\"__schema\": {\"queryType\": " + json.dumps(text)
    elif fault == "schema-unreachable":
        schema = "http://127.0.0.1:1/graphql"
    elif fault == "unencodable":            # the schema cannot be written as text
        options["dump_schema"] = True
        schema = f"{base}/schema.json"
        files[schema] = json.dumps(introspection_from_schema(build_schema(SDL % {"d": "@@"}))).replace("@@", "\\ud800")
    elif fault == "documents-missing":
        documents = f"{base}/none/*.graphql"
    elif fault == "documents-syntax":
        files[f"{base}/q2.graphql"] = f'query X {{ beast(id: "{text}") {{ id }}'
    elif fault == "documents-field":
        files[f"{base}/q2.graphql"] = "query X { beast { id wings } }"
    elif fault == "documents-argument":
        files[f"{base}/q2.graphql"] = f'query X {{ beast(n: "{text}") {{ id }} }}'
    elif fault == "documents-unused":
        files[f"{base}/q2.graphql"] = "fragment Lonely on Beast { id }"
    elif fault == "documents-fragment":
        files[f"{base}/q2.graphql"] = "query X { beast { ...Gone } }"
    elif fault == "documents-encoding":
        files[f"{base}/q2.graphql"] = b'query X { beast(id: "\xff\xfe") { id } }'
    elif fault == "scalar":
        options["scalar_definitions"] = {"Other": "str"}
        files[f"{base}/q2.graphql"] = "query X { beast { born } }"
    elif fault == "plugin-option":
        plugins[2] = ["fragments", {text: True}]
    elif fault == "styler-of-other-kind":
        stylers = ["enums"]
    elif fault == "processor-fails":
        processors = processors + [["command", {"command": ["sh", "-c", f"cat > /dev/null; echo '{text}' >&2; exit 3"]}]]
    elif fault == "processor-absent":
        processors = [["command", {"command": "no-such-command-anywhere -x"}]]
    elif fault == "processor-breaks-python":
        processors = [["command", {"command": ["sh", "-c", "cat; echo 'def ('"]}], "black"]
    elif fault == "parser-option":
        parsers = [["polyfill", {"python_version": "2.7"}]]
    elif fault == "plugin-order":
        plugins = ["inputs"]
        files[f"{base}/q2.graphql"] = "query X($filter: Filter) { things(filter: $filter) { id } }"
    elif fault == "code-is-directory":
        obstacles = [names["generated_name"]]
    elif fault == "schema-is-directory":
        options["dump_schema"], obstacles = True, [names["schema_name"]]
    elif fault == "configuration-is-directory":
        options["dump_configuration"], obstacles = True, [names["configuration_name"]]
    elif fault == "out-dir-is-file":
        files[f"{base}/file"] = "x"
        options["out_dir"] = f"{base}/file"
    elif fault in ("disk-full-2", "disk-full-3"):
        options["dump_schema"] = True
        options["dump_configuration"] = fault.endswith("3")
    elif fault == "merge-into-rubbish":
        if "merge" not in processors:
            processors = processors + ["merge"]
        prior = "class (:\n# mine\n"
    return P.project(schema, documents, P.turms_config(plugins, stylers, processors, parsers, **options)), files, {"directories": list(obstacles), "prior": prior}


class Full:
    """a file on a disk that runs full"""
    def __init__(self, f):
        self.f = f

    def write(self, data):
        self.f.write(data[:len(data) // 2])
        self.f.flush()
        raise OSError(errno.ENOSPC, "No space left on device")

    def writelines(self, lines):
        self.write(list(lines)[0])

    def __enter__(self):
        return self

    def __exit__(self, *a):
        self.f.close()

    def __getattr__(self, name):
        return getattr(self.f, name)


@contextlib.contextmanager
def disk_full(limits):
    """limits: directory -> the how manieth file opened for writing below it hits the end of the disk"""
    real, count = builtins.open, {}

    def fake(file, mode="r", *a, **k):
        f = real(file, mode, *a, **k)
        if isinstance(file, (str, bytes, os.PathLike)) and any(c in mode for c in "wxa+"):
            path = os.path.realpath(os.fsdecode(file))
            for directory, n in limits.items():
                if path.startswith(directory + os.sep):
                    count[directory] = count.get(directory, 0) + 1
                    if count[directory] == n:
                        return Full(f)
        return f

    builtins.open = io.open = fake
    try:
        yield
    finally:
        builtins.open = io.open = real


def alone(files, config_text, key):
    """what the project writes when it is generated by itself"""
    with P.Workspace(files) as w:
        w.write("alone.config.json", config_text)
        code, output, escaped = w.run("gen", "--config", "alone.config.json", key)
        after = w.snapshot()
    if code or escaped:
        raise AssertionError(f"harness: {key} does not generate alone: {output[-500:]} {escaped!r}")
    return {f: c for f, c in after.items() if files.get(f) != c and f != "alone.config.json"}


def run(case):
    labels, keys = set(), list(case["projects"])
    failures = recoveries = 0
    failed_before = set()
    with P.Workspace() as w:
        for number, r in enumerate(case["rounds"]):
            configs, moved, limits = {}, [], {}
            faults = dict(r["faults"])
            for n, key in enumerate(keys):
                spec = case["projects"][key]
                if spec["shared"] and faults.get(key) in ("disk-full-1", "disk-full-2", "disk-full-3"):
                    faults[key] = "schema-syntax"
                config, files, obstacles = setup(n, key, spec, r, faults.get(key))
                configs[key] = config
                for stale in ("q.graphql", "q2.graphql", "schema.graphql", "schema.json"):
                    path = w.path(f"p{n}/{stale}")
                    if os.path.exists(path):
                        os.remove(path)
                for name, content in files.items():
                    w.write(name, content)
                directory = config["extensions"]["turms"]["out_dir"]
                for name in obstacles["directories"]:
                    path = w.path(os.path.join(directory, name))
                    if os.path.isfile(path):
                        moved.append((path, w.read(os.path.join(directory, name))))
                        os.remove(path)
                    os.makedirs(path)
                    moved.append((path, None))
                if obstacles["prior"]:
                    name = os.path.join(directory, config["extensions"]["turms"]["generated_name"])
                    if os.path.exists(w.path(name)):
                        moved.append((w.path(name), w.read(name)))
                    else:
                        moved.append((w.path(name), b""))
                    w.write(name, obstacles["prior"])
                if faults.get(key, "").startswith("disk-full"):
                    limits[os.path.realpath(w.path(directory))] = int(faults[key][-1])
            w.write("graphql.config.json", json.dumps({"projects": {k: configs[k] for k in r["order"]}}))
            before = w.snapshot()
            chosen = [r["select"]] if r["select"] else r["order"]
            good, bad = [k for k in chosen if k not in faults], [k for k in chosen if k in faults]
            want = dict(before)
            for key in good:
                want.update(alone(before, json.dumps({"projects": {key: configs[key]}}), key))
            strict = any(case["projects"][k]["exit"] for k in bad)
            with disk_full(limits):
                if r["api"]:
                    code, output, escaped = run_api(w, r["select"])
                else:
                    code, output, escaped = w.run("gen", *([r["select"]] if r["select"] else []))
            after = w.snapshot()
            said = f"run {number} with faults {faults} of {chosen}"
            if escaped is not None:
                raise Violation("escaped", f"{said}: {escaped!r} escapes")
            for f in sorted({*want, *after}):
                if want.get(f) != after.get(f):
                    owner = [k for n, k in enumerate(keys) if re.search(rf"(code|schema|project){n}\.|out{n}/|p{n}/", f)]
                    if f not in after:
                        what = "is missing" if f not in before else "was removed"
                    else:
                        what = "was written" if f not in want else "is not what its project writes alone" if owner and owner[0] in good else "was changed"
                    raise Violation("damage" if owner and owner[0] in bad else "outputs", f"{said}: {f} {what}")
            if r["api"]:
                labels.add("api")
            else:
                if bool(code) != strict:
                    raise Violation("exit", f"{said}: exits {code}; exit_on_error is {[(k, case['projects'][k]['exit']) for k in bad]}")
                for key in chosen:
                    line = next((x for x in output.splitlines() if f" {key} " in x and ("✔" in x or "💥" in x)), "")
                    if (key in bad) != ("💥" in line) or not line:
                        raise Violation("report", f"{said}: {key} is not reported as {'failed' if key in bad else 'generated'}: {output[-800:]}")
            for path, content in reversed(moved):
                if content is None:
                    os.rmdir(path)
                elif content:
                    with open(path, "wb") as f:
                        f.write(content)
                else:
                    os.remove(path)
            failures += len(bad)
            recoveries += bool(failed_before & set(good))
            failed_before = (failed_before | set(bad)) - set(good)
            labels |= {faults[k] for k in bad}
            if good and bad:
                labels.add("nt")
    if recoveries:
        labels |= {"recovered", "nt"}
    return labels


def run_api(w, select):
    """turms.run.gen, the python entry point: reports and carries on"""
    from turms.run import gen
    with w.inside(), contextlib.redirect_stdout(io.StringIO()):
        try:
            gen("graphql.config.json", select)
        except Exception as e:
            return 1, "", e
    return 0, "", None


SUBS = [Sub("histories", cases, run, 320, rule="a run mixes failing and succeeding projects, or a project succeeds after it failed")]
