"""C27: a watched project is kept up to date with its documents."""
import contextlib
import glob
import importlib
import json
import os
import warnings

from hypothesis import strategies as st

import projects as P
from core import Sub
from oracle import Violation

TECHNIQUE = "stateful property-based testing (Hypothesis): histories of file edits seen through a stand-in for the file watcher; after each the output is compared with what 'turms gen' writes from the same files"
SDL = '''enum Color { RED GREEN }
type Beast { id: ID! legName: String color: Color friend: Beast }
input Filter { color: Color = RED text: String! }
type Query { beast(id: ID, n: Int): Beast things(filter: Filter): [Beast!]! }
'''
SCHEMAS = [SDL, SDL.replace("legName: String", "legName: Int!"), SDL.replace("RED GREEN", "RED BLUE GREEN"), SDL.replace("type Beast", "typ Beast"), SDL.replace("friend: Beast", "friend: Beat")]
GOOD = ["query %(n)s($id: ID) { beast(id: $id) { id legName } }\n",
        "query %(n)s($filter: Filter) { things(filter: $filter) { ...%(n)sPart } }\nfragment %(n)sPart on Beast { id color }\n",
        "query %(n)s { beast { friend { id } } }\nquery %(n)sMore { things { color } }\n",
        "# nothing yet\n\nquery %(n)s { beast(n: 5) { renamed: id } }\n"]
BAD = ["query %(n)s { beast { id ", "query %(n)s { beast { wings } }", "query %(n)s { ...Gone }", "fragment %(n)sLonely on Beast { id }", "query Same { beast { id } }", "", "%(n)s ✓", b"query %(n)s { beast(id: \"\xff\") { id } }", "query %(n)s { beast(id: \"[/red]\") { [/x] } }"]
STEMS = ["a", "b", "get.beast", "v1.2.q", "UPPER", "with space", "ünï", "graphql", "sub/a", "sub/x.y", "sub/deep/c", ".hidden", "[odd]"]
OTHERS = ["README", "notes.md", "Makefile", "api/own.py", "x.graphql.bak", ".env", "data.json", "sub/LICENSE", "a.", "..b"]
PATTERNS = ["q/*.graphql", "q/**/*.graphql", "q/**.graphql", "./q/*.graphql", "q/*", "q/*.gql", "q/**/*", "q/?.graphql", "../shared/*.graphql", "../shared/**/*.graphql", "{root}/q/*.graphql", "q/a.graphql"]


@st.composite
def cases(draw):
    pattern = draw(st.sampled_from(PATTERNS))
    ending = ".gql" if pattern.endswith("gql") else ".graphql"
    folder = "shared" if "shared" in pattern else "q"
    stems = draw(st.lists(st.sampled_from(STEMS), unique=True, min_size=2, max_size=4))
    if "?" in pattern or "a.graphql" in pattern:
        stems = list(dict.fromkeys(["a", "b", *stems[:1]]))

    def batch(kinds):
        out = []
        for _ in range(draw(st.integers(1, 2))):
            kind = draw(st.sampled_from(kinds))
            if kind in ("good", "bad", "delete", "touch"):
                out.append([kind, f"{folder}/{draw(st.sampled_from(stems))}{ending}", draw(st.integers(0, 99))])
            elif kind == "schema":
                out.append([kind, "schema.graphql", draw(st.integers(0, len(SCHEMAS) - 1))])
            elif kind == "other":
                out.append([kind, draw(st.sampled_from([f"{folder}/" if "*" != pattern[-1] else "", ""])) + draw(st.sampled_from(OTHERS)), draw(st.integers(0, 9))])
            elif kind == "rename":
                out.append([kind, f"{folder}/{draw(st.sampled_from(stems))}{ending}", f"{folder}/{draw(st.sampled_from(stems))}{ending}"])
        return out

    kinds = ["good", "good", "good", "bad", "bad", "delete", "touch", "rename", "other", "schema"]
    return {"pattern": pattern, "plain": draw(st.booleans()), "start": [["good", f"{folder}/{s}{ending}", draw(st.integers(0, 99))] for s in stems[:2]], "batches": [batch(kinds) for _ in range(draw(st.integers(2, 6)))],
            "generated": draw(st.booleans()), "processors": draw(st.sampled_from([[], [], ["black"], ["disclaimer"], ["merge"]])), "stylers": draw(st.sampled_from([["default"], ["capitalize", "snake"]])),
            "inside": draw(st.integers(0, 3)) == 0, "others": draw(st.booleans()), "funcs": draw(st.booleans())}


def document(kind, path, number):
    name = "Op" + "".join(c for c in path.split("/", 1)[1] if c.isalnum() and c.isascii()).capitalize()
    texts = GOOD if kind == "good" else BAD
    text = texts[number % len(texts)]
    return text.replace(b"%(n)s", name.encode()) if isinstance(text, bytes) else text.replace("%(n)s", name)


def apply(w, edits):
    """[(change, path)] that the edits amount to"""
    from watchfiles import Change
    changes = []

    def write(name, text):
        new = not os.path.exists(w.path(name))
        w.write(name, text)
        changes.append((Change.added if new else Change.modified, w.path(name)))

    def delete(name):
        os.remove(w.path(name))
        changes.append((Change.deleted, w.path(name)))

    for kind, name, what in edits:
        name = "shared/" + name.split("/", 1)[1] if name.startswith("shared/") else "work/" + name
        exists = os.path.exists(w.path(name))
        if kind in ("good", "bad"):
            write(name, document(kind, name, what))
        elif kind == "schema":
            write(name, SCHEMAS[what])
        elif kind == "other":
            write(name, f"whatever {what}\n")
        elif kind == "touch" and exists:
            write(name, w.read(name))
        elif kind == "delete" and exists:
            delete(name)
        elif kind == "rename" and exists:
            other = "shared/" + what.split("/", 1)[1] if what.startswith("shared/") else "work/" + what
            if other != name:
                content = w.read(name)
                delete(name)
                write(other, content)
    return changes


@contextlib.contextmanager
def watcher(w, history):
    """stands in for the file watcher: reports the edits below the watched paths which the filter lets through"""
    import watchfiles
    module = importlib.import_module("turms.cli.watch")

    def watch(*paths, watch_filter=watchfiles.DefaultFilter(), recursive=True, **options):
        roots = [os.path.realpath(p) for p in paths]
        for p in roots:
            if not os.path.exists(p):
                raise FileNotFoundError(p)
        for changes in history():
            seen = set()
            for change, path in changes:
                if any(os.path.dirname(path) == r or path == r or recursive and path.startswith(r + os.sep) for r in roots) and (watch_filter is None or watch_filter(change, path)):
                    seen.add((change, path))
            if seen:
                yield seen

    places = [(m, m.watch) for m in (watchfiles, watchfiles.main, module) if getattr(m, "watch", None) is watchfiles.watch]
    for m, _ in places:
        m.watch = watch
    try:
        yield
    finally:
        for m, real in places:
            m.watch = real


@contextlib.contextmanager
def at(directory):
    old = os.getcwd()
    os.chdir(directory)
    try:
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            yield
    finally:
        os.chdir(old)


def reference(files, root):
    """the code that generating the project from the files gives, or None"""
    from turms.run import generate, load_projects_from_configpath
    with P.Workspace(files) as w, at(w.path("work")):
        w.write("work/graphql.config.json", files["work/graphql.config.json"].decode().replace(root, w.root))
        try:
            return generate(load_projects_from_configpath("graphql.config.json")["main"], log=lambda *a, **k: None)[0].encode()
        except Exception:
            return None


def run(case):
    labels = set()
    with P.Workspace({"work/schema.graphql": SDL, "shared/README": ""}) as w:
        for kind, name, number in case["start"]:
            apply(w, [[kind, name, number]])
        pattern = case["pattern"].replace("{root}", w.path("work"))
        plugins = list(P.sut.CLIENT) + ([["funcs", {"definitions": [{"type": "query", "use": "exec_stub.vp_execute"}]}]] if case["funcs"] else [])
        options = {"documents": pattern} if case["inside"] else {}
        config = P.project("schema.graphql", None if case["inside"] else pattern, P.turms_config(plugins, case["stylers"], case["processors"], out_dir="api", generated_name="code.py", **options))
        projects = {"main": config, **({"second": P.project("schema.graphql", None, P.turms_config(["enums"], out_dir="elsewhere"))} if case["others"] else {})}
        w.write("work/graphql.config.json", json.dumps({"projects": projects}))
        os.makedirs(w.path("work/q"), exist_ok=True)
        state = {"code": None, "n": 0}
        if case["generated"]:
            state["code"] = reference(w.snapshot(), w.root)
            if state["code"] is not None:
                w.write("work/api/code.py", state["code"])

        def documents():
            here = os.getcwd()
            return {os.path.realpath(os.path.join(here, p)) for p in glob.glob(pattern, recursive=True)}

        def check(number, said, noticed, wanted, before, files):
            now = w.snapshot()
            code = now.pop("work/api/code.py", None)
            files = dict(files)
            files.pop("work/api/code.py", None)
            if now != files:
                raise Violation("other files", f"{said}: {sorted(k for k in {*now, *files} if now.get(k) != files.get(k))} changed")
            allowed = {wanted if wanted is not None else before}
            if not noticed:
                allowed.add(before)
            if code not in allowed:
                if code == before:
                    raise Violation("not regenerated", f"{said}: the output is still that of before")
                raise Violation("damaged" if wanted is None else "output", f"{said}: the output is not what 'turms gen' writes")
            if noticed:
                labels.add("regenerated" if wanted is not None else "kept")
                if wanted is not None and (state.get("failed") or state["n"] and wanted != before):
                    labels.add("nt")
                state["failed"] = wanted is None
                state["n"] += 1
            state["code"] = code

        def history():
            for number, edits in enumerate(case["batches"]):
                matched = documents()
                changes = apply(w, edits)
                matched |= documents()
                if not changes:
                    continue
                noticed = any(p in matched for _, p in changes)
                files = w.snapshot()
                wanted = reference(files, w.root)
                yield changes
                check(number, f"batch {number} of {case['pattern']}: {[(c.name, os.path.relpath(p, w.root)) for c, p in changes]}", noticed, wanted, state["code"], files)
            state["done"] = True

        with watcher(w, history), at(w.path("work")):
            watch_command(["main"] if case["others"] or case["plain"] else [])
        if not state.get("done"):
            raise Violation("stopped", "watching ended before the last change")
    return labels


def watch_command(args):
    from click.testing import CliRunner
    from turms.cli.main import cli
    result = CliRunner().invoke(cli, ["watch", *args])
    if isinstance(result.exception, Violation):
        raise result.exception
    if result.exception is not None and not isinstance(result.exception, SystemExit):
        raise Violation("escaped", f"{result.exception!r} ends the watching")
    if result.exit_code:
        raise Violation("exit", f"watching ends with {result.exit_code}: {result.output[-600:]}")


SUBS = [Sub("histories", cases, run, 320, rule="the output is regenerated with a different result, or after a failed attempt")]
ASSUMPTIONS = ["the file watcher (watchfiles) reports edits below the paths it is given that its filter lets through; it is replaced by a stand-in doing that", "documents are named by a pattern with a file ending or a trailing *"]
