"""C16: merging regenerated code keeps hand-written work and is idempotent."""
import ast
import io
import os
import shutil
import tempfile
import tokenize

from hypothesis import strategies as st

import common as cm
import sut
from core import Sub
from oracle import Violation


# ------------------------------------------------------------------ reference: what a merge has to keep and add

def name_of(node):
    if isinstance(node, (ast.ClassDef, ast.FunctionDef, ast.AsyncFunctionDef)):
        return node.name
    if isinstance(node, ast.AnnAssign) and isinstance(node.target, ast.Name):
        return node.target.id
    if isinstance(node, ast.Assign) and len(node.targets) == 1 and isinstance(node.targets[0], ast.Name):
        return node.targets[0].id
    return None


def kind_of(node):
    if isinstance(node, ast.ClassDef):
        return "class"
    return "function" if isinstance(node, (ast.FunctionDef, ast.AsyncFunctionDef)) else "assign"


def docstring(node):
    return isinstance(node, ast.Expr) and isinstance(node.value, ast.Constant) and isinstance(node.value.value, str)


def imports_of(body):
    out = []
    for n in body:
        if isinstance(n, ast.Import):
            out += [(None, 0, a.name, a.asname) for a in n.names]
        elif isinstance(n, ast.ImportFrom):
            out += [(n.module, n.level, a.name, a.asname) for a in n.names]
    return out


def dump(x):
    return "\n".join(map(ast.dump, x)) if isinstance(x, list) else ast.dump(x)


def expected_definition(old, new, top, merged, path):
    """checks one definition both sides have"""
    if kind_of(old) != kind_of(new) or (top and kind_of(old) == "assign"):
        if dump(old) != dump(merged):
            raise Violation("hand-written definition changed", f"{path}: {ast.unparse(old)}\nbecame {ast.unparse(merged)}")
    elif kind_of(old) == "assign":
        if dump(new) != dump(merged):
            raise Violation("member not refreshed", f"{path}: {ast.unparse(new)}\nis {ast.unparse(merged)}")
    elif kind_of(old) == "function":
        if type(merged) is not type(new) or dump(merged.args) != dump(new.args) or (merged.returns is None) != (new.returns is None) \
                or (new.returns is not None and dump(merged.returns) != dump(new.returns)) or dump(merged.decorator_list) != dump(new.decorator_list):
            raise Violation("signature not refreshed", f"{path}: generated {ast.unparse(new)}\nmerged {ast.unparse(merged)}")
        if dump(merged.body) != dump(old.body):
            raise Violation("function body lost", f"{path}: written {ast.unparse(old)}\nmerged {ast.unparse(merged)}")
    else:
        if dump(merged.bases) != dump(old.bases) or dump(merged.decorator_list) != dump(old.decorator_list) or dump(merged.keywords) != dump(old.keywords):
            raise Violation("class header changed", f"{path}: {ast.unparse(old)}\n{ast.unparse(merged)}")
        check_body(old.body, new.body, merged.body, path, False)


def check_body(old, new, merged, path, top):
    news = {name_of(n): n for n in new if name_of(n)}
    old_names = [name_of(n) for n in old if name_of(n)]
    is_import = (ast.Import, ast.ImportFrom)
    # 1. what existed stays, in its order
    position, kept = 0, []
    rest = list(merged)
    for o in old:
        found = None
        for i in range(position, len(rest)):
            m = rest[i]
            if name_of(o) and name_of(o) in news:
                if name_of(m) == name_of(o):
                    found = i
            elif dump(m) == dump(o):
                found = i
            if found is not None:
                break
        if found is None:
            raise Violation("existing statement lost", f"{path}: {ast.unparse(o)}\nmerged:\n" + "\n".join(map(ast.unparse, merged)))
        if name_of(o) and name_of(o) in news:
            expected_definition(o, news[name_of(o)], top, rest[found], f"{path}.{name_of(o)}")
        kept.append(found)
        position = found + 1
    added = [m for i, m in enumerate(rest) if i not in kept]
    # 2. everything new is added once, unchanged and in an order in which definitions follow the ones they were generated after
    wanted = [n for n in new if name_of(n) and name_of(n) not in old_names]
    got = [m for m in added if name_of(m)]
    if [name_of(n) for n in wanted] != [name_of(m) for m in got]:
        raise Violation("new definitions", f"{path}: expected {[name_of(n) for n in wanted]} to be added, got {[name_of(m) for m in got]}")
    for n, m in zip(wanted, got):
        if dump(n) != dump(m):
            raise Violation("new definition changed", f"{path}: {ast.unparse(n)}\n{ast.unparse(m)}")
    where = {}
    for i, m in enumerate(merged):
        if name_of(m):
            where[name_of(m)] = i           # the last one counts
    order = [name_of(n) for n in new if name_of(n)]
    for i, n in enumerate(order):
        if n not in old_names:
            late = [p for p in order[:i] if where[p] > where[n]]
            if late:
                raise Violation("new definition too early", f"{path}: {n} is placed before {late}, which are generated before it")
    others = [m for m in added if not name_of(m)]
    if not top:
        if others:
            raise Violation("unexpected statement", f"{path}: {[ast.unparse(m) for m in others]}")
        return
    # 3. imports and calls of the generated module
    missing = set(imports_of(new)) - set(imports_of(merged))
    if missing:
        raise Violation("import missing", f"{path}: {missing}")
    extra = [i for i in imports_of([m for m in others if isinstance(m, is_import)]) if i in imports_of(old) or i not in imports_of(new)]
    if extra:
        raise Violation("import repeated", f"{path}: {extra}")
    first = min([i for i, m in enumerate(merged) if m in got] or [len(merged)])
    for i, m in enumerate(merged):
        if m in others and isinstance(m, is_import) and i > first:
            raise Violation("import after use", ast.unparse(m))
    calls = [dump(n) for n in new if isinstance(n, ast.Expr) and not docstring(n) and dump(n) not in [dump(o) for o in old]]
    have = [dump(m) for m in others if not isinstance(m, is_import)]
    if sorted(calls) != sorted(have):
        raise Violation("calls", f"{path}: expected {calls}, got {have}")
    last = max([i for i, m in enumerate(merged) if name_of(m)] or [-1])
    for i, m in enumerate(merged):
        if m in others and not isinstance(m, is_import) and i < last:
            raise Violation("call before a definition", ast.unparse(m))


def comments(source):
    return [t.string for t in tokenize.generate_tokens(io.StringIO(source).readline) if t.type == tokenize.COMMENT]


def body_comments(source, node):
    """comments below the first statement line of a body"""
    lines = source.splitlines()
    return [l.strip() for l in lines[node.body[0].lineno - 1:node.body[-1].end_lineno] if l.strip().startswith("# keep")]


def merge(old, new):
    from turms.processors.merge import MergeProcessorConfig, merge_code
    return merge_code(old, new, MergeProcessorConfig())


def check_merge(old, new, path="module"):
    merged = merge(old, new)
    try:
        tree = ast.parse(merged)
        compile(merged, "merged", "exec")
    except SyntaxError as e:
        raise Violation("merged code is not valid python", f"{e}\n{merged}")
    check_body(ast.parse(old).body, ast.parse(new).body, tree.body, path, True)
    again = merge(merged, new)
    if again != merged:
        raise Violation("not idempotent", f"first:\n{merged}\nsecond:\n{again}")
    for node in ast.walk(ast.parse(old)):
        if isinstance(node, (ast.FunctionDef, ast.AsyncFunctionDef)):
            for c in body_comments(old, node):
                if c not in merged:
                    raise Violation("comment in a function body lost", f"{c}\n{merged}")
    for c in comments(old):
        if (c.startswith("# head") or c.startswith("# foot")) and c not in merged:
            raise Violation("comment around the module lost", f"{c}\n{merged}")
    return merged


# ------------------------------------------------------------------ synthetic modules

CLASS = ["Alpha", "Beta", "Gamma", "Delta"]
FUNC = ["aquery", "make", "watch"]
ASSIGN = ["UNSET", "Union1", "Scalar"]
MEMBER = ["id", "name", "RED", "BLUE", "resolve", "Meta", "Arguments"]
ANN = ["int", "Optional[str]", "List['Alpha']", "Annotated[str, strawberry.lazy('x')]"]
IMPORTS = ["from typing import Optional", "from typing import List, Dict", "import enum", "import os.path as p, json", "from pydantic import BaseModel as B, Field",
           "from . import local", "from enum import *", "from __future__ import annotations"]


@st.composite
def members(draw, who, depth=1):
    """[(kind, name, payload)] with unique names; who: 'new' | 'old'"""
    names = draw(st.permutations(MEMBER))[:draw(st.integers(0, 5))]
    out = []
    for n in names:
        kind = draw(st.sampled_from(["ann", "ann", "annv", "assign", "func", "func"] + (["class"] if depth else [])))
        if n in ("Meta", "Arguments") and depth:
            kind = draw(st.sampled_from(["class", "class", "ann"]))
        out.append(draw(definition(kind, n, who, depth - 1)))
    return out


@st.composite
def definition(draw, kind, name, who, depth=1):
    k = draw(st.integers(0, 99))
    if kind == "ann":
        return {"k": kind, "n": name, "ann": draw(st.sampled_from(ANN))}
    if kind == "annv":
        return {"k": kind, "n": name, "ann": draw(st.sampled_from(ANN)), "v": draw(st.sampled_from(["None", "Field(alias='x')", str(k)]))}
    if kind == "assign":
        return {"k": kind, "n": name, "v": draw(st.sampled_from([f"'{k}'", "strawberry.enum_value('X', description='d')", "Union[int, str]"]))}
    if kind == "func":
        params = ["self"] if depth < 1 else []
        params += draw(st.permutations(["x: int", "y: Optional[str] = None", "*args", "**kw", "z=UNSET"]))[:draw(st.integers(0, 1))]
        return {"k": kind, "n": name, "params": params, "returns": draw(st.sampled_from([None, "int", "List[str]"])),
                "deco": draw(st.sampled_from([[], [], ["strawberry.field"], ["strawberry.mutation(description='m')", "cache"]])) if who == "new" else
                draw(st.sampled_from([[], [], ["strawberry.field"]])),
                "async": draw(st.integers(0, 4)) == 0, "body": k, "lines": draw(st.integers(0, 2)) if who == "old" else 0, "one": who == "old" and draw(st.integers(0, 5)) == 0}
    return {"k": "class", "n": name, "bases": draw(st.sampled_from([[], ["BaseModel"], ["str", "Enum"], ["Base", "metaclass=M"]])),
            "deco": draw(st.sampled_from([[], ["strawberry.type"], ["strawberry.enum", "final"]])), "doc": draw(st.booleans()),
            "body": draw(members(who, max(depth, 0))), "one": who == "old" and draw(st.integers(0, 4)) == 0}


def render(d, unit, pad, out, who):
    """text of one definition"""
    ind = unit * pad
    if d["k"] == "ann":
        out.append(f"{ind}{d['n']}: {d['ann']}")
    elif d["k"] == "annv":
        out.append(f"{ind}{d['n']}: {d['ann']} = {d['v']}")
    elif d["k"] == "assign":
        out.append(f"{ind}{d['n']} = {d['v']}")
    elif d["k"] == "func":
        out += [f"{ind}@{x}" for x in d["deco"]]
        head = f"{ind}{'async ' if d['async'] else ''}def {d['n']}({', '.join(d['params'])})" + (f" -> {d['returns']}" if d["returns"] else "") + ":"
        if who == "new":
            out += [head, f"{ind}{unit}'Documentation {d['body']}'", f"{ind}{unit}return None"]
        elif d["one"]:
            out.append(head + f" return {d['body']}  # one line")
        else:
            out.append(head)
            out += [f"{ind}{unit}# keep {d['body']}{i}\n{ind}{unit}x{i} = {d['body']}" for i in range(d["lines"])]
            if d["lines"] == 2:
                out += [f"{ind}{unit}if x0:", f"{ind}{unit}{unit}# keep nested {d['body']}", f"{ind}{unit}{unit}return compute(x0)", ""]
            out.append(f"{ind}{unit}return {d['body']}")
    else:
        out += [f"{ind}@{x}" for x in d["deco"]]
        head = f"{ind}class {d['n']}" + (f"({', '.join(d['bases'])})" if d["bases"] else "") + ":"
        simple = [m for m in d["body"] if m["k"] in ("ann", "assign", "annv")]
        if d.get("one") and len(simple) == len(d["body"]) <= 1:
            inner = []
            for m in simple:
                render(m, "", 0, inner, who)
            out.append(head + " " + (inner[0] if inner else "pass"))
            return
        out.append(head)
        if d["doc"]:
            out.append(f"{ind}{unit}\"\"\"Documentation of {d['n']} {who}\"\"\"")
        for m in d["body"]:
            render(m, unit, pad + 1, out, who)
            if who == "old" and len(out) % 3 == 0:
                out.append("")
        if not d["body"] and not d["doc"]:
            out.append(f"{ind}{unit}pass")


@st.composite
def modules(draw, who):
    defs = []
    for pool, kind in ((CLASS, "class"), (FUNC, "func"), (ASSIGN, "assign")):
        for n in draw(st.permutations(pool))[:draw(st.integers(0, len(pool)))]:
            defs.append(draw(definition(kind if draw(st.integers(0, 11)) else "func", n, who)))
    if who == "old":
        for i in range(draw(st.integers(0, 3))):
            defs.append(draw(definition(draw(st.sampled_from(["class", "func", "assign"])), draw(st.sampled_from(["helper", "Mine", "LIMIT"])), who)))
    defs = list(draw(st.permutations(defs)))
    imports = draw(st.permutations(IMPORTS))[:draw(st.integers(0, 4))]
    future = [i for i in imports if "__future__" in i]
    imports = future + [i for i in imports if i not in future]
    calls = [f"{d['n']}.model_rebuild()" for d in defs if d["k"] == "class" and draw(st.integers(0, 2)) == 0]
    calls = list(dict.fromkeys(calls))
    return {"doc": draw(st.booleans()), "imports": imports, "defs": defs, "calls": calls, "indent": draw(st.sampled_from(["    ", "    ", "  ", "\t"])) if who == "old" else "    ",
            "head": who == "old" and draw(st.booleans()), "foot": who == "old" and draw(st.booleans()), "nl": who == "new" or draw(st.integers(0, 4)) != 0,
            "free": draw(st.integers(0, 2)) if who == "old" else 0}


def module_text(m, who):
    out = []
    if m["head"]:
        out += ["# head one", "", "# head two"]
    if m["doc"]:
        out.append(f'"""{who} module"""')
    out += m["imports"]
    free = ["if True:\n" + m["indent"] + "flag = 1", "try:\n" + m["indent"] + "import speedup\nexcept ImportError:\n" + m["indent"] + "pass"][:m["free"]]
    for i, d in enumerate(m["defs"]):
        if i == 1:
            out += free
        if who == "old":
            out.append("")
        render(d, m["indent"], 0, out, who)
    out += m["calls"]
    if m["foot"]:
        out += ["", "# foot"]
    return "\n".join(out) + ("\n" if m["nl"] else "")


@st.composite
def pairs(draw):
    """an existing module, and generated ones to merge one after the other"""
    old = draw(modules("old"))
    news = [draw(modules("new"))]
    for _ in range(draw(st.integers(0, 1))):
        nxt = draw(modules("new"))
        if draw(st.booleans()):      # an evolution of the one before
            nxt = {**news[0], "defs": [d for d in news[0]["defs"] if draw(st.integers(0, 3))] + [d for d in nxt["defs"] if d["n"] not in {x["n"] for x in news[0]["defs"]}]}
            names = {d["n"] for d in nxt["defs"]}
            nxt["calls"] = [c for c in nxt["calls"] if c.split(".")[0] in names]
        news.append(nxt)
    return {"old": module_text(old, "old"), "news": [module_text(n, "new") for n in news]}


def run_pairs(case):
    labels = set()
    code = case["old"]
    for new in case["news"]:
        ast.parse(code), ast.parse(new)
        if "from __future__" in new and "from __future__" not in code and ast.parse(code).body:
            continue                       # generated code never has future imports that the file before it lacks
        before = code
        code = check_merge(code, new)
        shared = {name_of(n) for n in ast.parse(before).body} & {name_of(n) for n in ast.parse(new).body} - {None}
        if shared and len(ast.parse(code).body) > len(ast.parse(before).body):
            labels.add("nt")
    if merge(case["news"][0], case["news"][0]) != case["news"][0]:
        raise Violation("merging a module into itself changes it", merge(case["news"][0], case["news"][0]))
    if len(case["news"]) > 1:
        labels.add("history")
    return labels


# ------------------------------------------------------------------ regenerating a client after the schema and documents grew

@st.composite
def clients(draw):
    import copy

    import schemagen as sg
    from graphql import build_schema, parse, validate
    from hypothesis import assume

    model_box = []

    def extra(draw, model, schema, doc):
        model_box.append(model)
        return {}
    case = draw(cm.client_cases(doc_opts=dict(ops=(1, 3)), extra=extra))
    before = copy.deepcopy(model_box[-1])
    for t in before["types"]:
        if t["kind"] == "enum" and len(t["values"]) > 1 and draw(st.booleans()):
            t["values"] = t["values"][:-1]
        if t["kind"] == "input" and len(t["fields"]) > 1 and draw(st.booleans()):
            t["fields"] = t["fields"][1:]
    old_sdl = sg.print_schema(before)
    drop = [o["name"] for o in case["ops"] if draw(st.integers(0, 2)) == 0]
    texts = {}
    from graphql import print_ast
    from graphql.language import ast as gast
    for name, text in case["files"].items():
        keep = [d for d in parse(text).definitions if not (isinstance(d, gast.OperationDefinitionNode) and d.name.value in drop)] if text.strip() and not text.strip().startswith("#") else []
        texts[name] = "\n".join(map(print_ast, keep))
    old_text = "\n".join(texts.values())
    assume(old_text.strip())
    try:
        old_schema = build_schema(old_sdl)
        old_schema_errors = validate(old_schema, parse(old_text))
    except Exception:
        old_schema_errors = ["invalid"]
    if old_schema_errors:
        old_sdl = case["sdl"]
        assume(not validate(build_schema(old_sdl), parse(old_text)))
    case["old"] = {"sdl": old_sdl, "files": {"a.graphql": old_text}}
    case["edits"] = draw(st.lists(st.integers(0, 5), min_size=1, max_size=4))
    return case


def hand_edit(source, edits):
    """methods, helpers and edited function bodies in a generated file"""
    tree = ast.parse(source)
    lines = source.splitlines()
    inserts = []
    for i, n in enumerate(tree.body):
        e = edits[i % len(edits)]
        if isinstance(n, ast.ClassDef) and e in (1, 2):
            inserts.append((n.body[-1].end_lineno, f"\n    def hand_{i}(self):\n        # keep {i}\n        return {i}"))
        elif e == 3 and isinstance(n, ast.ClassDef):
            inserts.append((n.end_lineno, f"\n\ndef helper_{i}(x: int) -> int:\n    # keep {i}\n    return x + {i}\n"))
        elif e == 4 and isinstance(n, ast.FunctionDef):
            inserts.append((n.end_lineno, f"    # keep {i}"))
    for at, text in sorted(inserts, reverse=True):
        lines.insert(at, text)
    return "# head of the file\n" + "\n".join(lines) + "\n# foot of the file\n", len(inserts)


def run_clients(case):
    from turms.config import GeneratorConfig
    from turms.processors.merge import MergeProcessor
    plugins = [("enums", {"skip_unreferenced": True}), ("inputs", {"skip_unreferenced": True}), "fragments", "operations", "input_funcs"]
    new_source = cm.source(case, plugins)
    old_source = sut.generate_source(case["old"]["sdl"], case["old"]["files"], cm.config_of(case), plugins, cm.stylers_of(case))
    edited, n = hand_edit(old_source, case["edits"])
    merged = check_merge(edited, new_source, "client")
    # the processor does the same with the project's file
    directory = tempfile.mkdtemp(prefix="vpbt-")
    try:
        with open(os.path.join(directory, "api.py"), "w", encoding="utf-8") as f:
            f.write(edited)
        config = GeneratorConfig(out_dir=directory, generated_name="api.py", **cm.config_of(case))
        if MergeProcessor().run(new_source, config) != merged:
            raise Violation("processor", "MergeProcessor and merge_code differ")
        if open(os.path.join(directory, "api.py"), encoding="utf-8").read() != edited:
            raise Violation("processor", "the existing file was changed by the processor")
        empty = GeneratorConfig(out_dir=directory, generated_name="other.py", **cm.config_of(case))
        if MergeProcessor().run(new_source, empty) != new_source:
            raise Violation("processor", "code changed although there is nothing to merge into")
    finally:
        shutil.rmtree(directory, ignore_errors=True)
    # and the merged module works like the regenerated one
    with sut.Module(merged) as mod, sut.Module(new_source) as fresh:
        ours, theirs = cm.operations(mod), cm.operations(fresh)
        for name, cls in theirs.items():
            if name not in ours:
                raise Violation("operation missing", name)
            if ours[name].Meta.document != cls.Meta.document:
                raise Violation("document not refreshed", f"{name}: {ours[name].Meta.document}\n{cls.Meta.document}")
            for response in case["responses"][name]:
                a = ours[name](**response).model_dump(mode="json", by_alias=True)
                b = cls(**response).model_dump(mode="json", by_alias=True)
                if a != b:
                    raise Violation("merged model differs", f"{name}: {a} {b}")
        for name, cls in cm.classes(mod):
            for key, f in vars(cls).items():
                if key.startswith("hand_") and f(None) != int(key[5:]):
                    raise Violation("method", f"{name}.{key}")
        for key, f in mod.mod.__dict__.items():
            if key.startswith("helper_") and f(1) != 1 + int(key[7:]):
                raise Violation("helper", key)
        for name, c in cm.classes(fresh):
            import enum
            if issubclass(c, enum.Enum):
                mine = getattr(mod, name)
                extra = [m.value for m in c if m.value not in [x.value for x in mine]]
                if extra:
                    raise Violation("enum value missing", f"{name}: {extra}")
    return {"nt"} if n and old_source != new_source else set()


SUBS = [
    Sub("modules", pairs, run_pairs, quick=900, rule="random existing modules (hand-written bodies, comments, helpers, one-line classes, other indentations) and one or two generated ones merged in a row; "
        "non-trivial: both share definitions and new ones are added"),
    Sub("clients", clients, run_clients, quick=250, rule="a generated client module edited by hand (methods, helpers, comments), merged with the one generated after operations, enum values and input fields were added; "
        "non-trivial: something was edited and something new is generated"),
]
