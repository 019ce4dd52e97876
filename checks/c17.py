"""C17: post-processing never changes what the generated code means."""
import ast
import inspect
import io
import re
import sys
import tokenize
import warnings

from graphql import build_schema
from hypothesis import strategies as st

import common as cm
import oracle
import schemagen as sg
import sut
from core import Sub
from oracle import Violation

FUNCS = ["funcs", {"definitions": [{"type": k, "is_async": a, "use": "exec_stub.%s" % ("vp_aexecute" if a else "vp_execute")}
                                   for k in ("query", "mutation") for a in (False, True)]}]
CLIENT_STACKS = [sut.CLIENT, [*sut.CLIENT, FUNCS], [["enums", {"skip_unreferenced": False}], ["inputs", {"skip_unreferenced": False}], "input_funcs"]]
SERVER_STACKS = [["strawberry"], [["enums", {"skip_unreferenced": False}], "objects"]]
DISCLAIMERS = ["# written by a machine", '"""Do not edit."""', "# two\n# lines", '"""Several\n\nlines, \\\\ and "quotes" """', "'''ünicode ✓'''", "# -*- coding: utf-8 -*-\n# no touching\n"]

# a formatter of our own, which changes nothing about the meaning either
COMMENT = "import sys; d = sys.stdin.buffer.read(); sys.stdout.buffer.write(d + b'# processed\\n')"

PYTHON37_TYPING = set("""AbstractSet Any AnyStr AsyncContextManager AsyncGenerator AsyncIterable AsyncIterator Awaitable ByteString Callable ChainMap ClassVar
Collection Container ContextManager Coroutine Counter DefaultDict Deque Dict ForwardRef FrozenSet Generator Generic Hashable ItemsView Iterable Iterator KeysView
List Mapping MappingView Match MutableMapping MutableSequence MutableSet NamedTuple NewType NoReturn Optional OrderedDict Pattern Reversible Sequence Set Sized
SupportsAbs SupportsBytes SupportsComplex SupportsFloat SupportsInt SupportsRound Text Tuple Type TypeVar TYPE_CHECKING Union ValuesView cast get_type_hints
no_type_check no_type_check_decorator overload""".split())


def component(spec):
    name, opts = (spec, {}) if isinstance(spec, str) else spec
    if name == "black":
        from turms.processors.black import BlackProcessor as P
    elif name == "isort":
        from turms.processors.isort import IsortProcessor as P
    elif name == "ruff":
        from turms.processors.ruff import RuffProcessor as P
    elif name == "disclaimer":
        from turms.processors.disclaimer import DisclaimerProcessor as P
    else:
        from turms.processors.command import CommandProcessor as P
        opts = {"command": [sys.executable, "-c", COMMENT]}
    return P(config=opts) if opts else P()


# ------------------------------------------------------------------ meaning of a module
def clean(text):
    return "\n".join(line.rstrip() for line in inspect.cleandoc(text.expandtabs()).strip().splitlines())


class Docstrings(ast.NodeTransformer):
    """bare strings document what surrounds them; their indentation and outer blanks mean nothing"""
    def visit_Expr(self, node):
        if isinstance(node.value, ast.Constant) and isinstance(node.value.value, str):
            return ast.Expr(value=ast.Constant(value=clean(node.value.value)))
        return self.generic_visit(node)


def meaning(source, polyfilled=False):
    """(imports, everything else in order) of a module; bare strings on its top level are left out"""
    imports, body = set(), []
    for node in ast.parse(source).body:
        if isinstance(node, ast.Import):
            imports |= {(a.name, None, a.asname) for a in node.names}
        elif isinstance(node, ast.ImportFrom):
            module = "typing" if node.module == "typing_extensions" and polyfilled else node.module
            imports |= {(module, a.name, a.asname) for a in node.names}
        elif not (isinstance(node, ast.Expr) and isinstance(node.value, ast.Constant)):
            body.append(ast.dump(Docstrings().visit(node)))
    return imports, body


def top(source):
    """(comments, docstring) a module starts with"""
    comments = []
    for t in tokenize.generate_tokens(io.StringIO(source).readline):
        if t.type == tokenize.COMMENT:
            comments.append(t.string)
        elif t.type not in (tokenize.NL, tokenize.NEWLINE):
            break
    doc = ast.get_docstring(ast.parse(source))
    return comments, clean(doc) if doc is not None else None


def shape(mod):
    from pydantic import BaseModel
    out = {}
    for name, cls in cm.classes(mod):
        out[name] = [c.__name__ for c in cls.__mro__]
        if issubclass(cls, BaseModel):
            out[name] += [(f, str(x.annotation).replace(mod.name, ""), x.is_required(), x.alias) for f, x in cls.model_fields.items()]
    return out


# ------------------------------------------------------------------ the check
def run(case):
    from turms.config import GeneratorConfig
    from turms.parsers.polyfill import PolyfillParser
    from turms.run import parse_ast, parse_asts_to_string, process_code
    labels = set()
    raw = cm.source(case, case["plugins"])
    parsers = [PolyfillParser(config={"python_version": v}) for v in case["parsers"]]
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        config = GeneratorConfig()
        code = parse_asts_to_string(parse_ast(config, ast.parse(raw).body, parsers=parsers))
        if "3.7" in case["parsers"]:
            labels.add("polyfill")
            for node in ast.walk(ast.parse(code)):
                if isinstance(node, ast.ImportFrom) and node.module == "typing" and {a.name for a in node.names} - PYTHON37_TYPING:
                    raise Violation("polyfill", f"Python 3.7 has no {sorted({a.name for a in node.names} - PYTHON37_TYPING)} in typing")
        try:
            processed = process_code(config, code, processors=[component(p) for p in case["processors"]])
        except Exception as e:
            raise Violation("processing fails", f"{type(e).__name__}: {cm.short(str(e), 1500)}")
    try:
        before, after = meaning(raw), meaning(processed, polyfilled=bool(parsers))
    except SyntaxError as e:
        raise Violation("not python", f"{e}\n{processed[:1500]}")
    fixed = any(p[0] == "ruff" and p[1].get("fix") for p in case["processors"])
    if not (after[0] <= before[0] if fixed else after[0] == before[0]):
        raise Violation("imports changed", f"lost {before[0] - after[0]}, new {after[0] - before[0]}")
    if before[1] != after[1]:
        i, pair = next(((i, p) for i, p in enumerate(zip(before[1] + [None], after[1] + [None])) if p[0] != p[1]), (len(before[1]), (None, None)))
        raise Violation("code changed", f"statement {i}:\n{cm.short(pair[0], 1200)}\n{cm.short(pair[1], 1200)}")
    disclaimers = [p for p in case["processors"] if p == "disclaimer" or p[0] == "disclaimer"]
    if disclaimers:
        labels.add("disclaimer")
        last = disclaimers[-1]
        text = component(last).config.disclaimer if last == "disclaimer" else last[1]["disclaimer"]
        want, got = top(text), top(processed)
        if not (got[0][:len(want[0])] == want[0] if want[0] else got[0] == [] and flat(got[1]) == flat(want[1])):
            raise Violation("disclaimer not on top", f"{text!r}\n{processed[:400]}")
    names = {p if isinstance(p, str) else p[0] for p in case["processors"]}
    labels |= names
    if names & {"black", "ruff", "isort"} and processed != code:
        labels.add("nt")
    with sut.Module(raw) as one, sut.Module(processed) as two:
        d = oracle.diff(shape(one), shape(two))
        if d:
            raise Violation("classes changed", d)
        classes = [cm.operations(m) for m in (one, two)]
        for op in case["ops"]:
            if not all(op["name"] in c for c in classes):
                continue  # a function of the same name took its place
            for response in case.get("responses", {}).get(op["name"], []):
                if case["plugins"][:4] != sut.CLIENT:
                    continue
                dumps = [oracle.dump(c[op["name"]](**response)) for c in classes]
                if dumps[0] != dumps[1]:
                    raise Violation("behaviour changed", f"{op['name']}: {cm.short(dumps, 1500)}")
                labels.add("responses")
    return labels


def flat(text):
    return re.sub(r"\s+", " ", text or "").strip()


processors = st.one_of(st.sampled_from(["black", "isort", "black", "isort", ["ruff", {}], ["ruff", {"fix": True}], ["ruff", {"fix": True, "format": False}], "disclaimer", "command"]),
                       st.sampled_from(DISCLAIMERS).map(lambda d: ["disclaimer", {"disclaimer": d}]))
stacks = st.one_of(st.just(["black", "isort"]), st.lists(processors, min_size=1, max_size=4))
parsers = st.sampled_from([[], [], ["3.7"], ["3.7"], ["3.8"], ["3.11"]])


@st.composite
def client(draw):
    case = draw(cm.client_cases({"objects": (1, 3), "max_fields": 4}, responses=1))
    return {**case, "plugins": draw(st.sampled_from(CLIENT_STACKS)), "processors": draw(stacks), "parsers": draw(parsers)}


@st.composite
def server(draw):
    model = draw(sg.schema_models(objects=(1, 3)))
    plugins = draw(st.sampled_from(SERVER_STACKS))
    return {"sdl": sg.print_schema(model), "files": None, "scalars": model["scalars"] if plugins != ["strawberry"] else {}, "ops": [], "responses": {}, "plugins": plugins,
            "config": {"skip_forwards": plugins == ["strawberry"]}, "stylers": draw(cm.styler_stacks), "processors": draw(stacks), "parsers": draw(parsers)}


# ------------------------------------------------------------------ external commands
SDL = "type Query { item: String }"
DOC = "query GetItem { item }"
# every command records what it read, and its arguments, in the working directory
SCRIPT = """
import os, sys, time, signal
raw = sys.stdin.buffer.read() if {read} else b''
open('seen-' + str(len([n for n in os.listdir('.') if n.startswith('seen-')])), 'wb').write(raw)
open('args', 'wb').write(b'\\0'.join(os.fsencode(a) for a in sys.argv[1:]))
sys.stderr.buffer.write({err!r})
sys.stderr.flush()
out = {out!r}
sys.stdout.buffer.write(raw if out is None else out)
sys.stdout.flush()
if {signal}:
    os.kill(os.getpid(), {signal})
sys.exit({code})
"""


def command_run(case):
    """a project whose code goes through external commands"""
    import projects
    labels = set()
    with projects.Workspace({"schema.graphql": SDL, "docs/a.graphql": DOC}) as ws:
        with ws.inside():
            from turms.config import GeneratorConfig
            from turms.run import generate_code
            plain = generate_code(GeneratorConfig(documents="docs/*.graphql"), build_schema(SDL), plugins=sut.make_plugins(sut.CLIENT))
        expected, fails, stages = plain.encode(), False, []
        for i, c in enumerate(case["commands"]):
            out = bytes.fromhex(c["out"]) if c["out"] is not None else None if c["read"] else b""
            ws.write(f"cmd{i}.py", SCRIPT.format(read=c["read"], err=bytes.fromhex(c["err"]), out=out, signal=c["signal"], code=c["code"]))
            command = [sys.executable, f"cmd{i}.py", *c["args"]] if c["exists"] else ["./no-such-command", *c["args"]]
            if c["string"]:
                command = " ".join(quote(a, c["string"]) for a in command)
            stages.append((c, expected))
            if not fails:
                if not c["exists"] or c["code"] or c["signal"]:
                    fails = True
                elif out is not None:
                    expected = out
                    fails = not utf8(out)
            c["command"] = command
        turms = projects.turms_config(processors=[["command", {"command": c["command"]}] for c in case["commands"]], out_dir="api")
        ws.write("graphql.config.json", projects.dump(projects.project("schema.graphql", "docs/*.graphql", turms)))
        before = None
        if case["previous"] is not None:
            ws.write("api/schema.py", case["previous"])
        before = ws.snapshot("api")
        code, output, escaped = ws.run("gen")
        after = ws.snapshot("api")
        if fails:
            labels.add("fails")
            if after != before:
                raise Violation("failed command left output", f"{cm.short(case['commands'], 1000)}\n{cm.short(after, 800)}")
            if code == 0:
                raise Violation("failed command goes unnoticed", cm.short(case["commands"], 1500))
        else:
            labels.add("nt")
            if code != 0:
                raise Violation("run fails", f"{escaped!r}\n{output[-1500:]}")
            if after.get("api/schema.py") != expected:
                raise Violation("output not used verbatim", f"{cm.short(after.get('api/schema.py'), 800)}\nexpected {cm.short(expected, 800)}")
            for i, (c, given) in enumerate(stages):
                if c["read"] and ws.read(f"seen-{i}") != given:
                    raise Violation("command reads something else", f"stage {i}: {cm.short(ws.read(f'seen-{i}'), 800)}\nexpected {cm.short(given, 800)}")
            got = ws.read("args").split(b"\0") if ws.read("args") else []
            if [a.encode() for a in case["commands"][-1]["args"]] != got and case["commands"][-1]["args"] != [""]:
                raise Violation("command line split differently", f"{case['commands'][-1]['command']!r}: {got}")
        labels |= {"string" if c["string"] else "list" for c in case["commands"]}
    return labels


def utf8(data):
    try:
        data.decode("utf-8")
        return True
    except UnicodeDecodeError:
        return False


def quote(arg, style):
    """one word of a POSIX command line"""
    if style == "single" or '"' in arg or "\\" in arg or "$" in arg or "`" in arg:
        return "'" + arg.replace("'", "'\\''") + "'"
    return '"' + arg + '"' if arg == "" or not re.fullmatch(r"[A-Za-z0-9_./-]+", arg) else arg


OUTPUTS = [b"x = 1\n", b"", b"# no end of line", b"a = 1\r\nb = 2\r\n", "s = 'ünï ✓ 𝒳'\n".encode(), b"\xff\xfe broken", b"x = 1\r", b"\n\n  \nx = 1\n\n\n", b"not python (",
           b"\xef\xbb\xbfx = 1\n", "a\u2028b\x0cc\x85".encode(), b"#" * 200000]


@st.composite
def commands(draw):
    def command():
        c = {"read": draw(st.sampled_from([True, True, True, False])), "exists": draw(st.integers(0, 9)) != 0,
                "out": draw(st.one_of(st.none(), st.sampled_from(OUTPUTS).map(bytes.hex), st.text(max_size=20).filter(utf8able).map(lambda t: t.encode().hex()))),
                "err": draw(st.sampled_from([b"", b"", b"warning\n", b"\xff\xfe", b"e" * 200000])).hex(),
                "code": draw(st.sampled_from([0, 0, 0, 0, 0, 1, 2, 255])), "signal": draw(st.sampled_from([0] * 9 + [9, 15])),
                "args": draw(st.lists(st.sampled_from(["-", "--quiet", "two words", "it's", 'say "hi"', "back\\slash", "$HOME", "*", "ü", "#x", ";", "&&"]), max_size=3)),
                "string": draw(st.sampled_from([None, "single", "double"]))}
        if c["code"] or c["signal"]:
            c["err"] = c["err"][:200]  # the console takes minutes to lay out long messages
        return c
    return {"commands": [command() for _ in range(draw(st.integers(1, 2)))], "previous": draw(st.sampled_from([None, "", "old = True\n"]))}


def utf8able(text):
    try:
        text.encode()
        return True
    except UnicodeEncodeError:
        return False


SUBS = [
    Sub("client", client, run, quick=250, rule="a formatter ran and changed the text"),
    Sub("server", server, run, quick=100, rule="a formatter ran and changed the text"),
    Sub("commands", commands, command_run, quick=150, rule="every command succeeds and the output is written"),
]
