"""C22: every way of supplying a schema or documents gives the same result."""
import ast
import json
import os
import warnings

from graphql import GraphQLInputObjectType, build_client_schema, build_schema, get_introspection_query, graphql_sync, parse, print_ast, print_schema
from graphql.language import ast as gast
from hypothesis import strategies as st

import c18
import common as cm
import endpoints
import projects as P
import sut
from core import Sub
from oracle import Violation

TECHNIQUE = "property-based testing (Hypothesis): metamorphic comparison of the code generated from random partitions, encodings and (loopback) sources of one schema and its documents"

FUNCS = ["funcs", {"definitions": [{"type": k, "use": "exec_stub.vp_execute"} for k in ("query", "mutation")]}]
CLIENT_STACKS = [sut.CLIENT, [*sut.CLIENT, FUNCS], [["enums", {"skip_unreferenced": False}], ["inputs", {"skip_unreferenced": False}], "input_funcs"]]
SERVER_STACKS = [[["enums", {"skip_unreferenced": False}], "objects"], ["strawberry"]]


# ------------------------------------------------------------------ code, whatever order its definitions come in
def graphql_text(text):
    if not text.lstrip().startswith(("query", "mutation", "subscription", "fragment")):
        return text
    try:
        return "\n".join(sorted(print_ast(d) for d in parse(text).definitions))
    except Exception:
        return text


class Forward(ast.NodeTransformer):
    """a type may be named or quoted, depending on what was defined before"""
    def visit_Subscript(self, node):
        if isinstance(node.value, ast.Name) and node.value.id in ("Literal", "Annotated"):
            if node.value.id == "Annotated":
                node.slice.elts[0] = self.visit(node.slice.elts[0])
            return node
        return self.generic_visit(node)

    def visit_Call(self, node):
        return node

    def visit_Constant(self, node):
        return ast.parse(node.value, mode="eval").body if isinstance(node.value, str) else node


class Normal(ast.NodeTransformer):
    def visit_AnnAssign(self, node):
        node.annotation = Forward().visit(node.annotation)
        return self.generic_visit(node)

    def visit_arg(self, node):
        if node.annotation is not None:
            node.annotation = Forward().visit(node.annotation)
        return self.generic_visit(node)

    def visit_FunctionDef(self, node):
        if node.returns is not None:
            node.returns = Forward().visit(node.returns)
        return self.generic_visit(node)

    visit_AsyncFunctionDef = visit_FunctionDef

    def visit_Constant(self, node):
        if isinstance(node.value, str):
            return ast.Constant(value=graphql_text(node.value))
        return node

    def visit_Subscript(self, node):
        self.generic_visit(node)
        if isinstance(node.value, ast.Name) and node.value.id == "Union" and isinstance(node.slice, ast.Tuple):
            node.slice.elts.sort(key=ast.dump)
        return node

    def visit_ClassDef(self, node):
        self.generic_visit(node)
        nested = sorted((n for n in node.body if isinstance(n, ast.ClassDef)), key=lambda n: n.name)
        return ast.ClassDef(name=node.name, bases=node.bases, keywords=node.keywords, decorator_list=node.decorator_list,
                            body=[n for n in node.body if not isinstance(n, ast.ClassDef)] + nested, type_params=getattr(node, "type_params", []))


def normal(source):
    imports, body = set(), []
    for node in ast.parse(source).body:
        if isinstance(node, ast.ImportFrom):
            imports |= {(node.module, a.name, a.asname) for a in node.names}
        elif not (isinstance(node, ast.Expr) and isinstance(node.value, ast.Call)):      # rebuilding of models with forward references
            body.append(ast.dump(Normal().visit(node)))
    return imports, sorted(body)


def compare(want, got, how):
    a, b = normal(want), normal(got)
    if a[0] != b[0]:
        raise Violation("imports differ", f"{how}: {a[0] ^ b[0]}")
    if a[1] != b[1]:
        lost, new = [x for x in a[1] if x not in b[1]], [x for x in b[1] if x not in a[1]]
        raise Violation("code differs", f"{how}:\nwithout\n" + cm.short("\n".join(lost[:2]), 1200) + "\nwith\n" + cm.short("\n".join(new[:2]), 1200))


# ------------------------------------------------------------------ texts over files
STYLES = ["plain", "bom", "crlf", "comment", "bare", "blank"]


def styled(text, style, n):
    if style == "bom":
        return b"\xef\xbb\xbf" + text.encode("utf-8")
    if style == "crlf":
        text = text.replace("\n", "\r\n")
    elif style == "comment":
        text = f"# file {n}, \"quotes\" {{ and ünicode\n\n{text}\n# the end"
    elif style == "bare":
        text = text.rstrip("\n")
    elif style == "blank":
        text = "\n\n  " + text + "\n\n\n"
    return text.encode("utf-8")


def definitions(text):
    """the source of each definition"""
    return [d.loc.source.body[d.loc.start:d.loc.end] for d in parse(text).definitions]


@st.composite
def partitions(draw, count, most=4):
    """for each file the indices of the definitions it holds, and its style"""
    files = draw(st.integers(1, most))
    order = draw(st.permutations(range(count))) if draw(st.booleans()) else list(range(count))
    where = [draw(st.integers(0, files - 1)) for _ in order]
    out = []
    for f in range(files):
        part = [i for i, w in zip(order, where) if w == f]
        out.append({"parts": part, "style": draw(st.sampled_from(STYLES))})
    return out


def split_extensions(sdl, chosen):
    """moves the last field (value, member) of some definitions into `extend ...`"""
    out = []
    for i, text in enumerate(definitions(sdl)):
        out.append(text)
        node = parse(text).definitions[0]
        if i not in chosen:
            continue
        kind = type(node).__name__.replace("DefinitionNode", "ExtensionNode")
        attribute = next((a for a in ("fields", "values", "types") if getattr(node, a, None)), None)
        cls = getattr(gast, kind, None)
        if cls is None or attribute is None or len(getattr(node, attribute)) < 2:
            continue
        items = getattr(node, attribute)
        rest = cls(name=node.name, directives=[], **{attribute: (items[-1],)})
        if hasattr(cls, "interfaces") or "interfaces" in cls.keys:
            rest.interfaces = ()
        setattr(node, attribute, items[:-1])
        out[-1] = print_ast(node)
        out.append(print_ast(rest))
    return out


def one_of(sdl, pick):
    """declares @oneOf on inputs that may carry it"""
    document, found = parse(sdl), 0
    for d in document.definitions:
        if isinstance(d, gast.InputObjectTypeDefinitionNode) and all(not isinstance(f.type, gast.NonNullTypeNode) and f.default_value is None for f in d.fields):
            if pick:
                d.directives = (*d.directives, gast.DirectiveNode(name=gast.NameNode(value="oneOf"), arguments=()))
                found += 1
    return ("directive @oneOf on INPUT_OBJECT\n\n" + print_ast(document)) if found else sdl


def live_inputs(sdl):
    """introspection hides deprecated input fields and arguments, which documents may use"""
    document, hidden = parse(sdl), lambda d: d.name.value == "deprecated"
    for d in document.definitions:
        for f in getattr(d, "fields", None) or ():
            for x in (f, *(getattr(f, "arguments", None) or ())):
                if isinstance(x, gast.InputValueDefinitionNode):
                    x.directives = tuple(y for y in x.directives or () if not hidden(y))
    return print_ast(document)


SOURCES = ["file", "glob", "glob", "list", "list", "url", "url-headers", "urls", "mixed", "introspect", "introspect-headers", "introspect-file", "introspect-list", "downloaded", "http-path"]


@st.composite
def schema_cases(draw):
    server = draw(st.integers(0, 2)) == 0
    if server:
        case = draw(cm.client_cases(schema_opts={"defaults": True}, responses=0))
        case["plugins"] = draw(st.sampled_from(SERVER_STACKS))
        case["files"] = None
        case["config"] = {"skip_forwards": True} if case["plugins"] == ["strawberry"] else {}
    else:
        case = draw(cm.client_cases(responses=0))
        case["plugins"] = draw(st.sampled_from(CLIENT_STACKS))
    sources = [draw(st.sampled_from(SOURCES)) for _ in range(2)]
    case["sdl"] = one_of(case["sdl"], draw(st.booleans()))
    if any(s.startswith("introspect") for s in sources):
        case["sdl"] = live_inputs(case["sdl"])
    count = len(parse(case["sdl"]).definitions)
    case["extended"] = draw(st.lists(st.integers(0, count - 1), unique=True, max_size=3))
    total = len(split_extensions(case["sdl"], case["extended"]))
    case["variants"] = [{"source": source, "files": draw(partitions(total)), "order": draw(st.integers(0, 5)),
                         "get": draw(st.sampled_from(["404", "html", "empty", "500", "405"])), "headers": draw(st.dictionaries(st.sampled_from(["Authorization", "X-Key", "Accept"]), st.sampled_from(["Bearer a.b", "1", "x y"]), min_size=1))}
                        for source in sources]
    return case


def schema_from(spec, w, allow=True):
    from turms.config import GraphQLProject
    from turms.run import build_schema_from_schema_type
    with w.inside():
        project = GraphQLProject(**json.loads(json.dumps({"schema": spec, "extensions": {"turms": {}}})))
        return build_schema_from_schema_type(project.schema_url, allow_introspection=allow)


def generate(case, schema):
    return sut.generate_source(None, case["files"], cm.config_of(case), case["plugins"], cm.stylers_of(case), schema=schema)


def introspected(sdl, query=None):
    """the schema as far as introspection carries it"""
    return build_client_schema(graphql_sync(build_schema(sdl), query or get_introspection_query()).data)



def run_schemas(case):
    labels = set()
    sdl = case["sdl"]
    texts = split_extensions(sdl, case["extended"])
    with P.Workspace({"main/schema.graphql": sdl}) as w:
        want = generate(case, schema_from("main/schema.graphql", w))
        for n, v in enumerate(case["variants"]):
            base, how, records = f"v{n}", v["source"], []
            if how.startswith(("introspect", "downloaded")) and not printable(sdl):
                continue
            parts = [(f"{base}/{'abc'[i % 3] + '/' if i % 2 else ''}{i}.graphql", "\n\n".join(texts[k] for k in f["parts"]), f["style"]) for i, f in enumerate(v["files"])]
            reference = want
            if how in ("glob", "list", "mixed", "urls", "http-path"):
                parts = [p for p in parts if p[1].strip()] if how != "glob" else parts
                prefix = "http_files/" if how == "http-path" else ""
                for i, (name, text, style) in enumerate(parts):
                    w.write(prefix + name, styled(text, style, i))
                w.write(f"{base}/notes.txt", "type { not a schema")
                labels.add("several files" if len(parts) > 1 else "one file")
            if how == "file":
                w.write(f"{base}/s.graphql", styled(sdl, v["files"][0]["style"], 0))
                spec = f"{base}/s.graphql"
            elif how == "glob":
                spec = f"{base}/**/*.graphql"
                if v["order"] % 2:
                    os.makedirs(w.path(f"{base}/folder.graphql"))
            elif how == "http-path":
                spec = [prefix + p[0] for p in parts] if len(parts) > 1 else prefix + parts[0][0]
            elif how == "list":
                spec = [p[0] for p in parts]
                spec = spec[v["order"] % len(spec):] + spec[:v["order"] % len(spec)]
            elif how in ("url", "url-headers"):
                url, record = endpoints.add(sdl=sdl, headers=v["headers"] if how == "url-headers" else {})
                spec = {url: {"headers": v["headers"]}} if how == "url-headers" else url if v["order"] % 2 else [url]
                records.append((record, v["headers"] if how == "url-headers" else {}))
                if how == "url-headers" and v["order"] % 2:
                    spec = [spec]
            elif how in ("urls", "mixed"):
                spec = {} if how == "urls" else []
                for i, (name, text, style) in enumerate(parts):
                    headers = {k: f"{x}{i}" for k, x in v["headers"].items()} if how == "urls" or (i + v["order"]) % 3 else {}
                    url, record = endpoints.add(sdl=text, headers=headers)
                    if how == "urls":
                        spec[url] = {"headers": headers}
                        records.append((record, headers))
                    elif (i + v["order"]) % 3 == 2:
                        spec.append(name)
                    else:
                        spec.append({url: {"headers": headers}} if headers else url)
                        records.append((record, headers))
            elif how.startswith("introspect-file"):
                w.write(f"{base}/schema.json", (b"\xef\xbb\xbf" if v["files"][0]["style"] == "bom" else b"") + json.dumps(graphql_sync(build_schema(sdl), get_introspection_query()).data, indent=v["order"] or None).encode())
                spec = f"{base}/schema.json"
                reference = generate(case, build_schema(print_schema(introspected(sdl))))
            elif how.startswith("introspect"):
                headers = v["headers"] if how == "introspect-headers" else {}
                url, record = endpoints.add(sdl=sdl, get=v["get"], headers=headers)
                records.append((record, headers))
                spec = {url: {"headers": headers}} if headers else [url] if how == "introspect-list" else url
            else:
                config = P.project("main/schema.graphql", None, P.turms_config())
                w.write("dl.json", json.dumps({"projects": {f"p{n}": config}}))
                suffix = [None, ".graphql", "-schema.gql"][v["order"] % 3]
                if v["order"] % 2:
                    os.makedirs(w.path(f"down{n}"))
                code, output, escaped = w.run("download", "--config", "dl.json", *(["--out", suffix] if suffix else []), *(["--dir", w.path(f"down{n}") if v["order"] > 2 else f"down{n}"] if v["order"] % 2 else []))
                spec = (f"down{n}/" if v["order"] % 2 else "") + f"p{n}{suffix or '.schema.graphql'}"
                if code or not os.path.exists(w.path(spec)):
                    raise Violation("download", f"exits {code} without {spec}: {cm.short(output, 800)} {escaped!r}")
                equivalent(sdl, w.read(spec).decode("utf-8"))
            try:
                schema = schema_from(spec, w)
            except Exception as e:
                raise Violation("source refused", f"{how} {json.dumps(spec)[:300]}: {type(e).__name__}: {cm.short(str(e), 800)} {cm.short(str(e.__cause__), 400)}")
            for record, headers in records:
                if not record["log"]:
                    raise Violation("endpoint not asked", json.dumps(spec))
                for command, sent in record["log"]:
                    if any(sent.get(k.lower()) != x for k, x in headers.items()):
                        raise Violation("headers not sent", f"{command}: {headers} but {sent}")
                    if any(k.lower() in sent for k in ("Authorization", "X-Key") if k not in headers):
                        raise Violation("headers leaked", f"{command}: {sent}")
            if how.startswith("introspect") and records:
                queries = records[0][0]["queries"]
                if not queries:
                    raise Violation("no introspection", json.dumps(spec))
                reference = generate(case, build_schema(print_schema(introspected(sdl, queries[-1]))))
            try:
                got = generate(case, schema)
            except sut.SutError as e:
                raise Violation("generation refused", f"{how}: {cm.short(str(e), 1000)}")
            compare(reference, got, f"{how} {json.dumps(spec)[:300]}")
            labels |= {how, "nt"}
            endpoints.clear()
    return labels


def printable(sdl):
    """graphql-core can neither print nor introspect object-valued defaults of custom scalars"""
    try:
        print_schema(build_schema(sdl))
        return not graphql_sync(build_schema(sdl), get_introspection_query(input_value_deprecation=True)).errors
    except TypeError:
        return False


def one_ofs(sdl):
    return {d.name.value for d in parse(sdl).definitions if isinstance(d, gast.InputObjectTypeDefinitionNode) and any(x.name.value == "oneOf" for x in d.directives)}


def equivalent(sdl, downloaded):
    try:
        schema = build_schema(downloaded)
    except Exception as e:
        raise Violation("downloaded schema", f"does not build: {e}")
    a, b = c18.normal(build_schema(sdl)), c18.normal(schema)
    for k in sorted({*a, *b}):
        if a.get(k) != b.get(k):
            raise Violation("downloaded schema", f"{k}: {cm.short(a.get(k), 800)} became {cm.short(b.get(k), 800)}")
    if one_ofs(sdl) != one_ofs(downloaded):
        raise Violation("downloaded schema", f"@oneOf is on {sorted(one_ofs(downloaded))}, not {sorted(one_ofs(sdl))}")


# ------------------------------------------------------------------ documents
@st.composite
def document_cases(draw):
    case = draw(cm.client_cases(responses=0))
    case["plugins"] = draw(st.sampled_from(CLIENT_STACKS[:2]))
    count = len(parse(cm.case_text(case)).definitions)
    case["layouts"] = [{"files": draw(partitions(count)), "glob": draw(st.sampled_from(["docs/**/*.graphql", "docs/*.graphql", "*/*.graphql", "**/*.graphql", "docs/[a-z0-9]*.graphql"])), "names": draw(st.sampled_from(["n", "rev", "x.y", "ü "])),
                        "decoy": draw(st.booleans())} for _ in range(2)]
    return case


def run_documents(case):
    labels, texts = set(), definitions(cm.case_text(case))
    schema = build_schema(case["sdl"])
    with P.Workspace({"one.gql": "\n\n".join(texts)}) as w:
        def code(glob):
            from turms.config import GeneratorConfig
            from turms.run import generate_ast, parse_asts_to_string
            with w.inside():
                config = GeneratorConfig(documents=glob, **cm.config_of(case))
                return parse_asts_to_string(generate_ast(config, schema, plugins=sut.make_plugins(case["plugins"]), stylers=sut.make_stylers(cm.stylers_of(case))))
        want = code("one.gql")
        for n, layout in enumerate(case["layouts"]):
            deep = "**" in layout["glob"]
            for i, f in enumerate(layout["files"]):
                name = {"n": f"{i}", "rev": f"{9 - i}", "x.y": f"a{i}.query", "ü ": f"ü {i}"}[layout["names"] if "[" not in layout["glob"] else "n"]
                w.write(f"w{n}/docs/{'sub/deeper/' if deep and i % 2 else ''}{name}.graphql", styled("\n\n".join(texts[k] for k in f["parts"]), f["style"], i))
            if layout["decoy"]:
                w.write(f"w{n}/docs/readme.md", "# not { graphql")
                w.write(f"w{n}/docs/old.graphql.bak", "query Old { nothing }")
                os.makedirs(w.path(f"w{n}/docs/{'0' if layout['names'] == 'n' else 'folder'}0.graphql"))
            try:
                got = code_in(w, f"w{n}", code, layout["glob"])
            except Exception as e:
                raise Violation("documents refused", f"{layout}: {type(e).__name__}: {cm.short(str(e), 1000)}")
            compare(want, got, json.dumps(layout))
            with sut.Module(got):
                pass
            if sum(1 for f in layout["files"] if f["parts"]) > 1:
                labels |= {"nt", layout["glob"]}
            labels |= {f["style"] for f in layout["files"] if f["parts"]}
    return labels


def code_in(w, below, code, glob):
    root = w.root
    w.root = os.path.join(root, below)
    try:
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            return code(glob)
    finally:
        w.root = root


# ------------------------------------------------------------------ sources that fail
BROKEN = ["unreachable", "status", "errors", "partial", "nodata", "post-html", "post-status", "unauthorised", "forbidden-introspection", "absent-file", "absent-in-list", "broken-in-list", "two-json", "broken-json", "list-introspection"]


@st.composite
def broken_cases(draw):
    return {"kind": draw(st.sampled_from(BROKEN)), "get": draw(st.sampled_from(["404", "html", "empty", "500", "403", "410"])), "headers": draw(st.booleans()), "listed": draw(st.booleans()), "command": draw(st.sampled_from(["gen", "download"]))}


def run_broken(case):
    kind, sdl = case["kind"], "type Query { a: Int }"
    options, headers, key = {}, {"X-Key": "1"} if case["headers"] else {}, case["get"]
    files = {"q.graphql": "query Q { a }", "ok.graphql": "type Other { b: Int }", "broken.graphql": "type Query { a: }", "one.json": "{}", "two.json": "{}", "schema.json": '{"__schema": {'}
    if kind == "unreachable":
        spec = "http://127.0.0.1:1/graphql"
    elif kind == "status":
        spec, _ = endpoints.add(sdl=sdl, get=key, post="500")
    elif kind in ("errors", "partial", "nodata"):
        spec, _ = endpoints.add(sdl=sdl, get=key, post=kind)
    elif kind == "post-html":
        spec, _ = endpoints.add(sdl=sdl, get=key, post="html")
    elif kind == "post-status":
        spec, _ = endpoints.add(sdl=sdl, get=key, post="404")
    elif kind == "unauthorised":
        spec, _ = endpoints.add(sdl=sdl, headers={"Authorization": "secret"})
    elif kind == "forbidden-introspection":
        spec, _ = endpoints.add(sdl=sdl, get=key)
        options, case = {"allow_introspection": False}, {**case, "command": "gen"}
    elif kind == "absent-file":
        spec = "nothing/*.graphql"
    elif kind == "absent-in-list":
        spec = ["ok.graphql", "nothing.graphql"]
    elif kind == "broken-in-list":
        spec = ["ok.graphql", "broken.graphql"]
    elif kind == "two-json":
        spec = "[ot][nw][eo].json"
    elif kind == "broken-json":
        spec = "schema.json"
    else:
        url, _ = endpoints.add(sdl=sdl, get=key)
        spec = [url, "ok.graphql"]
    if isinstance(spec, str) and spec.startswith("http") and headers:
        spec = {spec: {"headers": headers}}
    if case["listed"] and not isinstance(spec, list):
        spec = [spec]
    with P.Workspace({**files, "graphql.config.json": json.dumps(P.project(spec, "q.graphql", P.turms_config(**options)))}) as w:
        before = w.snapshot()
        code, output, escaped = w.run(case["command"])
        after = w.snapshot()
    endpoints.clear()
    if escaped is not None or not code or before != after:
        raise Violation("broken source", f"turms {case['command']} with {kind} {json.dumps(spec)}: exit {code}, {escaped!r}, wrote {sorted(set(after) - set(before))}: {cm.short(output, 600)}")
    return {"nt", kind}


SUBS = [
    Sub("schemas", schema_cases, run_schemas, 420, rule="a second source of the schema is used"),
    Sub("documents", document_cases, run_documents, 420, rule="the definitions are spread over several files"),
    Sub("broken", broken_cases, run_broken, 180, rule="every source is broken in one way"),
]
