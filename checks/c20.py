"""C20: equivalent configurations mean the same, bad ones are refused, the environment only fills gaps."""
import contextlib
import copy
import json
import os

import toml
import yaml
from hypothesis import strategies as st

import projects as P
from core import Sub
from oracle import Violation

TECHNIQUE = "property-based testing (Hypothesis): equivalent encodings of one random configuration (metamorphic), documented values and defaults as model, single-fault mutations that must be refused, random environments"

SDL = '''"""A color"""
enum Color { RED GREEN @deprecated(reason: "old") }
interface Node { id: ID! }
type Beast implements Node { id: ID! legName: String birth: Date color: Color friends(first: Int = 2): [Beast!] }
type Plant implements Node { id: ID! height: Float @deprecated(reason: "tall") }
union Thing = Beast | Plant
input Filter { color: Color = RED ids: [ID!] since: Date text: String! }
scalar Date
type Query { node(id: ID!): Node things(filter: Filter): [Thing!]! beast(id: ID): Beast }
type Mutation { add(filter: Filter!): Beast }
'''
DOCS = '''query beastById($id: ID) { beast(id: $id) { ...BeastF friends(first: 3) { id } } }
query Things($filter: Filter) { things(filter: $filter) { ... on Beast { id color } ... on Plant { height } } }
query node($id: ID!) { node(id: $id) { id } }
mutation Add($filter: Filter!) { add(filter: $filter) { id birth } }
fragment BeastF on Beast { id legName }
'''
MORE = "query Only($id: ID) { beast(id: $id) { legName } }\n"
FILES = {"schema.graphql": SDL, "graphql/a.graphql": DOCS, "other/b.graphql": MORE}
DOCUMENTS = {"graphql/*.graphql": "beastById", "other/b.graphql": "Only"}
NAMES = [f"{stem}.{ext}" for ext in ("yaml", "yml", "toml", "json") for stem in ("graphql.config", ".graphqlrc")]

# the documented settings: (default, strategy of values that leave generation possible)
KINDS = ["input", "fragment", "object", "mutation", "query", "subscription"]
NOTSET = "--not set--"
types = st.lists(st.sampled_from(KINDS), unique=True)
type_names = st.lists(st.sampled_from(["Beast", "Filter", "BeastF", "Plant"]), unique=True, max_size=2)
FREEZE = {"enabled": (False, st.booleans()), "types": (["input", "fragment", "object"], types), "exclude": (None, type_names), "include": (None, type_names),
          "convert_list_to_tuple": (True, st.booleans())}
OPTIONS = {"enabled": (False, st.booleans()), "extra": (None, st.sampled_from(["ignore", "allow", "forbid"])), "use_enum_values": (None, st.booleans()),
           "validate_assignment": (None, st.booleans()), "allow_population_by_field_name": (None, st.booleans()),
           "types": (["input", "fragment", "object"], types), "exclude": (None, type_names), "include": (None, type_names)}
file_names = st.sampled_from(["schema.py", "models.py", "été.py", "with space.py", "yes.py", "1.py"])
SETTINGS = {
    "out_dir": ("api", st.sampled_from(["api", "out", "a/b/c", "généré", "with space", "on", "3.10"])),
    "generated_name": ("schema.py", file_names),
    "documents": (None, st.sampled_from(sorted(DOCUMENTS))),
    "domain": (None, st.sampled_from(["host", "null", "1e3", "a: b", "#x", "ü\n\"q\""])),
    "verbose": (False, st.booleans()), "exit_on_error": (True, st.booleans()), "allow_introspection": (True, st.booleans()),
    "dump_schema": (False, st.booleans()), "schema_name": ("schema.graphql", st.sampled_from(["schema.graphql", "s.gql"])),
    "dump_configuration": (False, st.booleans()), "configuration_name": ("project.json", st.sampled_from(["project.json", "p.cfg"])),
    "pydantic_version": ("v2", st.just("v2")),
    "object_bases": (["pydantic.BaseModel"], st.sampled_from([["pydantic.BaseModel"], ["exec_stub.Trait", "pydantic.BaseModel"]])),
    "interface_bases": (None, st.sampled_from([["pydantic.BaseModel"], []])),
    "always_resolve_interfaces": (True, st.booleans()), "create_catchall": (True, st.booleans()), "exclude_typenames": (False, st.booleans()),
    "coercible_scalars": ({}, st.dictionaries(st.sampled_from(["ID", "Date"]), st.sampled_from(["str", "uuid.UUID"]))),
    "coercible_inputs": ({}, st.dictionaries(st.just("Filter"), st.just("str"))),
    "graphql_default_class": (None, st.just("exec_stub.Default")), "deprecated_class": (None, st.just("exec_stub.Old")),
    "document_field_metadata": (True, st.booleans()), "skip_forwards": (False, st.booleans()), "force_plugin_order": (True, st.booleans()),
    "additional_bases": ({}, st.dictionaries(st.sampled_from(["Beast", "Plant"]), st.just(["exec_stub.Trait"]))),
    "additional_config": ({}, st.dictionaries(st.just("Beast"), st.just({"extra": "forbid", "from_attributes": True}))),
    "omited_document_rules": ([], st.lists(st.sampled_from(["no_unused_variables", "no_unused_fragments", "scalar_leafs"]), unique=True)),
}
# components: (name, option -> (default, values), applicable stage)
flag = st.booleans()
COMPONENTS = {
    "plugins": {"enums": {"skip_underscore": (False, flag), "skip_unreferenced": (True, st.just(False)), "prepend": ("", st.just("E"))},
                "inputs": {"inputtype_bases": (["pydantic.BaseModel"], st.just(["exec_stub.Trait", "pydantic.BaseModel"])), "skip_underscore": (True, flag), "skip_unreferenced": (True, flag)},
                "fragments": {"add_documentation": (True, flag), "generate_meta_class": (True, flag)},
                "operations": {"create_arguments": (True, flag), "extract_documentation": (True, flag), "arguments_allow_population_by_field_name": (False, flag)}},
    "stylers": {"default": {}, "capitalize": {"capitalize_query": (True, flag)}, "snake": {}, "appender": {"append_query": ("Query", st.just("Op")), "append_fragment": ("Fragment", st.just("_on"))}},
    "parsers": {"polyfill": {"python_version": ("3.9", st.sampled_from(["3.9", "3.7", "3.10"]))}},
    "processors": {"black": {}, "isort": {}, "disclaimer": {"disclaimer": (NOTSET, st.sampled_from(["# x: y", "# 'q' \"d\" é\n# more", "'''---'''"]))}},
}
SERVER_COMPONENTS = {"objects": {"skip_underscore": (False, flag), "skip_double_underscore": (True, flag)},
                     "funcs": {"prepend_async": ("a", st.just("z")), "collapse_lonely": (True, flag)}, "input_funcs": {"prepend": ("", st.just("make_")), "skip_underscore": (True, flag)},
                     "strawberry": {"generate_directives": (True, flag), "generate_scalars": (True, flag)},
                     "ruff": {"format": (True, flag), "fix": (False, flag)}, "command": {"command": ("", st.just("cat"))}}
PREFIX = {**{n: f"TURMS_PLUGINS_{n.upper()}_" for n in ("enums", "inputs", "fragments", "operations", "objects", "funcs", "strawberry")}, "input_funcs": "TURMS_PLUGINS_INPUTFUNCS_",
          "polyfill": "TURMS_PARSERS_POLYFILL_"}


@st.composite
def section(draw, table, p=3):
    return {k: draw(v) for k, (_, v) in table.items() if draw(st.integers(0, p)) == 0}


@st.composite
def components(draw, stage):
    table = COMPONENTS[stage]
    if stage == "plugins":
        chosen = list(table)
    elif stage == "stylers":
        chosen = draw(st.lists(st.sampled_from(sorted(table)), unique=True, max_size=2))
    else:
        chosen = draw(st.lists(st.sampled_from(sorted(table)), unique=True, max_size=2)) if draw(st.integers(0, 2)) == 0 else []
    out = []
    for c in chosen:
        opts = draw(section(table[c]))
        if c == "disclaimer":
            opts.setdefault("disclaimer", "# x: y")
        if c == "inputs" and not out[0].get("skip_unreferenced", True) is False:
            opts.pop("skip_unreferenced", None)      # inputs need the enums they mention
        out.append({"type": P.PATHS[c], **opts})
    return out


@st.composite
def turms_sections(draw, p=4):
    t = draw(section(SETTINGS, p))
    if draw(st.integers(0, 3)) == 0:
        t["unset_type_class"], t["unset_instance"] = "exec_stub.UnsetT", "exec_stub.UNSET_I"
    for k, table in (("freeze", FREEZE), ("options", OPTIONS)):
        if draw(st.integers(0, 2)) == 0:
            t[k] = draw(section(table, 1))
    t["scalar_definitions"] = {"Date": draw(st.sampled_from(["str", "datetime.date"])), **draw(st.dictionaries(st.sampled_from(["Float", "Other"]), st.just("float")))}
    for stage in COMPONENTS:
        t[stage] = draw(components(stage))
    return t


@st.composite
def graphql_projects(draw):
    t = draw(turms_sections())
    doc = draw(st.sampled_from([*sorted(DOCUMENTS), "graphql/**/*.graphql"]))
    schema = draw(st.sampled_from(["schema.graphql", ["schema.graphql"], "schem*.graphql"]))
    out = {"schema": schema, "documents": doc, "extensions": {"turms": t}}
    if draw(st.integers(0, 3)) == 0 and "documents" in t:
        del out["documents"]
    if draw(st.integers(0, 3)) == 0:            # other tools' settings are none of turms' business
        out["include"] = "src/**"
        out["extensions"]["codegen"] = {"out": "x"}
    return out


# ------------------------------------------------------------------ encodings
def to_toml(data):
    text = toml.dumps(data)
    return text if toml.loads(text) == data else None       # the toml library does not round-trip everything


STYLES = {
    "json": [lambda d: json.dumps(d), lambda d: json.dumps(d, indent=2, ensure_ascii=False), lambda d: json.dumps(dict(reversed(list(d.items()))), sort_keys=True)],
    "yaml": [lambda d: yaml.safe_dump(d), lambda d: "# turms\n---\n" + yaml.safe_dump(d, sort_keys=False, allow_unicode=True, default_flow_style=False, indent=4, width=40),
             lambda d: yaml.safe_dump(d, default_flow_style=True), lambda d: yaml.safe_dump(d, default_style='"'), lambda d: json.dumps(d)],
    "toml": [to_toml],
}
STYLES["yml"] = STYLES["yaml"]


def encode(data, ext, style):
    text = STYLES[ext][style % len(STYLES[ext])](data)
    if text is None or (ext in ("yaml", "yml") and yaml.safe_load(text) != data):
        return None
    return text


@contextlib.contextmanager
def environment(values):
    old = dict(os.environ)
    for k in list(os.environ):
        if k.upper().startswith("TURMS_"):
            del os.environ[k]
    os.environ.update(values)
    try:
        yield
    finally:
        os.environ.clear()
        os.environ.update(old)


def plain(value):
    if hasattr(value, "model_dump"):
        return value.model_dump(mode="json")
    return value


def loaded(w, name, select=None):
    from turms.run import load_projects_from_configpath
    with w.inside():
        return {k: (json.loads(json.dumps(plain(v.schema_url), default=str)), v.documents, v.extensions.turms.model_dump(mode="json")) for k, v in load_projects_from_configpath(name, select).items()}


def resolved(table, given):
    return {k: given.get(k, d) for k, (d, _) in table.items()}


def expected(t):
    out = resolved(SETTINGS, t)
    out["freeze"], out["options"] = resolved(FREEZE, t.get("freeze", {})), resolved(OPTIONS, t.get("options", {}))
    for k in ("unset_type_class", "unset_instance"):
        out[k] = t.get(k)
    for k in ("scalar_definitions", "plugins", "stylers", "parsers", "processors"):
        out[k] = t.get(k, {} if k == "scalar_definitions" else [])
    return out


def agree(want, got, where):
    for k, v in want.items():
        if isinstance(v, dict) and k in ("freeze", "options"):
            agree(v, got[k], f"{where}.{k}")
        elif got.get(k, "<missing>") != v:
            raise Violation("settings", f"{where}: setting {k} is {got.get(k, '<missing>')!r}, configured {v!r}")


def outputs(t):
    """files a project writes"""
    t = expected(t)
    out = {t["generated_name"]}
    if t["dump_schema"]:
        out.add(t["schema_name"])
    if t["dump_configuration"]:
        out.add(t["configuration_name"])
    return {os.path.normpath(os.path.join(t["out_dir"], n)) for n in out}


@st.composite
def equivalence_cases(draw):
    project = draw(graphql_projects())
    others = draw(st.dictionaries(st.sampled_from(["b", "other project", "ünï", "1", "true"]), graphql_projects(), max_size=1)) if draw(st.booleans()) else {}
    variants = []
    for _ in range(2):
        ext = draw(st.sampled_from(["json", "yaml", "toml", "yml"]))
        layout = "multi" if others else draw(st.sampled_from(["single", "multi"]))
        variants.append({"ext": ext, "style": draw(st.integers(0, 4)), "layout": layout,
                         "name": draw(st.sampled_from(["named", "found", "found-caps", "below"])), "stem": draw(st.sampled_from(["graphql.config", ".graphqlrc"])),
                         "select": bool(draw(st.integers(0, 2))) if layout == "multi" else False, "late": draw(st.booleans())})
    return {"project": project, "others": others, "variants": variants}


def run_equivalence(case):
    labels, seen = set(), []
    project, others = case["project"], case["others"]
    t = project["extensions"]["turms"]
    with environment({}):
        for v in case["variants"]:
            key = "default" if v["layout"] == "single" else "main"
            if v["layout"] == "single":
                data = project
            else:
                data = {"projects": {**others, key: project} if v["late"] else {key: project, **others}}
            text = encode(data, v["ext"], v["style"])
            if text is None:
                labels.add("unencodable")
                continue
            name = {"named": f"my config.{v['ext']}", "below": f"conf/turms.{v['ext'].upper()}", "found": f"{v['stem']}.{v['ext']}", "found-caps": f"{v['stem']}.{v['ext']}".title()}[v["name"]]
            with P.Workspace({**FILES, name: text}) as w:
                before = set(w.snapshot())
                got = loaded(w, name)
                if set(got) != {key, *others}:
                    raise Violation("projects", f"{v['ext']}: projects {sorted(got)}, configured {sorted([key, *others])}")
                for k, source in {key: project, **others}.items():
                    schema, documents, settings = got[k]
                    if schema != source["schema"] or documents != source.get("documents"):
                        raise Violation("project", f"project {k} in {v['ext']} has schema {schema!r}, documents {documents!r}")
                    agree(expected(source["extensions"]["turms"]), settings, f"project {k} in {v['ext']}")
                if loaded(w, name, key) != {key: got[key]}:
                    raise Violation("select", f"selecting {key} loads something else")
                seen.append((got[key], v))
                args = ["gen"] + ([key] if v["select"] else []) + (["--config", name] if not v["name"].startswith("found") else [])
                code, output, escaped = w.run(*args)
                if code != 0:
                    raise Violation("refused", f"turms {args} with an {v['ext']} configuration exits {code}: {output[-600:]} {escaped!r}")
                after = w.snapshot()
                written = {f: c for f, c in after.items() if f not in before}
                mine = outputs(t)
                want = mine if v["select"] else mine.union(*(outputs(o["extensions"]["turms"]) for o in others.values()))
                if set(written) != want:
                    raise Violation("outputs", f"turms {args} wrote {sorted(written)}, configured were {sorted(want)}")
                clash = set() if v["select"] else set().union(*(outputs(o["extensions"]["turms"]) for o in others.values())) if others else set()
                cfg_name = os.path.normpath(os.path.join(expected(t)["out_dir"], expected(t)["configuration_name"]))
                seen[-1] += ({f: c for f, c in written.items() if f in mine and f not in clash and f != cfg_name},)
                main = os.path.normpath(os.path.join(expected(t)["out_dir"], expected(t)["generated_name"]))
                if main not in clash:
                    selected = t.get("documents") or project.get("documents")
                    source = written[main].decode("utf-8").lower()
                    for doc, op in DOCUMENTS.items():
                        name_in = f"class {op.lower()}" in source
                        if name_in != (DOCUMENTS.get(selected, "beastById") == op):
                            raise Violation("documents", f"documents are {selected!r} but operation {op} is {'in' if name_in else 'not in'} the code")
                if expected(t)["dump_configuration"] and cfg_name not in clash:
                    dumped = json.loads(written[cfg_name])
                    if dumped["extensions"]["turms"] != got[key][2] | {"documents": t.get("documents") or project.get("documents")}:
                        raise Violation("dump-configuration", "the dumped configuration is not the resolved one")
                    labels.add("dumped")
            labels |= {v["ext"], v["layout"], v["name"]}
    for (a, va, *fa), (b, vb, *fb) in zip(seen, seen[1:]):
        if a != b:
            raise Violation("encodings", f"{va} and {vb} load differently")
        if fa and fb and not (va["select"] or vb["select"]) and fa[0] != fb[0]:
            raise Violation("encodings", f"{va} and {vb} generate different files")
        if (va["ext"], va["layout"], va["name"]) != (vb["ext"], vb["layout"], vb["name"]) and len(t) > 6:
            labels.add("nt")
    return labels


# ------------------------------------------------------------------ refusals
STRAY = ["OUT_DIR", "DOCUMENTS", "VERBOSE", "ENABLED", "TYPES", "EXTRA", "EXCLUDE", "INCLUDE", "USE_ENUM_VALUES", "VALIDATE_ASSIGNMENT", "CONVERT_LIST_TO_TUPLE", "DOMAIN", "GENERATED_NAME", "FREEZE", "OPTIONS",
         "PROJECTS", "EXTENSIONS", "PLUGINS", "SCALAR_DEFINITIONS", "DISCLAIMER", "COMMAND", "FORMAT", "FIX", "APPEND_QUERY", "APPEND_FRAGMENT", "PYTHON_VERSION", "PREPEND", "SKIP_UNREFERENCED", "TYPE", "CONFIG",
         "CAPITALIZE_QUERY", "TURMS", "SCHEMA_URL"]
STRAY_VALUES = ["1", "true", "zz", '["query"]', "{}", "forbid", "", "0"]


WRONG = {str: [5, ["a"], {"a": "b"}, True], bool: ["maybe", [True], {"x": 1}, 7], list: ["a", 5, {"a": 1}, True], dict: ["a", 5, ["a"], True]}
BAD_VALUES = {"pydantic_version": ["v3", "2", 2], "scalar_definitions": [{"Date": "nodot"}, {"Date": 5}, {"Date": ["str"]}], "coercible_scalars": [{"ID": "nodot"}], "coercible_inputs": [{"Filter": "nodot"}],
              "additional_bases": [{"Beast": ["nodot"]}, {"Beast": "exec_stub.Trait"}], "additional_config": [{"Beast": "forbid"}], "omited_document_rules": [["no_such_rule"], ["no_unused_variables", "NoUnusedVariablesRule"]],
              "object_bases": [[1]], "graphql_default_class": ["nodot"], "deprecated_class": ["nodot"], "unset_type_class": ["exec_stub.UnsetT"], "unset_instance": ["exec_stub.UNSET_I"],
              "freeze": [{"types": ["inputs"]}, {"types": "input"}, {"enabled": "maybe"}, {"exclude": "Beast"}, True], "options": [{"extra": "deny"}, {"types": ["model"]}, {"use_enum_values": "perhaps"}, "forbid"],
              "plugins": [["turms.plugins.enums.EnumsPlugin"], [{}], [{"name": "x"}], [{"type": 5}]]}
TYPOS = ["outdir", "Out_Dir", "out-dir", "scalars", "plugin", "type", "schema", "omitted_document_rules", "freeze_enabled", "x"]
UNIMPORTABLE = ["turms.plugins.enums.Enums", "turms.plugins.nothing.EnumsPlugin", "nomodule.Plugin", "EnumsPlugin", "", "turms.plugins.enums.", "os.path"]


@st.composite
def refusal_cases(draw):
    project = draw(graphql_projects())
    t = project["extensions"]["turms"]
    t["exit_on_error"] = True
    kind = draw(st.sampled_from(["unknown", "unknown-nested", "unknown-component", "wrong-type", "bad-value", "unimportable", "missing", "select", "no-config", "several", "extension", "malformed", "missing-file", "not-a-mapping", "documents"]))
    case = {"kind": kind, "layout": draw(st.sampled_from(["single", "multi"])), "ext": draw(st.sampled_from(["json", "yaml", "toml"])), "select": draw(st.booleans())}
    if kind == "unknown":
        key = draw(st.sampled_from([k for k in TYPOS if k != "x" or True]))
        t[key] = draw(st.sampled_from(["v", 1, True, ["a"], {"a": 1}]))
    elif kind == "unknown-nested":
        where = draw(st.sampled_from(["freeze", "options"]))
        t.setdefault(where, {})[draw(st.sampled_from(["enable", "frozen", "type", "extras", "x"]))] = draw(st.sampled_from([True, "x", ["input"]]))
    elif kind == "unknown-component":
        stage = draw(st.sampled_from(sorted(COMPONENTS)))
        name = draw(st.sampled_from(sorted(COMPONENTS[stage]) + ([n for n in SERVER_COMPONENTS if n not in ("ruff", "command")] if stage == "plugins" else ["ruff", "command"] if stage == "processors" else [])))
        t[stage] = [{"type": P.PATHS[name], draw(st.sampled_from(["skip", "Format", "configuration", "x", "log"])): draw(st.sampled_from([True, "x", 3]))}]
    elif kind == "wrong-type":
        k, (d, _) = draw(st.sampled_from(sorted((k, v) for k, v in SETTINGS.items() if v[0] is not None and k != "exit_on_error")))
        t[k] = draw(st.sampled_from(WRONG[type(d)]))
    elif kind == "bad-value":
        k = draw(st.sampled_from(sorted(BAD_VALUES)))
        t.pop("unset_type_class", None), t.pop("unset_instance", None)
        t[k] = draw(st.sampled_from(BAD_VALUES[k]))
        case["what"] = k
    elif kind == "unimportable":
        stage = draw(st.sampled_from(sorted(COMPONENTS)))
        t[stage] = t[stage] + [{"type": draw(st.sampled_from(UNIMPORTABLE))}]
    elif kind == "missing":
        what = draw(st.sampled_from(["schema", "extensions", "turms"]))
        if what == "turms":
            del project["extensions"]["turms"]
        else:
            del project[what]
    elif kind == "documents":
        t["documents"] = draw(st.sampled_from(["nothing/*.graphql", "graphql"]))
    elif kind == "malformed":
        case["text"] = draw(st.sampled_from(["cut", "garbage", "empty"]))
    elif kind == "not-a-mapping":
        case["text"] = json.dumps(draw(st.sampled_from([[1], "graphql", 3, [{"schema": "schema.graphql"}]])))
        case["ext"] = draw(st.sampled_from(["json", "yaml"]))
    elif kind == "extension":
        case["name"] = draw(st.sampled_from(["turms.ini", "graphql.config", "config", "graphql.config.yaml.bak", "x.py"]))
    elif kind == "several":
        case["names"] = draw(st.lists(st.sampled_from(NAMES), unique=True, min_size=2, max_size=3))
    elif kind == "no-config":
        case["name"] = draw(st.sampled_from([None, "turms.yaml", "graphql.yaml", ".graphqlrc", "conf/graphql.config.json", "graphql.config.json.bak"]))
    case["project"] = project
    # SCHEMA in the environment does stand in for a missing schema: a known finding, so it is not generated
    case["env"] = draw(st.dictionaries(st.sampled_from(STRAY + ["TURMS_OUT_DIR", "TURMS_VERBOSE"]), st.sampled_from(["1", "0"]), max_size=2))
    case["command"] = draw(st.sampled_from(["gen", "gen", "gen", "download"])) if kind not in ("unknown-component", "unimportable", "documents") else "gen"
    return case


def run_refusal(case):
    kind, project, ext = case["kind"], case["project"], case["ext"]
    data = project if case["layout"] == "single" else {"projects": {"main": project}}
    args, files = [case["command"]], dict(FILES)
    text = encode(data, ext, 0)
    if text is None:
        ext, text = "json", encode(data, "json", 0)
    name = f"graphql.config.{ext}"
    if kind == "malformed":
        text = {"cut": text[:-len(text) // 3].rstrip() if ext != "yaml" else "a: [1,\n" + text, "garbage": "\x01{: - [", "empty": ""}[case["text"]]
        if ext == "toml":
            text = "a = [\n" if case["text"] != "garbage" else text
        if ext == "json" and case["text"] == "cut":
            text = text.rstrip("}")
    elif kind == "not-a-mapping":
        text = case["text"]
    elif kind == "extension":
        name = case["name"]
        args += ["--config", name]
    elif kind == "missing-file":
        args += ["--config", "absent.json"]
    elif kind == "select":
        args.append("absent")
    if kind == "no-config":
        if case["name"]:
            files[case["name"]] = text
    elif kind == "several":
        for n in case["names"]:
            files[n] = encode(data, n.rsplit(".", 1)[1], 0) or "{}"
    else:
        files[name] = text
    if case["select"] and case["layout"] == "multi" and kind not in ("select",):
        args.append("main")
    with environment(case.get("env", {})), P.Workspace(files) as w:
        before = w.snapshot()
        code, output, escaped = w.run(*args)
        after = w.snapshot()
    if escaped is not None:
        raise Violation("escaped", f"turms {args} with a {kind} fault raises {escaped!r}")
    if code == 0:
        raise Violation("accepted", f"turms {args} accepts a configuration with a {kind} fault{' in ' + case['what'] if 'what' in case else ''}")
    if before != after:
        raise Violation("written", f"turms {args} refuses a {kind} fault but writes {sorted(set(after) ^ set(before))}")
    if not output.strip():
        raise Violation("silent", f"turms {args} fails without a word")
    return {"nt", kind, case["command"]}


# ------------------------------------------------------------------ environments
def env_text(value):
    return ("1" if value else "0") if isinstance(value, bool) else value if isinstance(value, str) else json.dumps(value)


@st.composite
def environment_cases(draw):
    t = draw(turms_sections(3))
    env, moved = {}, {}
    for k in sorted(SETTINGS):
        if draw(st.integers(0, 3)) == 0:
            value = draw(SETTINGS[k][1])
            if k in t and isinstance(value, dict):
                continue                     # which of two maps wins an entry is not promised
            env[draw(st.sampled_from([f"TURMS_{k.upper()}", f"turms_{k}"]))] = env_text(value)
            moved[k] = value
    for section_name, table in (("freeze", FREEZE), ("options", OPTIONS)):
        style = draw(st.sampled_from(["none", "none", "json", "prefixed"]))
        values = draw(section(table, 1)) if style != "none" else {}
        if style == "json" and values and section_name not in t:
            env[f"TURMS_{section_name.upper()}"] = json.dumps(values)
            moved[section_name] = values
        elif style == "prefixed" and values:
            for k, v in values.items():
                env[f"TURMS_{section_name.upper()}_{k.upper()}"] = env_text(v)
            moved[section_name] = values
    if draw(st.booleans()):
        t.pop("unset_type_class", None), t.pop("unset_instance", None)
        env["TURMS_UNSET_TYPE_CLASS"], env["TURMS_UNSET_INSTANCE"] = "exec_stub.UnsetT", "exec_stub.UNSET_I"
        moved["unset_type_class"], moved["unset_instance"] = "exec_stub.UnsetT", "exec_stub.UNSET_I"
    stray = {k: draw(st.sampled_from(STRAY_VALUES)) for k in draw(st.lists(st.sampled_from(STRAY), unique=True, max_size=6))}
    if draw(st.integers(0, 3)) == 0:
        stray["PROJECTS"] = json.dumps({draw(st.sampled_from(["default", "other"])): {"documents": "elsewhere/*.graphql", "extensions": {"turms": {"out_dir": "elsewhere"}}}})
    return {"turms": t, "env": env, "moved": moved, "stray": stray, "layout": draw(st.sampled_from(["single", "multi"]))}


def run_environment(case):
    t, moved = case["turms"], case["moved"]
    project = {"schema": "schema.graphql", "documents": "graphql/*.graphql", "extensions": {"turms": t}}
    data = project if case["layout"] == "single" else {"projects": {"default": project}}
    merged = {**moved, **t, **{k: {**moved.get(k, {}), **t.get(k, {})} for k in ("freeze", "options")}}
    with P.Workspace({**FILES, "graphql.config.json": json.dumps(data)}) as w:
        with environment({**case["stray"], **case["env"]}):
            got = loaded(w, "graphql.config.json")["default"]
            agree(expected(merged), got[2], f"with {case['env']} {case['stray']} in the environment")
            if got[:2] != ("schema.graphql", "graphql/*.graphql"):
                raise Violation("project", f"environment {case['stray']} changes the project to {got[:2]}")
            code, output, escaped = w.run("gen")
        if code:
            raise Violation("refused", f"fails with {case['env']} {case['stray']} in the environment: {output[-600:]} {escaped!r}")
        first = w.snapshot()
    merged = {k: v for k, v in merged.items() if k not in ("freeze", "options") or v}
    with P.Workspace({**FILES, "graphql.config.json": json.dumps({**project, "extensions": {"turms": merged}} if case["layout"] == "single" else {"projects": {"default": {**project, "extensions": {"turms": merged}}}})}) as w:
        with environment({}):
            code, output, escaped = w.run("gen")
        second = w.snapshot()
    for s in (first, second):
        s.pop("graphql.config.json")
    if first != second:
        raise Violation("environment", f"{case['env']} {case['stray']} in the environment generate something else than the same settings in the file: {[f for f in {*first, *second} if first.get(f) != second.get(f)]}")
    overlap = any(k in t and k not in ("freeze", "options") and t[k] != v for k, v in moved.items())
    return {"nt"} | ({"file-wins"} if overlap else set()) | ({"stray"} if case["stray"] else set()) if moved or case["stray"] else {"plain"}


@st.composite
def component_cases(draw):
    tables = {**{n: o for s in COMPONENTS.values() for n, o in s.items()}, **SERVER_COMPONENTS}
    name = draw(st.sampled_from(sorted(n for n, o in tables.items() if o)))
    given, env = {}, {}
    for k, (_, v) in tables[name].items():
        place = draw(st.sampled_from(["file", "env", "both", "stray", "none"]))
        if place in ("file", "both"):
            given[k] = draw(v)
        if place in ("env", "both") and name in PREFIX:
            env[PREFIX[name] + k.upper()] = draw(v)
        if place == "stray":
            env[k.upper()] = draw(v)
    for k in draw(st.lists(st.sampled_from(STRAY), unique=True, max_size=4)):
        env.setdefault(k, draw(st.sampled_from(STRAY_VALUES)))
    if name == "command":
        given.setdefault("command", "cat")
    return {"component": name, "given": given, "env": env}


def run_component(case):
    from turms.run import instantiate
    tables = {**{n: o for s in COMPONENTS.values() for n, o in s.items()}, **SERVER_COMPONENTS}
    name = case["component"]
    with environment({k: env_text(v) for k, v in case["env"].items()}):
        try:
            made = instantiate(P.PATHS[name], config={"type": P.PATHS[name], **case["given"]}, log=print)
        except Exception as e:
            raise Violation("component", f"{name} is refused with {case['given']} in the file and {case['env']} in the environment: {e}")
    for k, (default, _) in tables[name].items():
        want = case["given"].get(k, case["env"].get(PREFIX.get(name, "-") + k.upper(), default))
        got = plain(getattr(made.config, k))
        if want != NOTSET and got != want:
            raise Violation("component", f"{name}.{k} is {got!r}, not {want!r}, with {case['given']} in the file and {case['env']} in the environment")
        if want == NOTSET and got in (case["env"].get(k.upper()), *STRAY_VALUES):
            raise Violation("component", f"{name}.{k} is taken from the unprefixed environment")
    return {"nt", name} if case["env"] else {"plain"}


SUBS = [
    Sub("encodings", equivalence_cases, run_equivalence, 260, rule="two differently encoded, laid out or located files of a project with more than six settings"),
    Sub("refusals", refusal_cases, run_refusal, 700, rule="every case has exactly one fault"),
    Sub("environment", environment_cases, run_environment, 260, rule="something turms-related is in the environment"),
    Sub("components", component_cases, run_component, 1200, rule="something is in the environment"),
]
