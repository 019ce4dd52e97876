"""C23: invalid documents and schemas are refused; omitting a rule relaxes that rule only."""
import json

from graphql import (GraphQLError, GraphQLScalarType, TypeInfo, TypeInfoVisitor, Visitor, build_ast_schema, build_schema, get_named_type, is_composite_type,
                     parse, print_ast, type_from_ast, validate, validate_schema, visit)
from graphql.language import ast as gast
from graphql.validation import specified_rules
from graphql.validation.validate import validate_sdl
from hypothesis import assume, strategies as st

import c22
import common as cm
import docgen as dg
import projects as P
import sut
from core import Sub
from oracle import Violation

TECHNIQUE = "property-based testing (Hypothesis): grammar-based fault injection into valid documents and schemas, judged by graphql-core's own validation rules run one by one"

# the documented names of the rules, spelled out: the reference does not read them from the code under test
RULES = {r.__name__: r for r in specified_rules}
NAMES = ["executable_definitions", "unique_operation_names", "lone_anonymous_operation", "single_field_subscriptions", "known_type_names", "fragments_on_composite_types",
         "variables_are_input_types", "scalar_leafs", "fields_on_correct_type", "unique_fragment_names", "known_fragment_names", "no_unused_fragments", "possible_fragment_spreads",
         "no_fragment_cycles", "unique_variable_names", "no_undefined_variables", "no_unused_variables", "known_directives", "unique_directives_per_location", "known_argument_names",
         "unique_argument_names", "values_of_correct_type", "provided_required_arguments", "variables_in_allowed_position", "overlapping_fields_can_be_merged", "unique_input_field_names"]


def rule_of(name):
    return RULES["".join(p.capitalize() for p in name.split("_")) + "Rule"]


def broken_rules(schema, document):
    out = set()
    for name in NAMES:
        try:
            if validate(schema, document, [rule_of(name)]):
                out.add(name)
        except RecursionError:       # some rules need others to hold
            out.add("no_fragment_cycles")
        except GraphQLError:
            out.add(name)
    return out


# rules whose breach leaves the meaning of the document clear
BENIGN = {"no_unused_fragments", "no_unused_variables", "unique_directives_per_location"}


# ------------------------------------------------------------------ faults
def name(value):
    return gast.NameNode(value=value)


def node(cls, **kw):
    """a node with every attribute of its kind"""
    out = cls(**kw)
    for k in ("directives", "arguments", "variable_definitions"):
        if k in cls.keys and getattr(out, k, None) is None:
            setattr(out, k, ())
    return out


def field(text):
    return parse("{ " + text + " }").definitions[0].selection_set.selections[0]


def literal(text):
    return parse("{ a(a: " + text + ") }").definitions[0].selection_set.selections[0].arguments[0].value


class Places(Visitor):
    """everything in a document that can be damaged"""

    def __init__(self, info):
        super().__init__()
        self.info, self.fields, self.arguments, self.sets, self.values, self.objects, self.spreads, self.inlines, self.directed = info, [], [], [], [], [], [], [], []

    def enter_field(self, n, *_):
        d = self.info.get_field_def()
        if d is not None and not n.name.value.startswith("__"):
            self.fields.append((n, d))

    def enter_selection_set(self, n, *_):
        self.sets.append((n, self.info.get_parent_type()))

    def enter_argument(self, n, *_):
        self.arguments.append((n, self.info.get_input_type()))

    def enter_object_field(self, n, *_):
        self.arguments.append((n, self.info.get_input_type()))

    def enter_object_value(self, n, *_):
        self.objects.append(n)

    def enter_fragment_spread(self, n, *_):
        self.spreads.append(n)

    def enter_inline_fragment(self, n, *_):
        self.inlines.append(n)


def places(schema, document):
    info = TypeInfo(schema)
    p = Places(info)
    visit(document, TypeInfoVisitor(info, p))
    return p


FAULTS = ["unknown field", "unknown field", "sub selection of a leaf", "no sub selection", "unknown argument", "argument twice", "required argument dropped", "wrong literal", "wrong literal",
          "unknown directive", "directive twice", "directive without argument", "directive at wrong place", "unknown fragment", "unused fragment", "fragment cycle", "fragment twice",
          "fragment on unknown type", "fragment on leaf type", "impossible spread", "operation twice", "anonymous", "variable twice", "unused variable", "undefined variable",
          "variable of output type", "variable of unknown type", "variable default", "nullable variable", "conflicting fields", "conflicting aliases", "second root of a subscription",
          "type definition", "input field twice", "input field unknown", "syntax", "literal for enum", "nested conflict"]


def damage(draw, schema, document, fault):
    """applies the fault; False where the document offers no place for it"""
    p = places(schema, document)
    ops = [d for d in document.definitions if isinstance(d, gast.OperationDefinitionNode)]
    frags = [d for d in document.definitions if isinstance(d, gast.FragmentDefinitionNode)]
    pick = lambda xs: draw(st.sampled_from(xs))                # noqa: E731
    leafs = [n for n, d in p.fields if not is_composite_type(get_named_type(d.type))]
    composites = [n for n, d in p.fields if is_composite_type(get_named_type(d.type))]
    op = pick(ops)

    def add(selection_set, *nodes):
        at = draw(st.integers(0, len(selection_set.selections)))
        selection_set.selections = (*selection_set.selections[:at], *nodes, *selection_set.selections[at:])

    if fault == "unknown field":
        add(pick(p.sets)[0], field(pick(["noSuchField", "__schema_", "id_", "noSuch { id }"])))
    elif fault == "sub selection of a leaf":
        if not leafs:
            return False
        pick(leafs).selection_set = field("a { id }").selection_set
    elif fault == "no sub selection":
        if not composites:
            return False
        pick(composites).selection_set = None
    elif fault == "unknown argument":
        n = pick([n for n, _ in p.fields])
        n.arguments = (*n.arguments, gast.ArgumentNode(name=name("noSuchArgument"), value=literal("1")))
    elif fault == "argument twice":
        with_args = [n for n, _ in p.fields if n.arguments]
        if not with_args:
            return False
        n = pick(with_args)
        n.arguments = (*n.arguments, n.arguments[0])
    elif fault == "required argument dropped":
        with_args = [n for n, _ in p.fields if n.arguments]
        if not with_args:
            return False
        n = pick(with_args)
        n.arguments = tuple(a for a in n.arguments if a is not pick([n.arguments[0], n.arguments[-1]]))
    elif fault in ("wrong literal", "literal for enum"):
        if not p.arguments:
            return False
        pick(p.arguments)[0].value = literal(pick(["{no_such_field: 1}", "NO_SUCH_VALUE", "[[[[1]]]]", "1.5", "\"text\"", "true", "null", "99999999999"]) if fault == "wrong literal" else pick(["RED_", "red", "\"RED\"", "0"]))
    elif fault == "unknown directive":
        target = pick([n for n, _ in p.fields] + ops + frags + p.spreads + p.inlines)
        target.directives = (*(target.directives or ()), gast.DirectiveNode(name=name("noSuchDirective"), arguments=()))
    elif fault == "directive twice":
        n = pick([n for n, _ in p.fields])
        d = field("a @include(if: true)").directives[0]
        n.directives = (*[x for x in n.directives if x.name.value != "include"], d, d)
    elif fault == "directive without argument":
        n = pick([n for n, _ in p.fields])
        n.directives = (*[x for x in n.directives if x.name.value != "skip"], field(pick(["a @skip", "a @skip(unless: true, if: true)", "a @skip(if: 3)", "a @skip(if: null)"])).directives[0])
    elif fault == "directive at wrong place":
        target = pick(ops + frags)
        target.directives = (*(target.directives or ()), field(pick(["a @include(if: true)", "a @deprecated"])).directives[0])
    elif fault == "unknown fragment":
        add(pick(p.sets)[0], node(gast.FragmentSpreadNode, name=name("NoSuchFragment")))
    elif fault == "unused fragment":
        on = pick(sorted(t for t, x in schema.type_map.items() if is_composite_type(x) and not t.startswith("__")))
        document.definitions = (*document.definitions, parse(f"fragment Unused{on} on {on} {{ __typename }}").definitions[0])
    elif fault == "fragment cycle":
        if not frags:
            return False
        f = pick(frags)
        inner = [s for s, t in p.sets if t is not None and t.name == f.type_condition.name.value]
        add(pick([f.selection_set, *inner]), node(gast.FragmentSpreadNode, name=name(f.name.value)))
    elif fault == "fragment twice":
        if not frags:
            return False
        document.definitions = (*document.definitions, pick(frags))
    elif fault in ("fragment on unknown type", "fragment on leaf type"):
        if not frags and not p.inlines:
            return False
        leaf = sorted(t for t, x in schema.type_map.items() if not is_composite_type(x) and not t.startswith("__"))
        pick(frags + p.inlines).type_condition = gast.NamedTypeNode(name=name("NoSuchType" if fault.endswith("unknown type") else pick(leaf)))
    elif fault == "impossible spread":
        where = pick(p.sets)
        objects = sorted(t for t, x in schema.type_map.items() if is_composite_type(x) and not t.startswith("__"))
        add(where[0], node(gast.InlineFragmentNode, type_condition=gast.NamedTypeNode(name=name(pick(objects))), selection_set=field("a { __typename }").selection_set))
    elif fault == "operation twice":
        if len(ops) > 1 and draw(st.booleans()):
            ops[0].name = ops[1].name
        else:
            document.definitions = (*document.definitions, op)
    elif fault == "anonymous":
        if len(ops) < 2:
            return False
        op.name = None
    elif fault == "variable twice":
        if not op.variable_definitions:
            return False
        op.variable_definitions = (*op.variable_definitions, pick(list(op.variable_definitions)))
    elif fault == "unused variable":
        op.variable_definitions = (*op.variable_definitions, parse("query A($unusedOne: Int) { a }").definitions[0].variable_definitions[0])
    elif fault == "undefined variable":
        if draw(st.booleans()) and op.variable_definitions:
            op.variable_definitions = op.variable_definitions[1:]
        elif p.arguments:
            pick(p.arguments)[0].value = gast.VariableNode(name=name("noSuchVariable"))
        else:
            n = pick([n for n, _ in p.fields])
            n.directives = (*[x for x in n.directives if x.name.value != "skip"], field("a @skip(if: $noSuchVariable)").directives[0])
    elif fault in ("variable of output type", "variable of unknown type"):
        if not op.variable_definitions:
            return False
        outputs = sorted(t for t, x in schema.type_map.items() if is_composite_type(x))
        pick(list(op.variable_definitions)).type = gast.NamedTypeNode(name=name(pick(outputs) if "output" in fault else "NoSuchInput"))
    elif fault == "variable default":
        if not op.variable_definitions:
            return False
        v = pick(list(op.variable_definitions))
        v.default_value = literal(pick(["{no_such_field: 1}", "NO_SUCH_VALUE", "[[[[1]]]]", "1.5", "\"text\"", "true", "null"]))
    elif fault == "nullable variable":
        strict = [v for o in ops for v in o.variable_definitions if isinstance(v.type, gast.NonNullTypeNode)]
        if not strict:
            return False
        v = pick(strict)
        v.type = v.type.type
    elif fault in ("conflicting fields", "conflicting aliases", "nested conflict"):
        rows = [(s, t) for s, t in p.sets if t is not None and len(getattr(t, "fields", {})) > 1]
        if not rows:
            return False
        s, t = pick(rows)
        plain = [f for f in s.selections if isinstance(f, gast.FieldNode) and not f.name.value.startswith("__")]
        if not plain:
            return False
        f = pick(plain)
        key = (f.alias or f.name).value
        other = pick(sorted(t.fields))
        new = field(f"{key}: {other}" + (" { __typename }" if is_composite_type(get_named_type(t.fields[other].type)) else ""))
        new.arguments = ()
        if fault == "nested conflict":
            new = node(gast.InlineFragmentNode, type_condition=gast.NamedTypeNode(name=name(t.name)), selection_set=gast.SelectionSetNode(selections=(new,)))
        add(s, new)
    elif fault == "second root of a subscription":
        subs = [o for o in ops if o.operation.value == "subscription"]
        if not subs:
            return False
        o = pick(subs)
        first = o.selection_set.selections[0]
        if not isinstance(first, gast.FieldNode):
            return False
        extra = gast.FieldNode(alias=name("againAgain"), name=first.name, arguments=first.arguments, directives=first.directives, selection_set=first.selection_set)
        o.selection_set.selections = (*o.selection_set.selections, extra)
    elif fault == "type definition":
        document.definitions = (*document.definitions, parse(pick(["type New { a: Int }", "extend type Query { noSuch: Int }", "scalar Fresh", "enum Hue { A }"])).definitions[0])
    elif fault in ("input field twice", "input field unknown"):
        if not p.objects:
            return False
        n = pick(p.objects)
        if fault.endswith("twice"):
            if not n.fields:
                return False
            n.fields = (*n.fields, n.fields[0])
        else:
            n.fields = (*n.fields, gast.ObjectFieldNode(name=name("noSuchField"), value=literal("1")))
    return True


STACKS = [sut.CLIENT, sut.CLIENT, [*sut.CLIENT, c22.FUNCS], ["enums", "inputs", "fragments"], ["enums", "inputs", "input_funcs"], ["enums"], ["enums", "inputs"]]


@st.composite
def fault_cases(draw, faults=(1, 1)):
    case = draw(cm.client_cases(responses=0, doc_opts=dict(frags=(0, 3), ops=(1, 3), depth=2)))
    schema = build_schema(case["sdl"])
    texts = dict(case["files"])
    done = []
    document = parse("\n\n".join(texts[k] for k in sorted(texts)))
    for _ in range(draw(st.integers(*faults))):
        fault = draw(st.sampled_from(FAULTS))
        if fault != "syntax" and damage(draw, schema, document, fault):
            done.append(fault)
            document = parse(print_ast(document))
    text = print_ast(document)
    if not done and draw(st.integers(0, 3)) == 0:
        at = draw(st.integers(0, len(text) - 1))
        text = text[:at] + draw(st.sampled_from(["", "}", "{", "(", "\"", "$", "?", "é", "..."])) + text[at + draw(st.integers(0, 2)):]
        done.append("syntax")
    case["fault"] = done
    case["plugins"] = draw(st.sampled_from(STACKS))
    try:
        document = parse(text)
    except GraphQLError:
        broken = None
        case["files"] = {"all.graphql": text}
        document = None
    else:
        broken = sorted(broken_rules(schema, document))
        # over several files, as they are validated together
        parts = [print_ast(d) for d in document.definitions]
        cut = draw(st.integers(0, len(parts)))
        case["files"] = {n: t for n, t in (("a.graphql", "\n\n".join(parts[:cut])), ("b.graphql", "\n\n".join(parts[cut:])))}
    how = draw(st.sampled_from(["none", "none", "all broken", "all broken", "all but one", "others", "some"]))
    base = broken or []
    omitted = {"none": [], "all broken": base, "all but one": base[1:], "others": [r for r in NAMES if r not in base], "some": draw(st.lists(st.sampled_from(NAMES), unique=True, max_size=4))}[how]
    if how == "all broken" and draw(st.booleans()):
        omitted = sorted({*omitted, *draw(st.lists(st.sampled_from(NAMES), max_size=3))})
    case["config"] = {"omited_document_rules": omitted}
    return case


def attempt(case, **kw):
    try:
        return cm.source(case, case["plugins"], **kw), None
    except sut.SutError as e:
        return None, e.exc


def chain(e):
    out = []
    while e is not None:
        out.append(e)
        e = e.__cause__ or e.__context__
    return out


def run_documents(case):
    schema = build_schema(case["sdl"])
    omitted = set(case["config"]["omited_document_rules"])
    labels = set(case["fault"]) or {"intact"}
    got, error = attempt(case)
    try:
        document = parse("\n\n".join(case["files"].values()))
    except GraphQLError:
        if got is not None:
            raise Violation("syntax error accepted", cm.short(cm.case_text(case), 1500))
        return labels | {"nt", "syntax error"}
    broken = broken_rules(schema, document)
    left = broken - omitted
    if left:
        if got is not None:
            raise Violation("invalid documents accepted", f"{sorted(left)} broken, {sorted(omitted)} omitted:\n{cm.short(cm.case_text(case), 2000)}")
        if not str(error).strip():
            raise Violation("refused without a reason", repr(error))
        return labels | {"nt", "refused", *(f"refused by {r}" for r in left)} | ({"others omitted"} if omitted else set())
    from turms.utils import InvalidDocuments
    if error is not None and any(isinstance(e, InvalidDocuments) for e in chain(error)):
        raise Violation("valid documents refused", f"{sorted(broken)} broken, {sorted(omitted)} omitted: {cm.short(str(error), 1500)}")
    if not broken:
        want, problem = attempt(case, omited_document_rules=[])
        if want is None:
            if got is not None:
                raise Violation("omitting a rule changes what is generated", f"{sorted(omitted)}: {problem}")
            if case["fault"]:
                return labels | {"unsupported"}       # the edit left a valid document of an unsupported shape
            raise Violation("valid documents refused", cm.short(str(problem), 1500))
        if got != want:
            raise Violation("omitting a rule changes what is generated", f"{sorted(omitted)}: {error or c22_difference(want, got)}")
        return labels | {"accepted"} | ({"nt", "valid with omitted rules"} if omitted else set())
    if broken <= BENIGN:
        if got is None:
            raise Violation("omitted rule still enforced", f"{sorted(broken)}: {cm.short(str(error), 1500)}")
        if case["plugins"][:4] == sut.CLIENT:
            with sut.Module(got) as mod:
                names = {d.name.value for d in document.definitions if isinstance(d, gast.OperationDefinitionNode)}
                if set(cm.operations(mod)) != names:
                    raise Violation("missing operation", f"{names} but {set(cm.operations(mod))}")
        return labels | {"nt", "relaxed", *(f"relaxed {r}" for r in broken)}
    return labels | {"nt", "not refused by validation", *(f"relaxed {r}" for r in broken)}


def c22_difference(want, got):
    a, b = want.splitlines(), got.splitlines()
    return next((f"line {i}: {x!r} became {y!r}" for i, (x, y) in enumerate(zip(a, b)) if x != y), "lengths differ")


def run_names(case):
    from turms.config import GeneratorConfig
    bad = case["names"]
    expect = all(n in NAMES for n in bad)
    try:
        GeneratorConfig(omited_document_rules=bad)
        ok = True
    except Exception:
        ok = False
    if ok != expect:
        raise Violation("rule names", f"{bad} {'accepted' if ok else 'refused'}")
    return {"nt", "known" if expect else "unknown"}


def name_cases():
    return st.fixed_dictionaries({"names": st.lists(st.one_of(st.sampled_from(NAMES), st.sampled_from(["NoUnusedFragmentsRule", "no_unused_fragment", "", "NO_UNUSED_FRAGMENTS", "all", "known_argument_names_on_directives"])), min_size=1, max_size=4)})


# ------------------------------------------------------------------ schemas
SDL_FAULTS = ["syntax", "unknown type", "unknown interface", "unknown member", "unknown argument type", "unknown input type", "type twice", "field twice", "unknown directive", "value twice",
              "interface not implemented", "input as output", "no fields", "extension of nothing", "second schema", "required cycle", "member twice"]


def damaged_sdl(draw, sdl, fault):
    document = parse(sdl)
    pick = lambda xs: draw(st.sampled_from(xs))               # noqa: E731
    objects = [d for d in document.definitions if isinstance(d, gast.ObjectTypeDefinitionNode)]
    inputs = [d for d in document.definitions if isinstance(d, gast.InputObjectTypeDefinitionNode)]
    enums = [d for d in document.definitions if isinstance(d, gast.EnumTypeDefinitionNode)]
    interfaces = [d for d in document.definitions if isinstance(d, gast.InterfaceTypeDefinitionNode)]
    unions = [d for d in document.definitions if isinstance(d, gast.UnionTypeDefinitionNode)]
    unknown = gast.NamedTypeNode(name=name("NoSuchType"))

    def extend(text):
        document.definitions = (*document.definitions, *parse(text).definitions)

    def retype(f, t):
        f.type = draw(st.sampled_from([t, gast.NonNullTypeNode(type=t), gast.ListTypeNode(type=t)]))

    if fault == "syntax":
        text = print_ast(document)
        at = draw(st.integers(0, len(text) - 1))
        return text[:at] + pick(["}", "{", "\"", "?", ":"]) + text[at:]
    if fault == "unknown type":
        retype(pick([f for d in objects + interfaces for f in d.fields]), unknown)
    elif fault == "unknown interface":
        pick(objects).interfaces += (unknown,)
    elif fault == "unknown member":
        if not unions:
            return None
        pick(unions).types += (unknown,)
    elif fault == "unknown argument type":
        f = pick([f for d in objects for f in d.fields])
        f.arguments = (*f.arguments, parse("type A { a(extra: NoSuchType): Int }").definitions[0].fields[0].arguments[0])
    elif fault == "unknown input type":
        if not inputs:
            return None
        retype(pick([f for d in inputs for f in d.fields]), unknown)
    elif fault == "type twice":
        document.definitions = (*document.definitions, pick(objects + inputs + enums + interfaces + unions))
    elif fault == "field twice":
        d = pick(objects + inputs + interfaces)
        d.fields = (*d.fields, d.fields[0])
    elif fault == "value twice":
        if not enums:
            return None
        d = pick(enums)
        d.values = (*d.values, d.values[0])
    elif fault == "unknown directive":
        d = pick(objects + inputs + enums + interfaces)
        d.directives = (gast.DirectiveNode(name=name("noSuchDirective"), arguments=()),)
    elif fault == "interface not implemented":
        if not interfaces:
            return None
        extend("type Incomplete implements " + pick(interfaces).name.value + " { unrelatedField: Int }")
    elif fault == "input as output":
        if not inputs:
            return None
        retype(pick(pick(objects).fields), gast.NamedTypeNode(name=pick(inputs).name))
    elif fault == "no fields":
        extend("type Hollow")
    elif fault == "extension of nothing":
        extend("extend type NoSuchType { a: Int }")
    elif fault == "second schema":
        extend("schema { query: Query }\nschema { query: Query }")
    elif fault == "required cycle":
        extend("input LoopA { b: LoopB! }\ninput LoopB { a: LoopA! }")
    else:
        if not unions:
            return None
        d = pick(unions)
        d.types = (*d.types, d.types[0])
    return print_ast(document)


@st.composite
def schema_cases(draw):
    case = draw(cm.client_cases(responses=0))
    case["fault"] = draw(st.sampled_from(SDL_FAULTS))
    case["good"] = case["sdl"]
    case["sdl"] = damaged_sdl(draw, case["sdl"], case["fault"])
    assume(case["sdl"] is not None)
    case["plugins"] = draw(st.sampled_from([sut.CLIENT, sut.CLIENT, [["enums", {"skip_unreferenced": False}], "objects"]]))
    case["several"] = draw(st.booleans())
    return case


def run_schemas(case):
    labels = {case["fault"], "several files" if case["several"] else "one file"}
    # what the reference implementation says about it
    try:
        document = parse(case["sdl"])
        refusal = "duplicate or unknown" if validate_sdl(document) else None
        try:
            schema = build_ast_schema(document, assume_valid=True, assume_valid_sdl=True)
            [getattr(t, "fields", None) for t in schema.type_map.values()], [getattr(t, "interfaces", None) for t in schema.type_map.values()], [getattr(t, "types", None) for t in schema.type_map.values()]
            unbuildable = None
        except Exception as e:
            unbuildable = f"{type(e).__name__}: {e}"
        invalid = bool(not unbuildable and not refusal and validate_schema(build_ast_schema(document)))
    except GraphQLError as e:
        refusal = unbuildable = f"syntax: {e}"
        document, invalid = None, False
    used = case["plugins"] == sut.CLIENT
    with P.Workspace({}) as w:
        if case["several"]:
            parts = [print_ast(d) for d in document.definitions] if document is not None else [case["sdl"], "type Unrelated { a: Int }"]
            half = max(1, len(parts) // 2)
            w.write("a.graphql", "\n\n".join(parts[:half]))
            w.write("b.graphql", "\n\n".join(parts[half:]) or "type Unrelated { a: Int }")
            spec = ["a.graphql", "b.graphql"]
        else:
            w.write("a.graphql", case["sdl"])
            spec = "a.graphql"
        for k, text in case["files"].items():
            w.write("docs/" + k, text)
        config = P.project(spec, "docs/*.graphql", P.turms_config(case["plugins"], out_dir="api", scalar_definitions=case["scalars"]))
        w.write("c.json", json.dumps({"projects": {"p": config}}))
        code, output, escaped = w.run("gen", "--config", "c.json")
        produced = [k for k in w.snapshot() if k.startswith("api")]
    must = bool(unbuildable) or (case["several"] and bool(refusal)) or (case["several"] and used and invalid)
    if must:
        if produced or code == 0:
            raise Violation("invalid schema accepted", f"{case['fault']} {spec}: {unbuildable or refusal or 'invalid'}; exit {code}, wrote {produced}")
        return labels | {"nt", "refused"}
    return labels | {"tolerated"}


# ------------------------------------------------------------------ scalars without a type
def scalars_needed(case, schema, document, plugins):
    """the custom scalars the generated code has to represent"""
    _, inputs = cm.reachable(schema, document)
    out, info = set(), TypeInfo(schema)

    class V(Visitor):
        def enter_field(self, n, *_):
            t = get_named_type(info.get_type())
            if isinstance(t, GraphQLScalarType):
                out.add(t.name)

        def enter_variable_definition(self, n, *_):
            t = get_named_type(type_from_ast(schema, n.type))
            if isinstance(t, GraphQLScalarType):
                out.add(t.name)
    visit(document, TypeInfoVisitor(info, V()))
    for i in inputs:
        out |= {get_named_type(f.type).name for f in schema.type_map[i].fields.values() if isinstance(get_named_type(f.type), GraphQLScalarType)}
    return out


@st.composite
def scalar_cases(draw):
    case = draw(cm.client_cases(responses=0, schema_opts={"scalars": (1, 3)}))
    custom = sorted({*case["scalars"]} - {"DateTime", "GenericScalar"})       # these have types of their own
    assume(custom)
    case["dropped"] = draw(st.lists(st.sampled_from(custom), min_size=1, unique=True))
    case["plugins"] = draw(st.sampled_from([sut.CLIENT, sut.CLIENT, [*sut.CLIENT, c22.FUNCS], [["enums", {"skip_unreferenced": False}], ["inputs", {"skip_unreferenced": False}]],
                                            [["enums", {"skip_unreferenced": False}], "objects"]]))
    case["coercible"] = draw(st.booleans())
    return case


def run_scalars(case):
    schema = build_schema(case["sdl"])
    document = parse(cm.case_text(case))
    from turms.errors import GenerationError
    if case["plugins"][0] == "enums":
        needed = scalars_needed(case, schema, document, case["plugins"])
    else:
        kind = gast.InputObjectTypeDefinitionNode if case["plugins"][1] != "objects" else (gast.ObjectTypeDefinitionNode, gast.InterfaceTypeDefinitionNode)
        needed = set()
        for d in parse(case["sdl"]).definitions:
            if isinstance(d, kind):
                needed |= {get_named_type(type_from_ast(schema, f.type)).name for f in d.fields}
    kept = {k: v for k, v in case["scalars"].items() if k not in case["dropped"]}
    extra = {"coercible_scalars": {k: "str" for k in case["dropped"]}} if case["coercible"] else {}
    got, error = attempt({**case, "scalars": kept, "config": extra})
    missing = needed & set(case["dropped"])
    if missing:
        if got is not None:
            raise Violation("unmapped scalar accepted", f"{sorted(missing)}")
        if not any(m in str(e) for e in chain(error) for m in missing):
            raise Violation("refusal names no scalar", f"{sorted(missing)}: {cm.short(str(error), 800)}")
        return {"nt", "refused"}
    want, problem = attempt({**case, "scalars": {**kept, **{k: "str" for k in case["dropped"]}}, "config": extra})
    if want is None:
        raise Violation("mapped scalars refused", cm.short(str(problem), 800))
    if got is None:
        raise Violation("unneeded scalar required", f"{case['dropped']}: {cm.short(str(error), 800)}")
    if got != want:
        raise Violation("unneeded scalar changes the code", c22_difference(want, got))
    return {"nt", "unneeded"}


SUBS = [
    Sub("one-fault", fault_cases, run_documents, quick=1500, rule="valid random documents with one injected fault (38 kinds, some leave the document valid) x omitted rules (none, those broken, all but one of them, all others, "
        "random); non-trivial: documents that break a rule, or valid ones with omitted rules"),
    Sub("several-faults", lambda: fault_cases((2, 4)), run_documents, quick=500, rule="the same with two to four faults at once"),
    Sub("rule-names", name_cases, run_names, quick=100, rule="lists of rule names, misspelt ones among them; all are non-trivial"),
    Sub("schemas", schema_cases, run_schemas, quick=300, rule="valid random schemas with one fault, in one file or several, run through `turms gen`; non-trivial: faults that have to be refused"),
    Sub("scalars", scalar_cases, run_scalars, quick=300, rule="scalar definitions with entries taken away; all are non-trivial"),
]
ASSUMPTIONS = ["graphql-core's validation rules are right about which document breaks which rule", "a schema in a single file is only built, not validated (as the code documents by assume_valid): there unresolvable references and "
               "syntax errors have to be refused, and schemas from several files are validated"]
