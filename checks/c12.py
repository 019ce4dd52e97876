"""C12: styling changes Python names only, never the wire (differential: styled vs. unstyled module)."""
import copy
import json

from graphql import build_schema, parse, parse_type, print_ast, type_from_ast
from hypothesis import strategies as st

import c03
import common as cm
import inputgen as ig
import oracle
import varcases as vc
from core import Sub
from oracle import Violation

APPENDERS = [{"append_fragment": "F", "append_query": "Q", "append_mutation": "M", "append_subscription": "S"},
             {"append_fragment": "Fragment", "append_query": "_query", "append_input": "In", "append_enum": "En"}, {}]
BASES = ["default", "capitalize", "snake"]


@st.composite
def stacks(draw):
    out = [draw(st.sampled_from(BASES))] if draw(st.integers(0, 4)) else []
    for _ in range(draw(st.integers(0, 2))):
        out.append(draw(st.sampled_from(BASES)))
    if draw(st.booleans()) or not out:
        out.insert(draw(st.integers(0, len(out))), ["appender", draw(st.sampled_from(APPENDERS))])
    return out


def outcome(cls, data, how):
    ve = cm.validation_error()
    try:
        obj = cls.model_validate_json(json.dumps(data)) if how == "json" else cls(**copy.deepcopy(data))
    except ve:
        return ("rejected",), None
    return ("accepted", oracle.dump(obj), oracle.dump(obj, exclude_unset=True)), obj


def compare(what, plain, styled):
    if plain[0] != styled[0]:
        raise Violation("verdict differs", f"{what}: unstyled {cm.short(plain)}, styled {cm.short(styled)}")
    if plain[0] == "accepted":
        for a, b in zip(plain[1:], styled[1:]):
            d = oracle.diff(a, b)
            if d:
                raise Violation("wire differs", f"{what}: {d}")


def names_of(stack):
    return [s if isinstance(s, str) else s[0] for s in stack]


def check_names(mod, case):
    """what the stylers promise about Python names, and that every wire name is still reachable"""
    stack = names_of(case["stylers"])
    for name, cls in cm.models(mod):
        aliases = [f.alias or n for n, f in cls.model_fields.items()]
        if len(set(aliases)) != len(aliases):
            raise Violation("two fields with one wire name", f"{name}: {aliases}")
        for n, f in cls.model_fields.items():
            wire = f.alias or n
            if cm.squash(wire) not in cm.squash(n):
                raise Violation("unrecognisable field name", f"{name}.{n} for {wire}")
            if ("snake" in stack or "default" in stack) and n != n.lower():
                raise Violation("name not snake case", f"{name}.{n}")
    for gname, cls in cm.operations(mod).items():
        text, suffixes = gname, [s[1] for s in case["stylers"] if not isinstance(s, str)]
        if not cm.squash(cls.__name__).startswith(cm.squash(text)):
            raise Violation("unrecognisable class name", f"{cls.__name__} for {gname}")
        if stack and stack[-1] in ("default", "capitalize") and not cls.__name__[0].isupper():
            raise Violation("class name not capitalised", f"{cls.__name__} for {gname}")
    kinds = {o["name"]: o["kind"] for o in case["ops"]}
    if "appender" in stack:
        suffix = {"query": "Query", "mutation": "Mutation", "subscription": "Subscription"}
        for s in case["stylers"]:
            if not isinstance(s, str):
                suffix = {k: s[1].get(f"append_{k}", v) for k, v in suffix.items()}
        for gname, cls in cm.operations(mod).items():
            if not cls.__name__.endswith(suffix[kinds[gname]]):
                raise Violation("suffix not appended", f"{cls.__name__} for {kinds[gname]} {gname}")


def documents(mod):
    out = {}
    for name, cls in cm.operations(mod).items():
        defs = parse(cls.Meta.document).definitions
        out[name] = sorted(print_ast(d) for d in defs)
    return out


def load_pair(case, plugins=("enums", "inputs", "fragments", "operations")):
    a = cm.load({**case, "stylers": []}, list(plugins))
    try:
        return a, cm.load(case, list(plugins))
    except BaseException:
        a.close()
        raise


def run_responses(case):
    labels = set()
    a, b = load_pair(case)
    with a, b:
        if documents(a) != documents(b):
            raise Violation("documents differ", f"{cm.short(str(documents(a)))} / {cm.short(str(documents(b)))}")
        check_names(b, case)
        ops_a, ops_b = cm.operations(a), cm.operations(b)
        fr_a, fr_b = set(cm.fragments(a)), set(cm.fragments(b))
        if fr_a != fr_b:
            raise Violation("fragments differ", f"{fr_a} / {fr_b}")
        renamed = a.source != b.source
        for m in case["mutations"]:
            changed = copy.deepcopy(m["response"])
            c03.put(changed, m["path"], m["new"])
            for data in (m["response"], changed):
                pa, _ = outcome(ops_a[m["op"]], data, case["how"])
                pb, _ = outcome(ops_b[m["op"]], data, case["how"])
                compare(f"{m['op']} {cm.short(data)}", pa, pb)
                labels.add(pa[0])
                if renamed:
                    labels.add("nt")
    return labels


def run_variables(case):
    labels = set()
    schema = build_schema(case["sdl"])
    a, b = load_pair(case)
    with a, b:
        if documents(a) != documents(b):
            raise Violation("documents differ", f"{cm.short(str(documents(a)))} / {cm.short(str(documents(b)))}")
        check_names(b, case)
        ops_a, ops_b = cm.operations(a), cm.operations(b)
        renamed = a.source != b.source
        for op in case["ops"]:
            for values in case["calls"][op["name"]]:
                pa, _ = outcome(ops_a[op["name"]].Arguments, values, case["how"])
                pb, obj = outcome(ops_b[op["name"]].Arguments, values, case["how"])
                compare(f"{op['name']} {cm.short(values)}", pa, pb)
                labels.add(pa[0])
                if renamed and values:
                    labels.add("nt")
    return labels


def response_cases():
    def extra(draw, model, schema, doc):
        return {"how": draw(st.sampled_from(["json", "kwargs"])), "mutations": c03.mutations(draw, model, schema, doc, False, 3)}
    return cm.client_cases(doc_opts=dict(conditions=True), responses=0, extra=extra, stylers=stacks())


def variable_cases():
    def extra(draw, model, schema, case):
        calls = {}
        for op in case["ops"]:
            calls[op["name"]] = []
            for values in vc.assignments(draw, schema, op, model["scalars"], 3):
                calls[op["name"]].append(values)
                for n in list(values)[:1]:
                    t = type_from_ast(schema, parse_type(op["vars"][n]["type"]))
                    c = ig.corrupt(draw, t, values[n], model["scalars"], (n,))
                    if c:
                        calls[op["name"]].append(ig.apply(values, *c))
        return {"calls": calls, "how": draw(st.sampled_from(["json", "kwargs"]))}
    return vc.cases(extra=extra, stylers=stacks())


SUBS = [
    Sub("responses", response_cases, run_responses, quick=500, rule="random schemas, documents and styler stacks of 1-4 stylers; conforming and corrupted responses against the styled and the unstyled module; "
        "non-trivial: styling changed the module"),
    Sub("variables", variable_cases, run_variables, quick=600, rule="the same for variables: valid and corrupted assignments; non-trivial: styling changed the module and a value is given"),
]
ASSUMPTIONS = ["GraphQL names whose styled Python names are distinct (a collision is a known finding)"]
