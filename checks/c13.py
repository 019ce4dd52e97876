"""C13: only-referenced generation yields exactly the reachable types."""
import ast
import enum

from graphql import GraphQLEnumType, GraphQLInputObjectType, build_schema, parse
from hypothesis import strategies as st
from pydantic import BaseModel

import common as cm
import schemagen as sg
import varcases as vc
from core import Sub
from oracle import Violation


def named_types(schema):
    enums = {n for n, t in schema.type_map.items() if isinstance(t, GraphQLEnumType) and not n.startswith("__")}
    inputs = {n for n, t in schema.type_map.items() if isinstance(t, GraphQLInputObjectType)}
    return enums, inputs


def generated(mod, wanted, base):
    """GraphQL names of `wanted` that the module has a top-level class for"""
    out = set()
    for n in wanted:
        if cm.by_graphql_name(mod, n, base, ("", "In") if base is BaseModel else ("", "En")) is not None:
            out.add(n)
    return out


def definitions(source):
    """top-level definitions by name (a generated module defines each name once)"""
    out = {}
    for node in ast.parse(source).body:
        if isinstance(node, (ast.ClassDef, ast.FunctionDef)):
            out[node.name] = ast.dump(node)
    return out


def run(case):
    labels = set()
    schema = build_schema(case["sdl"])
    document = parse(cm.case_text(case))
    enums, inputs = named_types(schema)
    need_enums, need_inputs = cm.reachable(schema, document)
    both = {}
    for skip in (True, False):
        options = {"skip_unreferenced": skip}
        plugins = [("enums", options), ("inputs", options), "fragments", "operations", ("input_funcs", options)]
        with cm.load(case, plugins) as mod:
            got_enums, got_inputs = generated(mod, enums, enum.Enum), generated(mod, inputs, BaseModel)
            want = (need_enums, need_inputs) if skip else (enums, inputs)
            for what, got, wanted in (("enums", got_enums, want[0]), ("inputs", got_inputs, want[1])):
                if got - wanted:
                    raise Violation("unreferenced type generated", f"skip={skip}: {what} {sorted(got - wanted)}; needed {sorted(wanted)}")
                if wanted - got:
                    raise Violation("needed type missing", f"skip={skip}: {what} {sorted(wanted - got)}; generated {sorted(got)}")
            total = [n for n, c in cm.classes(mod) if "." not in n and issubclass(c, enum.Enum)]
            if len(total) != len(want[0]):
                raise Violation("enum classes", f"skip={skip}: {total} for {sorted(want[0])}")
            both[skip] = definitions(mod.source)
            for op in case["ops"]:
                cm.operation(mod, op["name"])
    for name, text in both[True].items():
        if name not in both[False]:
            raise Violation("modes differ", f"{name} only exists when unreferenced types are skipped")
        if both[False][name] != text:
            raise Violation("modes differ", f"definition of {name}")
    if need_inputs and need_inputs != inputs:
        labels.add("nt")
    if need_enums and need_enums != enums:
        labels.add("nt")
    if need_enums == enums and need_inputs == inputs:
        labels.add("everything needed")
    return labels


def no_documents(case):
    """without documents nothing is known to be unreferenced: everything is generated"""
    schema = build_schema(case["sdl"])
    enums, inputs = named_types(schema)
    import sut
    with sut.load(case["sdl"], None, cm.config_of(case), [("enums", {"skip_unreferenced": case["skip"]}), ("inputs", {"skip_unreferenced": case["skip"]})], cm.stylers_of(case)) as mod:
        got = generated(mod, enums, enum.Enum), generated(mod, inputs, BaseModel)
    if got != (enums, inputs):
        raise Violation("type missing", f"{sorted(enums - got[0])} {sorted(inputs - got[1])}")
    return {"nt"} if enums and inputs else set()


def documents():
    return cm.client_cases(schema_opts=dict(enums=(2, 5), inputs=(1, 4), objects=(2, 5), interfaces=(0, 2), unions=(0, 2)), doc_opts=dict(ops=(1, 2)), responses=0)


def variables():
    return vc.cases({"enums": (2, 5), "inputs": (3, 7), "max_fields": 4}, ops=(1, 2), n=(1, 2))


@st.composite
def paths(draw):
    """many enums, each selected only at the end of one path through objects, lists, aliases, unions, interfaces and fragments"""
    n = draw(st.integers(2, 5))
    wraps = ["%s", "%s!", "[%s!]!", "[%s]"]
    sdl = [f"enum E{i} {{ A{i} B{i} }}" for i in range(n)]
    sdl.append("interface Node { id: ID }")
    for i in range(n):
        fields = ["id: ID", f"own{i}(by: ID, mode: M{i}): " + draw(st.sampled_from(wraps)) % f"E{i}"]
        fields += [f"to{j}: " + draw(st.sampled_from(wraps)) % f"T{j}" for j in range(n)]
        fields += ["any: " + draw(st.sampled_from(wraps)) % "U", "node: " + draw(st.sampled_from(wraps)) % "Node"]
        sdl += [f"type T{i} implements Node {{ {' '.join(fields)} }}", f"enum M{i} {{ X Y }}"]
    sdl.append("union U = " + " | ".join(f"T{i}" for i in range(n)))
    sdl.append("type Query { " + " ".join(f"t{i}: T{i}" for i in range(n)) + " u: U node: Node }")
    frags, keys = [], iter(range(10 ** 6))

    def alias(text):
        return f"k{next(keys)}: {text}" if draw(st.integers(0, 2)) == 0 else text

    def leaf(i):
        arg = draw(st.sampled_from(["", "", '(by: "1")', "(mode: X)"]))
        return alias(f"own{i}{arg}") if draw(st.integers(0, 3)) else "id"

    def member(depth):
        """something selected on a member of the union or interface"""
        out = []
        for i in draw(st.permutations(range(n)))[:draw(st.integers(1, 2))]:
            if draw(st.integers(0, 2)) == 0:
                name = f"F{len(frags)}"
                frags.append(None)
                at = len(frags) - 1
                frags[at] = f"fragment {name} on T{i} {{ k{next(keys)}: id {obj(i, depth)} }}"
                out.append(f"... {name}")
            else:
                out.append(f"... on T{i} {{ k{next(keys)}: id {obj(i, depth)} }}")
        return " ".join(out)

    def obj(i, depth):
        step = draw(st.integers(0, 4)) if depth > 0 else 0
        if step == 0:
            return leaf(i)
        if step == 1:
            j = draw(st.integers(0, n - 1))
            return f"k{next(keys)}: to{j} {{ {obj(j, depth - 1)} }}" if draw(st.booleans()) else f"to{j} {{ {obj(j, depth - 1)} }}"
        if step == 2:
            name = f"F{len(frags)}"
            frags.append(None)
            at = len(frags) - 1
            frags[at] = f"fragment {name} on T{i} {{ k{next(keys)}: id {obj(i, depth - 1)} }}"
            return f"...{name}"
        return f"k{next(keys)}: {'any' if step == 3 else 'node'} {{ {'id ' if step == 4 else ''}{member(depth - 1)} }}"

    tops = []
    for k in range(draw(st.integers(1, 2))):
        depth = draw(st.integers(0, 4))
        kind = draw(st.sampled_from(["t", "t", "u", "node"]))
        if kind == "t":
            i = draw(st.integers(0, n - 1))
            tops.append(f"q{k}: t{i} {{ {obj(i, depth)} }}")
        else:
            tops.append(f"q{k}: {kind} {{ {'id ' if kind == 'node' else ''}{member(depth)} }}")
    var = draw(st.sampled_from(["", "", f"($m: M{n - 1})"]))
    if var:
        tops.append(f"v: t{n - 1} {{ own{n - 1}(mode: $m) }}")
    text = f"query Get{var} {{ {' '.join(tops)} }}\n" + "\n".join(frags)
    from hypothesis import assume
    from graphql import validate
    assume(not validate(build_schema("\n".join(sdl)), parse(text)))
    return {"sdl": "\n".join(sdl), "files": {"a.graphql": text}, "scalars": {}, "ops": [{"name": "Get", "kind": "query", "vars": {}}], "stylers": draw(cm.styler_stacks)}


@st.composite
def bare(draw):
    model = draw(sg.schema_models(dict(enums=(1, 4), inputs=(1, 5), objects=(1, 2))))
    return {"sdl": sg.print_schema(model), "scalars": model["scalars"], "stylers": draw(cm.styler_stacks), "skip": draw(st.booleans())}


SUBS = [
    Sub("documents", documents, run, quick=600, rule="random schemas and documents (fragments, inline fragments, nested selections, variables); non-trivial: some, but not all enums or inputs are reachable"),
    Sub("variables", variables, run, quick=600, rule="inputs referring to inputs and enums, recursively, from variables of operations; non-trivial as above"),
    Sub("paths", paths, run, quick=500, rule="many enums, each reachable only along one path (objects, lists, aliases, unions, interfaces, fragments, nested below each other); non-trivial as above"),
    Sub("no-documents", bare, no_documents, quick=120, rule="schemas without documents; non-trivial: enums and inputs exist"),
]
