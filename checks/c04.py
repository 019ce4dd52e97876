"""C04: the document a client sends is valid, complete and means what was written."""
from graphql import GraphQLInterfaceType, GraphQLObjectType, GraphQLUnionType, build_schema, get_named_type, parse, print_ast, validate
from graphql.language import ast as gast
from hypothesis import strategies as st

import common as cm
import docgen as dg
from core import Sub
from oracle import Violation

COMPOSITE = (GraphQLObjectType, GraphQLInterfaceType, GraphQLUnionType)


def plain_typename(s):
    return isinstance(s, gast.FieldNode) and s.name.value == "__typename" and not s.alias and not s.directives


def selections(ss, root=False):
    """canonical form; plain __typename selections below the root do not count"""
    out = []
    for s in ss.selections if ss else ():
        if plain_typename(s) and not root:
            continue
        head = (type(s).__name__, s.alias.value if isinstance(s, gast.FieldNode) and s.alias else None,
                s.name.value if not isinstance(s, gast.InlineFragmentNode) else None,
                s.type_condition.name.value if isinstance(s, gast.InlineFragmentNode) and s.type_condition else None,
                tuple(print_ast(a) for a in getattr(s, "arguments", ())), tuple(print_ast(d) for d in s.directives))
        out.append((head, selections(getattr(s, "selection_set", None))))
    return tuple(out)


def canonical(d):
    if isinstance(d, gast.OperationDefinitionNode):
        return (d.operation.value, d.name.value, tuple(print_ast(v) for v in d.variable_definitions),
                tuple(print_ast(x) for x in d.directives), selections(d.selection_set, root=True))
    return ("fragment", d.name.value, d.type_condition.name.value, tuple(print_ast(x) for x in d.directives), selections(d.selection_set))


def spreads(node):
    out = []
    for s in node.selection_set.selections if node.selection_set else ():
        if isinstance(s, gast.FragmentSpreadNode):
            out.append(s.name.value)
        elif getattr(s, "selection_set", None):
            out += spreads(s)
    return out


def closure(start, frags):
    seen, todo = set(), list(start)
    while todo:
        n = todo.pop()
        if n not in seen:
            seen.add(n)
            todo += spreads(frags[n])
    return seen


def check_typenames(schema, text, name):
    """wherever an object is selected below the root, the server returns its __typename"""
    ref = dg.RefDoc(schema, text)

    def walk(t, nodes, path):
        t = get_named_type(t)
        if not isinstance(t, COMPOSITE):
            return
        for obj in ([t] if isinstance(t, GraphQLObjectType) else schema.get_possible_types(t)):
            fields = ref.collect(obj, [n.selection_set for n in nodes])
            if "__typename" not in fields or fields["__typename"][0].name.value != "__typename":
                raise Violation("typename not selected", f"{name}: nothing selects __typename at {path} for {obj.name}")
            for key, ns in fields.items():
                if ns[0].name.value != "__typename":
                    walk(obj.fields[ns[0].name.value].type, ns, path + [key])
    if name in ref.ops:
        op = ref.ops[name]
        root = ref.root(op)
        for key, ns in ref.collect(root, [op.selection_set]).items():
            if ns[0].name.value != "__typename":
                walk(root.fields[ns[0].name.value].type, ns, [key])
    else:
        f = ref.frags[name]
        t = schema.type_map[f.type_condition.name.value]
        walk(t, [f], [name])


def run(case):
    labels = set()
    schema = build_schema(case["sdl"])
    written = parse(cm.case_text(case))
    frags = {d.name.value: d for d in written.definitions if isinstance(d, gast.FragmentDefinitionNode)}
    ops = {d.name.value: d for d in written.definitions if isinstance(d, gast.OperationDefinitionNode)}
    seen = set()
    with cm.load(case) as mod:
        for cls_name, cls, meta in cm.meta_documents(mod):
            text = meta.document
            try:
                document = parse(text)
            except Exception as e:
                raise Violation("document does not parse", f"{cls_name}: {e}\n{text}")
            theirs = [d.name.value for d in document.definitions]
            if len(set(theirs)) != len(theirs):
                raise Violation("definition repeated", f"{cls_name}: {theirs}")
            own_ops = [d for d in document.definitions if isinstance(d, gast.OperationDefinitionNode)]
            if own_ops:
                if len(own_ops) != 1:
                    raise Violation("wrong definitions", f"{cls_name}: {theirs}")
                name = own_ops[0].name.value
                original = ops.get(name)
                if original is None:
                    raise Violation("unknown operation", name)
                want = closure(spreads(original), frags) | {name}
                errors = validate(schema, document)
                if errors:
                    raise Violation("invalid document", f"{cls_name}: {errors[0].message}\n{text}")
            else:
                name = getattr(meta, "name", None)
                if name not in frags:
                    raise Violation("unknown fragment", f"{cls_name} is {name!r}")
                want = closure([name], frags)
                labels.add("fragment document")
            seen.add(name)
            if set(theirs) != want:
                raise Violation("wrong definitions", f"{cls_name}: carries {sorted(theirs)}, needs {sorted(want)}")
            if len(theirs) > 1:
                labels.add("nt")
            if len(theirs) > 2:
                labels.add("several fragments")
            for d in document.definitions:
                o = frags.get(d.name.value) or ops[d.name.value]
                if canonical(d) != canonical(o):
                    raise Violation("document changed", f"{cls_name}: written {print_ast(o)}\nsent {print_ast(d)}")
            check_typenames(schema, text, name)
        missing = set(ops) - seen
        if missing:
            raise Violation("no document", str(missing))
    if "{ ..." in cm.case_text(case) or '"' in cm.case_text(case):
        labels.add("strings")
    return labels


def extra(draw, model, schema, doc):
    return {"config": {"create_catchall": draw(st.booleans()), "exclude_typenames": draw(st.booleans())}}


def strategy():
    return cm.client_cases(doc_opts=dict(conditions=True), responses=0, extra=extra)


def strategy_fragments():
    return cm.client_cases(schema_opts=dict(objects=(2, 4), inputs=(0, 2)), doc_opts=dict(frags=(3, 6), ops=(1, 3), depth=3), responses=0, extra=extra)


@st.composite
def webs(draw):
    """fragments spreading each other in a DAG of up to eight definitions, at different nestings, under shuffled names"""
    n = draw(st.integers(3, 8))
    names = draw(st.permutations(["Alpha", "beta", "Gamma_1", "delta", "Zeta", "eta", "Theta2", "FRAG", "A", "z"]))[:n]
    members = ["User", "Team"]
    texts, on = [], []
    for i in range(n):
        on.append(draw(st.sampled_from(members + ["Actor"])) if draw(st.integers(0, 3)) == 0 else "User")

    def use(owner_type, targets, key):
        """text that spreads the targets somewhere below a selection on owner_type"""
        parts = []
        for j in targets:
            t = on[j]
            inner = f"...{names[j]}"
            if t == "Actor":
                parts.append(f"{key}{j}: actor {{ {inner} }}" if draw(st.booleans()) else f"{key}{j}: user {{ x: actor {{ {inner} }} }}")
            elif t == owner_type and draw(st.booleans()):
                parts.append(inner)
            else:
                form = draw(st.integers(0, 3))
                field = "user" if t == "User" else "team"
                if form == 0:
                    parts.append(f"{key}{j}: {field} {{ {inner} }}")
                elif form == 1:
                    parts.append(f"{key}{j}: {field}s {{ y: {field} {{ {inner} }} }}")
                elif form == 2:
                    parts.append(f"{key}{j}: actor {{ ... on {t} {{ {inner} }} }}")
                else:
                    parts.append(f"{key}{j}: actor {{ ... on {t} {{ w: {field} {{ {inner} }} }} }}")
        return " ".join(parts)

    for i in range(n):
        later = [j for j in range(i + 1, n) if draw(st.integers(0, 2)) == 0]
        if i + 1 < n and not later and draw(st.booleans()):
            later = [i + 1]
        later = draw(st.permutations(later))
        if on[i] == "Actor":
            body = f"... on User {{ k{i}: id {use('User', later, f'k{i}_')} }}"
        else:
            body = f"k{i}: id {use(on[i], later, f'k{i}_')}"
        texts.append(f"fragment {names[i]} on {on[i]} {{ {body} }}")
    ops, reached = [], set()
    for k in range(draw(st.integers(1, 2))):
        roots = [i for i in range(n) if draw(st.integers(0, 2)) == 0] or [0]
        for i in range(n):
            if i in roots:
                reached.add(i)
            elif k == 0 and i not in reached and not any(f"...{names[i]} " in texts[j] for j in reached):
                roots.append(i)      # every fragment has to be used
            if i in roots or any(f"...{names[i]} " in texts[j] for j in reached):
                reached.add(i)
        roots = draw(st.permutations(roots))
        together = [names[i] for i in roots if on[i] == "User"]
        body = " ".join(f"r{i}: {'actor' if on[i] == 'Actor' else on[i].lower()} {{ ...{names[i]} }}" for i in roots)
        if len(together) > 1 and draw(st.booleans()):
            body += f" all: user {{ id ...{' ...'.join(together)} }}"
        ops.append({"name": f"Get{k}", "kind": "query", "vars": {}, "text": f"query Get{k} {{ {body} }}"})
    plain = [i for i in range(n) if on[i] == "User"]
    if len(plain) > 1 and draw(st.booleans()):       # the same fragments in opposite orders
        a, b = draw(st.permutations(plain))[:2]
        texts += [f"fragment Twist on User {{ tw: id ...{names[a]} ...{names[b]} }}", f"fragment {draw(st.sampled_from(['aturn', 'Xturn']))} on User {{ tu: id ...{names[b]} ...{names[a]} }}"]
        ops.append({"name": "Both", "kind": "query", "vars": {}, "text": f"query Both {{ user {{ both: id ...Twist ...{texts[-1].split()[1]} }} }}"})
    sdl = ("type User { id: ID! user: User users: [User!]! team: Team teams: [Team!] actor: Actor }\n"
           "type Team { id: ID! user: User users: [User!]! team: Team teams: [Team!] actor: Actor }\n"
           "union Actor = User | Team\ntype Query { user: User team: Team actor: Actor }")
    every = draw(st.permutations([o.pop("text") for o in ops] + texts))
    cut = draw(st.integers(0, len(every)))
    files = {"a.graphql": "\n\n".join(every[:cut]) or "# nothing", "b.graphql": "\n\n".join(every[cut:]) or "# nothing"}
    return {"sdl": sdl, "files": files, "scalars": {}, "ops": ops, "stylers": draw(cm.styler_stacks)}


SUBS = [
    Sub("documents", strategy, run, quick=700, rule="random schema and documents (string, list and object arguments, directives, aliases, variables); "
        "non-trivial: a document that carries at least one fragment"),
    Sub("fragments", strategy_fragments, run, quick=500, rule="the same with many fragments spreading each other"),
    Sub("webs", webs, run, quick=400, rule="up to eight fragments that spread each other in a DAG from different nestings (fields, lists, unions, inline fragments), with shuffled names and order of definition"),
]
