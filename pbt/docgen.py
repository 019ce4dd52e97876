"""Strategies for executable documents over a given graphql-core schema, plus a reference
CollectFields / response generator written from the GraphQL specification."""
import datetime
import json

from graphql import (GraphQLBoolean, GraphQLEnumType, GraphQLInputObjectType, GraphQLInterfaceType, GraphQLList, GraphQLNonNull,
                     GraphQLObjectType, GraphQLScalarType, GraphQLUnionType, get_named_type, parse, print_ast, Undefined)
from graphql.language import ast as gast
from hypothesis import strategies as st

from schemagen import Opts, sdl_string, uniq

OP_NAMES = ["GetStuff", "list_items", "doIt", "Query1", "watchAll", "FETCH", "update_Thing2"]
AWKWARD_OP_NAMES = ["Field", "List", "Optional", "Import"]
AWKWARD_FRAG_NAMES = ["BaseModel", "Any", "not"]
FRAG_NAMES = ["FragOne", "some_frag", "F2", "lowerFrag", "FRAG", "Deep_3_Frag"]
VAR_NAMES = ["a", "filter", "pageSize", "order_by", "ID2", "flag", "input", "x"]
AWKWARD_VAR_NAMES = ["from", "class", "in", "self", "lambda", "None", "variables", "type"]
ALIASES = ["aliased", "myAlias", "other_alias", "A1", "renamed"]

DOC_DEFAULT = Opts(ops=(1, 3), frags=(0, 3), depth=3, vars=True, aliases=True, directives=True, inline=True,
                   width=4, awkward=True, typename=True, repeats=True, mixed=True, awkward_names=True, root_typename=True)


class Sel:
    """A selection set under construction: list of (text) with bookkeeping of used response keys."""
    __slots__ = ("items", "keys", "branches", "inner")

    def __init__(self):
        self.items = []
        self.keys = {}          # response key -> signature; "leaf:..." signatures may repeat
        self.branches = {}      # keys selected in inline fragments
        self.inner = {}         # fields on object types that can be selected again: key -> (text, type, depth, their selection)


class DocGen:
    def __init__(self, draw, schema, model, o):
        self.draw = draw
        self.schema = schema
        self.model = model
        self.o = o
        self.frags = []          # {name, on, text, keys, uses, vars}
        self.cur_vars = None
        self.var_counter = 0
        self.excluded = {}

    # --- input literals / variables
    def value_text(self, type_, depth=0):
        draw = self.draw
        if self.cur_vars is not None and self.o.vars and draw(st.integers(0, 1)) == 0 and depth < 2:
            v = self.variable(type_)
            if v:
                return v
        return self.literal(type_, depth)

    def literal(self, type_, depth=0):
        draw = self.draw
        if isinstance(type_, GraphQLNonNull):
            type_ = type_.of_type
        elif draw(st.integers(0, 6)) == 0 or depth >= 3:
            return "null"
        if isinstance(type_, GraphQLList):
            n = draw(st.integers(0, 2)) if depth < 2 else 0
            return "[" + ", ".join(self.value_text(type_.of_type, depth + 1) for _ in range(n)) + "]"
        if isinstance(type_, GraphQLInputObjectType):
            parts = []
            for name, f in type_.fields.items():
                req = isinstance(f.type, GraphQLNonNull) and f.default_value is Undefined
                if req or (depth < 2 and draw(st.integers(0, 2)) == 0):
                    parts.append(f"{name}: {self.value_text(f.type, depth + 1) if not req or depth < 2 else self.literal(f.type, depth + 1)}")
            return "{" + ", ".join(parts) + "}"
        from schemagen import literal_for
        return literal_for(draw, str(type_) + "!", self.model)

    def variable(self, type_):
        """reuse or create a variable usable at a position of this type"""
        draw = self.draw
        t = str(type_)
        fits = [n for n, v in self.cur_vars.items() if v["type"] == t or v["type"] == t + "!"]
        if fits and draw(st.booleans()):
            return "$" + draw(st.sampled_from(fits))
        if len(self.cur_vars) >= 4:
            return None
        from schemagen import AWKWARD_ARG_NAMES
        pool = [n for n in VAR_NAMES if n not in self.cur_vars]
        if self.o.awkward and draw(st.integers(0, 5)) == 5:
            pool = [n for n in AWKWARD_VAR_NAMES if n not in self.cur_vars] or pool
        if not pool:
            return None
        name = draw(st.sampled_from(pool))
        vt = t
        default = None
        if draw(st.integers(0, 3)) == 0 and not t.endswith("!"):
            vt = t + "!"
        if draw(st.integers(0, 3)) == 0:
            from schemagen import literal_for
            default = literal_for(draw, vt, self.model) if vt in _SIMPLE or self.o.rich_var_defaults is not False else None
            if default == "null" and vt.endswith("!"):
                default = None
        self.cur_vars[name] = {"type": vt, "default": default}
        return "$" + name

    def arguments(self, args):
        parts = []
        for name, a in args.items():
            req = isinstance(a.type, GraphQLNonNull) and a.default_value is Undefined
            if req or self.draw(st.booleans()):
                parts.append(f"{name}: {self.value_text(a.type)}")
        return f"({', '.join(parts)})" if parts else ""

    def directives(self):
        if not self.o.directives or self.draw(st.integers(0, 4 if self.o.conditions else 9)) != 0:
            return ""
        if self.o.conditions and self.draw(st.integers(0, 2)):
            condition = None
            if self.cur_vars is not None and self.kind != "subscription" and self.draw(st.integers(0, 2)):
                condition = self.variable(GraphQLNonNull(GraphQLBoolean))
            name = self.draw(st.sampled_from(["include", "skip"]))
            return f" @{name}(if: {condition or self.draw(st.sampled_from(['true', 'false']))})"
        return self.draw(st.sampled_from([" @include(if: true)", " @skip(if: false)"]))

    # --- selection sets
    def field_text(self, parent_type, fname, sel, depth, avoid=()):
        """appends one field selection; returns False when no compatible response key is available"""
        draw = self.draw
        f = parent_type.fields[fname]
        nt = get_named_type(f.type)
        composite = isinstance(nt, (GraphQLObjectType, GraphQLInterfaceType, GraphQLUnionType))
        if composite and depth <= 0:
            return False
        alias = ""
        key = fname
        if self.o.aliases and draw(st.integers(0, 6)) == 0:
            cand = [a for a in ALIASES if a not in sel.keys and a not in avoid]
            if cand:
                key = draw(st.sampled_from(cand))
                alias = key + ": "
        sig = "other" if composite or f.args else f"leaf:{fname}:{f.type}"
        if key in sel.keys and (sig == "other" or sel.keys[key] != sig):
            return False
        a = self.arguments(f.args)
        d = self.directives()
        sub = ""
        if composite:
            under = Sel()
            inner = self.selection(nt, depth - 1, under)
            sub = " " + inner
            if isinstance(nt, GraphQLObjectType):
                sel.inner[key] = (f"{alias}{fname}{a}{d}", nt, depth - 1, under)
        sel.keys[key] = sig
        sel.items.append(f"{alias}{fname}{a}{d}{sub}")
        return True

    def repeat(self, sel):
        """selects an object again, with another selection"""
        text, type_, depth, under = sel.inner[self.draw(st.sampled_from(sorted(sel.inner)))]
        more = Sel()
        more.keys = under.keys
        sel.items.append(f"{text} {self.selection(type_, depth, more)}")

    def fields_of(self, type_, sel, depth, lo=1):
        draw = self.draw
        names = list(type_.fields)
        n = draw(st.integers(lo, max(lo, min(self.o.width, len(names)))))
        order = draw(st.permutations(names))
        done = 0
        for fname in order:
            if done >= n:
                break
            if self.field_text(type_, fname, sel, depth):
                done += 1
        return done

    def applicable_frags(self, type_):
        res = []
        for fr in self.frags:
            on = self.schema.type_map[fr["on"]]
            yield_it = False
            if on is type_:
                yield_it = True
            elif isinstance(type_, GraphQLObjectType) and isinstance(on, GraphQLInterfaceType):
                yield_it = self.schema.is_sub_type(on, type_)
            elif isinstance(type_, GraphQLInterfaceType) and isinstance(on, GraphQLObjectType):
                yield_it = self.schema.is_sub_type(type_, on)
            elif isinstance(type_, GraphQLInterfaceType) and isinstance(on, GraphQLInterfaceType):
                yield_it = self.schema.is_sub_type(on, type_) or self.schema.is_sub_type(type_, on)
            if yield_it:
                res.append(fr)
        return res

    def overlapping_frags(self, type_):
        """fragments on other abstract types that some member of the abstract type is of"""
        possible = set(self.schema.get_possible_types(type_))
        abstract = [(f, self.schema.type_map[f["on"]]) for f in self.frags]
        return [f for f, on in abstract if on is not type_ and isinstance(on, (GraphQLInterfaceType, GraphQLUnionType))
                and possible & set(self.schema.get_possible_types(on))]

    def can_spread(self, fr, sel):
        return all(fr["keys"][k] == sel.keys[k] != "other" for k in set(fr["keys"]) & set(sel.keys))

    def spread(self, fr, sel):
        sel.items.append(f"...{fr['name']}")
        sel.keys.update(fr["keys"])
        self.cur_uses.add(fr["name"])

    def render(self, items):
        items = list(self.draw(st.permutations(items))) if len(items) > 1 and self.draw(st.booleans()) else items
        return "{ " + " ".join(items) + " }"

    def selection(self, type_, depth, sel=None, top_fragment=False):
        draw = self.draw
        sel = sel or Sel()
        if isinstance(type_, GraphQLObjectType):
            frs = [f for f in self.applicable_frags(type_) if self.can_spread(f, sel)]
            if frs and draw(st.integers(0, 1)) == 0:
                self.spread(draw(st.sampled_from(frs)), sel)
                if draw(st.booleans()):
                    frs = [f for f in frs if self.can_spread(f, sel)]
                    if frs and draw(st.integers(0, 2)) == 0:
                        self.spread(draw(st.sampled_from(frs)), sel)
                    self.fields_of(type_, sel, depth, lo=0)
            else:
                if not self.fields_of(type_, sel, depth):
                    sel.items.append("__typename")
        elif isinstance(type_, GraphQLInterfaceType):
            self.interface_selection(type_, depth, sel, top_fragment)
        else:
            self.union_selection(type_, depth, sel, top_fragment)
        if self.o.repeats and sel.inner and draw(st.integers(0, 3)) == 0:
            self.repeat(sel)
        if self.o.typename and draw(st.integers(0, 7)) == 0 and "__typename" not in sel.items:
            sel.items.append("__typename")
        if not sel.items:
            sel.items.append("__typename")
        text = self.render(sel.items)
        return text

    def interface_selection(self, type_, depth, sel, top_fragment):
        draw = self.draw
        if draw(st.integers(0, 4)) != 0:
            self.fields_of(type_, sel, depth)
        frs = [f for f in self.applicable_frags(type_) if self.can_spread(f, sel)]
        if self.o.mixed:
            frs += [f for f in self.overlapping_frags(type_) if f not in frs and self.can_spread(f, sel)]
        while frs and draw(st.booleans()):
            fr = draw(st.sampled_from(frs))
            self.spread(fr, sel)
            frs = [f for f in frs if f is not fr and self.can_spread(f, sel)]
        impls = [t for t in self.schema.get_possible_types(type_)]
        if self.o.inline and impls and draw(st.booleans()):
            chosen = draw(st.permutations(impls))[:draw(st.integers(1, min(3, len(impls))))]
            if draw(st.integers(0, 3)) == 0:
                chosen.append(draw(st.sampled_from(chosen)))
            branch_keys = {}
            for t in chosen:
                self.inline(t, depth, sel, branch_keys)
        if not sel.items:
            if not self.fields_of(type_, sel, depth):
                sel.items.append("__typename")

    def inline(self, t, depth, sel, branch_keys):
        """inline fragment on object type t; response keys must not clash with the shared ones nor
        (with another shape) with those of sibling branches"""
        draw = self.draw
        inner = Sel()
        inner.keys = dict(sel.keys)
        new_keys = {}

        def clash(k, sig, type_):
            return k in branch_keys and (sig == "other" or branch_keys[k] != str(type_))

        if draw(st.integers(0, 3)) == 0:
            frs = [f for f in self.applicable_frags(t) if self.can_spread(f, inner)
                   and not (set(f["keys"]) & set(branch_keys))]
            if frs:
                fr = draw(st.sampled_from(frs))
                self.spread(fr, inner)
                new_keys.update({k: "spread" for k in fr["keys"] if k not in sel.keys})
        names = list(t.fields)
        n = draw(st.integers(0 if inner.items else 1, min(3, len(names))))
        done = 0
        for fname in draw(st.permutations(names)):
            if done >= n:
                break
            f = t.fields[fname]
            leaf = isinstance(get_named_type(f.type), (GraphQLScalarType, GraphQLEnumType))
            if clash(fname, "leaf" if leaf else "other", f.type):
                self.count("repeated response key in sibling inline fragments")
                continue
            before = set(inner.keys)
            if self.field_text(t, fname, inner, depth, avoid=set(branch_keys)):
                for k in inner.keys:
                    if k not in before:
                        new_keys[k] = str(f.type) if leaf else "other"
                done += 1
        branch_keys.update(new_keys)
        sel.branches.update({k: inner.keys[k] for k in new_keys})
        sel.items.append(f"... on {t.name} " + self.render(inner.items or ["__typename"]))

    def count(self, why):
        self.excluded[why] = self.excluded.get(why, 0) + 1

    def union_selection(self, type_, depth, sel, top_fragment):
        draw = self.draw
        frs = [f for f in self.applicable_frags(type_)]
        members = list(type_.types)
        if frs and draw(st.integers(0, 2)) == 0:
            self.spread(draw(st.sampled_from(frs)), sel)
            if not self.o.mixed or draw(st.booleans()):
                return
        k = draw(st.integers(1, len(members)))
        branch_keys = {k: "spread" for k in sel.keys}
        chosen = draw(st.permutations(members))[:k]
        if self.o.mixed:
            frs = self.overlapping_frags(type_)
            if frs and draw(st.integers(0, 2)) == 0:
                fr = draw(st.sampled_from(frs))
                if fr["name"] not in [i[3:] for i in sel.items] and not (set(fr["keys"]) & set(branch_keys)):
                    self.spread(fr, sel)
                    branch_keys.update({k: "spread" for k in fr["keys"]})
            if draw(st.integers(0, 2)) == 0:
                chosen.append(draw(st.sampled_from(chosen)))
        for t in chosen:
            own = [f for f in self.frags if f["on"] == t.name and not (set(f["keys"]) & set(branch_keys))]
            if own and draw(st.integers(0, 2)) == 0:
                fr = draw(st.sampled_from(own))
                sel.items.append(f"...{fr['name']}")
                self.cur_uses.add(fr["name"])
                sel.branches.update(fr["keys"])
                branch_keys.update({k: "spread" for k in fr["keys"]})
            else:
                self.inline(t, depth, sel, branch_keys)

    # --- document
    def fragment(self, name):
        draw = self.draw
        cands = [t for t in self.schema.type_map.values()
                 if isinstance(t, (GraphQLObjectType, GraphQLInterfaceType, GraphQLUnionType)) and not t.name.startswith("__")
                 and t not in (self.schema.query_type, self.schema.mutation_type, self.schema.subscription_type)
                 and (not isinstance(t, GraphQLInterfaceType) or self.schema.get_possible_types(t))]
        if not cands:
            return
        on = draw(st.sampled_from(cands))
        self.cur_vars = None
        self.cur_uses = set()
        sel = Sel()
        text = self.selection(on, draw(st.integers(0, 2)), sel, top_fragment=True)
        self.frags.append({"name": name, "on": on.name, "keys": {**sel.branches, **sel.keys}, "uses": set(self.cur_uses),
                           "text": f"fragment {name} on {on.name} {text}"})

    def operation(self, kind, name):
        draw = self.draw
        root = {"query": self.schema.query_type, "mutation": self.schema.mutation_type,
                "subscription": self.schema.subscription_type}[kind]
        self.cur_vars = {}
        self.cur_uses = set()
        self.kind = kind  # graphql-core cannot validate variable conditions on subscription fields
        sel = Sel()
        n = 1 if kind == "subscription" else draw(st.integers(1, 3))
        order = draw(st.permutations(list(root.fields)))
        depth = draw(st.integers(1, self.o.depth))
        for fname in order[:n]:
            self.field_text(root, fname, sel, depth)
        if kind != "subscription" and draw(st.integers(0, 9)) == 0 and self.o.root_typename:
            sel.items.insert(draw(st.integers(0, len(sel.items))), "__typename")
        vs = ""
        if self.cur_vars:
            vs = "(" + ", ".join(f"${k}: {v['type']}" + (f" = {v['default']}" if v["default"] is not None else "")
                                 for k, v in self.cur_vars.items()) + ")"
        return {"name": name, "kind": kind, "vars": self.cur_vars, "uses": set(self.cur_uses),
                "text": f"{kind} {name}{vs} " + self.render(sel.items)}


_SIMPLE = {"Int", "String", "Boolean", "Float", "ID", "Int!", "String!", "Boolean!", "Float!", "ID!"}


@st.composite
def documents(draw, schema, model, opts=None, **kw):
    """returns {"files": {name: text}, "ops": [...], "frags": [...]}"""
    o = Opts(DOC_DEFAULT)
    o.update(opts or {})
    o.update(kw)
    g = DocGen(draw, schema, model, o)
    for name in uniq(draw, FRAG_NAMES, *o.frags, awkward=AWKWARD_FRAG_NAMES if o.awkward_names else (), weight=11):
        g.fragment(name)
    kinds = ["query"] + (["mutation"] if schema.mutation_type else []) + (["subscription"] if schema.subscription_type else [])
    ops = []
    for name in uniq(draw, OP_NAMES, max(1, o.ops[0]), o.ops[1], awkward=AWKWARD_OP_NAMES if o.awkward_names else (), weight=11):
        ops.append(g.operation(draw(st.sampled_from(kinds)), name))
    # fragments that nothing spreads are allowed by turms' default rules? they are not: keep used ones
    used = set()
    todo = [u for op in ops for u in op["uses"]]
    byname = {f["name"]: f for f in g.frags}
    while todo:
        n = todo.pop()
        if n not in used:
            used.add(n)
            todo += list(byname[n]["uses"])
    frags = [f for f in g.frags if f["name"] in used or o.keep_unused_fragments]
    defs = [f["text"] for f in frags] + [op["text"] for op in ops]
    if o.shuffle is not False:
        defs = draw(st.permutations(defs))
    nfiles = draw(st.integers(1, 3)) if o.split is not False else 1
    files = {}
    for i, d in enumerate(defs):
        files.setdefault(f"f{i % nfiles}.graphql", []).append(d)
    return {"files": {k: "\n\n".join(v) + "\n" for k, v in files.items()},
            "ops": [{"name": x["name"], "kind": x["kind"], "vars": x["vars"], "uses": sorted(x["uses"])} for x in ops],
            "frags": [{"name": f["name"], "on": f["on"], "uses": sorted(f["uses"])} for f in frags],
            "excluded": g.excluded}


# ------------------------------------------------------------------ reference execution

def doc_text(doc):
    return "\n\n".join(doc["files"][k] for k in sorted(doc["files"]))


class RefDoc:
    def __init__(self, schema, text):
        self.schema = schema
        self.ast = parse(text)
        self.ops = {d.name.value: d for d in self.ast.definitions if isinstance(d, gast.OperationDefinitionNode)}
        self.frags = {d.name.value: d for d in self.ast.definitions if isinstance(d, gast.FragmentDefinitionNode)}

    def root(self, op):
        return {"query": self.schema.query_type, "mutation": self.schema.mutation_type,
                "subscription": self.schema.subscription_type}[op.operation.value]

    def applies(self, cond, obj):
        t = self.schema.type_map[cond]
        if t is obj:
            return True
        if isinstance(t, (GraphQLInterfaceType, GraphQLUnionType)):
            return self.schema.is_sub_type(t, obj)
        return False

    def collect(self, obj, selsets, out=None):
        """CollectFields (all conditions true): response key -> list of field nodes"""
        out = {} if out is None else out
        for ss in selsets:
            for s in ss.selections:
                if isinstance(s, gast.FieldNode):
                    out.setdefault(s.alias.value if s.alias else s.name.value, []).append(s)
                elif isinstance(s, gast.InlineFragmentNode):
                    if s.type_condition is None or self.applies(s.type_condition.name.value, obj):
                        self.collect(obj, [s.selection_set], out)
                else:
                    f = self.frags[s.name.value]
                    if self.applies(f.type_condition.name.value, obj):
                        self.collect(obj, [f.selection_set], out)
        return out


# wire (JSON) values of scalars ------------------------------------------------
def wire_scalar(py):
    if py.startswith("basescalars.") or py == "datetime.time":
        import basescalars
        return st.sampled_from(basescalars.TYPES[py][0])
    return {
        "str": st.sampled_from(["", "s", "ünï ✓", "with \"quotes\"", "line\nbreak", "123"]),
        "int": st.integers(-2**31, 2**31 - 1),
        "float": st.sampled_from([0.0, 1.5, -2.25, 1e10, 3.0, 0.1]),
        "bool": st.booleans(),
        "typing.Any": st.sampled_from([None, 1, "x", [1, "a", None], {"k": {"n": 1}}, True, 1.5]).filter(lambda x: x is not None),
        "dict": st.sampled_from([{}, {"a": 1}, {"k": {"n": [1, None]}}]),
        "typing.Dict": st.sampled_from([{}, {"a": 1}, {"k": {"n": [1, None]}}]),
        "datetime.datetime": st.sampled_from(["2020-01-02T03:04:05", "1999-12-31T23:59:59Z", "2024-02-29T00:00:00.123000"]),
        "datetime.date": st.sampled_from(["2020-01-02", "1999-12-31"]),
        "uuid.UUID": st.sampled_from(["12345678-1234-5678-1234-567812345678", "00000000-0000-0000-0000-000000000000"]),
        "decimal.Decimal": st.sampled_from(["1.50", "0", "-12.345"]),
        "pathlib.Path": st.sampled_from(["/a/b", "x.txt", "rel/p"]),
    }[py]


BUILTIN_PY = {"Int": "int", "Float": "float", "String": "str", "Boolean": "bool", "ID": "str"}


LEFT_OUT = "\0left out"


def conditions(node):
    """what @skip and @include of a field ask for: [(value it takes to keep the field, constant or variable)]"""
    return [(d.name.value == "include", d.arguments[0].value) for d in node.directives or () if d.name.value in ("skip", "include")]


def conditional(node):
    return any(not isinstance(v, gast.BooleanValueNode) or v.value != wanted for wanted, v in conditions(node))


def strip(response):
    """the response without the marks of fields that were left out"""
    if isinstance(response, dict):
        return {k: strip(v) for k, v in response.items() if v != LEFT_OUT}
    if isinstance(response, list):
        return [strip(v) for v in response]
    return response


class ResponseGen:
    def __init__(self, draw, ref, scalars, null_rate=4, typename=True, list_max=3, mark=False):
        self.mark, self.given = mark, {}
        self.draw, self.ref, self.scalars = draw, ref, scalars
        self.null_rate, self.typename, self.list_max = null_rate, typename, list_max

    def leaf(self, t):
        if isinstance(t, GraphQLEnumType):
            return self.draw(st.sampled_from(list(t.values)))
        py = self.scalars.get(t.name) or BUILTIN_PY[t.name]
        return self.draw(wire_scalar(py))

    def complete(self, t, nodes, depth):
        draw = self.draw
        if isinstance(t, GraphQLNonNull):
            return self.complete_nn(t.of_type, nodes, depth)
        if draw(st.integers(0, self.null_rate)) == 0:
            return None
        return self.complete_nn(t, nodes, depth)

    def complete_nn(self, t, nodes, depth):
        draw = self.draw
        if isinstance(t, GraphQLList):
            return [self.complete(t.of_type, nodes, depth) for _ in range(draw(st.integers(0, self.list_max)))]
        if isinstance(t, (GraphQLScalarType, GraphQLEnumType)):
            return self.leaf(t)
        if isinstance(t, GraphQLObjectType):
            obj = t
        else:
            obj = draw(st.sampled_from(list(self.ref.schema.get_possible_types(t))))
        return self.object(obj, [n.selection_set for n in nodes], depth + 1)

    def included(self, node):
        for wanted, v in conditions(node):
            if isinstance(v, gast.BooleanValueNode):
                value = v.value
            else:
                if v.name.value not in self.given:
                    self.given[v.name.value] = self.draw(st.booleans())
                value = self.given[v.name.value]
            if value != wanted:
                return False
        return True

    def object(self, obj, selsets, depth):
        out = {}
        for key, nodes in self.ref.collect(obj, selsets).items():
            nodes = [n for n in nodes if self.included(n)]
            if not nodes:
                if self.mark:
                    out[key] = LEFT_OUT
                continue
            if nodes[0].name.value == "__typename":
                out[key] = obj.name
                continue
            out[key] = self.complete(obj.fields[nodes[0].name.value].type, nodes, depth)
        if depth > 0 and self.typename:
            out["__typename"] = obj.name
        return out

    def operation(self, op):
        return self.object(self.ref.root(op), [op.selection_set], 0)


# ------------------------------------------------------------------ typed positions of a response

def collect_typed(ref, obj, selsets, out=None):
    """like RefDoc.collect, with the type each field was lexically selected on: key -> [(node, parent type)]"""
    out = {} if out is None else out
    for ss, parent in selsets:
        for s in ss.selections:
            if isinstance(s, gast.FieldNode):
                out.setdefault(s.alias.value if s.alias else s.name.value, []).append((s, parent))
            elif isinstance(s, gast.InlineFragmentNode):
                if s.type_condition is None or ref.applies(s.type_condition.name.value, obj):
                    inner = ref.schema.type_map[s.type_condition.name.value] if s.type_condition else parent
                    collect_typed(ref, obj, [(s.selection_set, inner)], out)
            else:
                f = ref.frags[s.name.value]
                if ref.applies(f.type_condition.name.value, obj):
                    collect_typed(ref, obj, [(f.selection_set, ref.schema.type_map[f.type_condition.name.value])], out)
    return out


def positions(ref, op, response):
    """every position of a response: (path, declared type at the position, value, inside an interface position?,
    is the declared type the same for the object and for the type the field was selected on?)"""
    out = []

    def fields(obj, selsets, value, path, under):
        for key, pairs in collect_typed(ref, obj, selsets).items():
            name = pairs[0][0].name.value
            if name == "__typename":
                continue
            if key not in value:
                continue
            t = obj.fields[name].type
            exact = not any(conditional(n) for n, _ in pairs) and all(str(parent.fields[name].type) == str(t) for _, parent in pairs)
            at(t, [n for n, _ in pairs], value[key], path + [key], under, exact)

    def at(t, nodes, value, path, under, exact):
        out.append((path, t, value, under, exact))
        if value is None:
            return
        if isinstance(t, GraphQLNonNull):
            t = t.of_type
        if isinstance(t, GraphQLList):
            for i, v in enumerate(value):
                at(t.of_type, nodes, v, path + [i], under, exact)
        elif isinstance(t, (GraphQLObjectType, GraphQLInterfaceType, GraphQLUnionType)):
            obj = ref.schema.type_map[value["__typename"]]
            fields(obj, [(n.selection_set, t) for n in nodes], value, path, under or isinstance(t, GraphQLInterfaceType))

    root = ref.root(op)
    fields(root, [(op.selection_set, root)], response, [], False)
    return out


WRONG = {"str": [5, 1.5, True, {"a": 1}, ["a"]], "int": ["abc", 1.5, {"a": 1}, [1], ""], "float": ["abc", {"a": 1}, [1.5]],
         "bool": ["abc", 2, {"a": 1}, [True]], "datetime.datetime": ["no date", {"a": 1}, ["2020-01-02T03:04:05"]],
         "datetime.date": ["no date", {"a": 1}, ["2020-01-02"]], "uuid.UUID": ["zz", 5, {"a": 1}], "decimal.Decimal": ["abc", [1], {}],
         "dict": ["abc", 5, ["a"]], "typing.Any": []}


def wrong_values(t, value, scalars):
    """values (not null) that are certainly not of the nullable type t"""
    if isinstance(t, GraphQLList):
        return [5, "abc", {"a": 1}] + ([value[0]] if value and not isinstance(value[0], (list, type(None))) and not isinstance(get_named_type(t), GraphQLScalarType) else [])
    if isinstance(t, GraphQLEnumType):
        return ["NOT_A_VALUE", 5, {"a": 1}, [value], value + "x", ""]
    if isinstance(t, GraphQLScalarType):
        return WRONG.get(scalars.get(t.name) or BUILTIN_PY[t.name], [])
    return [5, "abc", [], [value]]
