"""Reference input coercion turned around: wire (JSON) values that the GraphQL specification accepts for an
input type, and single-point changes with the verdict the schema implies for a client-side model."""
from graphql import (GraphQLEnumType, GraphQLInputObjectType, GraphQLList, GraphQLNonNull, GraphQLScalarType, Undefined, is_input_object_type)
from hypothesis import strategies as st

from docgen import BUILTIN_PY, WRONG, wire_scalar


def is_oneof(t):
    return bool(t.ast_node and any(d.name.value == "oneOf" for d in t.ast_node.directives or ()))


class InputGen:
    def __init__(self, draw, scalars, null_rate=5, list_max=3, depth=4, omit=2):
        self.draw, self.scalars = draw, scalars
        self.null_rate, self.list_max, self.depth, self.omit = null_rate, list_max, depth, omit

    def value(self, t, depth=0):
        if isinstance(t, GraphQLNonNull):
            return self.nn(t.of_type, depth)
        if depth >= self.depth or self.draw(st.integers(0, self.null_rate)) == 0:
            return None
        return self.nn(t, depth)

    def nn(self, t, depth):
        draw = self.draw
        if isinstance(t, GraphQLList):
            return [self.value(t.of_type, depth + 1) for _ in range(draw(st.integers(0, self.list_max if depth < 3 else 0)))]
        if isinstance(t, GraphQLEnumType):
            return draw(st.sampled_from(list(t.values)))
        if isinstance(t, GraphQLScalarType):
            return draw(wire_scalar(self.scalars.get(t.name) or BUILTIN_PY[t.name]))
        if is_oneof(t):
            # a recursive oneOf must terminate: prefer members that are no oneOf when deep
            names = list(t.fields)
            if depth >= self.depth:
                names = ([n for n in names if not is_input_object_type(t.fields[n].type)]
                         or [n for n in names if not is_oneof(t.fields[n].type)] or names)
            name = draw(st.sampled_from(names))
            return {name: self.nn(t.fields[name].type, depth + 1)}
        out = {}
        for name, f in t.fields.items():
            required = isinstance(f.type, GraphQLNonNull) and f.default_value is Undefined
            if required or (depth < self.depth and draw(st.integers(0, self.omit)) != 0):
                out[name] = self.value(f.type, depth + 1)
        return out

    def variables(self, operation_vars, schema):
        """assignment for an operation: {name: {"type", "default"}} -> provided values"""
        from graphql import parse_type, type_from_ast
        out = {}
        for name, v in operation_vars.items():
            t = type_from_ast(schema, parse_type(v["type"]))
            required = isinstance(t, GraphQLNonNull) and v["default"] is None
            if required or self.draw(st.integers(0, 2)) != 0:
                out[name] = self.value(t)
        return out


def places(t, value, path=(), default=False):
    """(path, type, value, optional on the client?) of every position below a value"""
    out = [(list(path), t, value, default)]
    if value is None:
        return out
    if isinstance(t, GraphQLNonNull):
        t = t.of_type
    if isinstance(t, GraphQLList):
        for i, v in enumerate(value):
            out += places(t.of_type, v, (*path, i))
    elif isinstance(t, GraphQLInputObjectType):
        for k, v in value.items():
            out += places(t.fields[k].type, v, (*path, k), t.fields[k].default_value is not Undefined)
    return out


def corrupt(draw, t, value, scalars, path=()):
    """one change to a valid value that the schema forbids: (path, [new value] or ["delete"]), or None.
    Null at (or omission of) a non-null field that has a default is not one: the client treats it as optional."""
    options = []
    for where, pt, v, default in places(t, value, tuple(path)):
        nonnull = isinstance(pt, GraphQLNonNull)
        inner = pt.of_type if nonnull else pt
        anything = isinstance(inner, GraphQLScalarType) and scalars.get(inner.name) == "typing.Any"
        if nonnull and not default and not anything:
            options.append((where, [None]))
            if where and isinstance(where[-1], str):
                options.append((where, ["delete"]))
        if v is None:
            continue
        if isinstance(inner, GraphQLList):
            options.append((where, [5]))
            options.append((where, [{"a": 1}]))
        elif isinstance(inner, GraphQLEnumType):
            options.append((where, ["NOT_A_VALUE"]))
            options.append((where, [[v]]))
        elif isinstance(inner, GraphQLScalarType):
            for w in WRONG.get(scalars.get(inner.name) or BUILTIN_PY[inner.name], [])[:3]:
                options.append((where, [w]))
        elif not is_oneof(inner):
            options.append((where, [5]))
            options.append((where, [[v]]))
    return draw(st.sampled_from(options)) if options else None


def apply(value, path, new):
    import copy
    if not path:
        return new[0] if new != ["delete"] else None
    root = copy.deepcopy(value)
    data = root
    for p in path[:-1]:
        data = data[p]
    if new == ["delete"]:
        del data[path[-1]]
    else:
        data[path[-1]] = new[0]
    return root
