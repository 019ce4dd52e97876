"""Oracles over executed generated modules."""
import re
import typing

from graphql import (GraphQLEnumType, GraphQLInterfaceType, GraphQLList, GraphQLNonNull, GraphQLObjectType,
                     GraphQLScalarType, GraphQLUnionType)


class Violation(Exception):
    def __init__(self, kind, message):
        self.kind = kind
        super().__init__(message)


def dump(model, **kw):
    kw.setdefault("by_alias", True)
    kw.setdefault("mode", "json")
    import warnings
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        return model.model_dump(**kw)


def fields_by_alias(cls):
    return {(f.alias or name): (name, f) for name, f in cls.model_fields.items()}


def diff(a, b, path="$"):
    """first difference between two JSON-ish values, or None.  1 == 1.0, but True != 1."""
    if isinstance(a, bool) != isinstance(b, bool):
        return f"{path}: {a!r} != {b!r}"
    if isinstance(a, dict) and isinstance(b, dict):
        for k in a:
            if k not in b:
                return f"{path}.{k}: missing on the right (left {a[k]!r})"
        for k in b:
            if k not in a:
                return f"{path}.{k}: missing on the left (right {b[k]!r})"
        for k in a:
            d = diff(a[k], b[k], f"{path}.{k}")
            if d:
                return d
        return None
    if isinstance(a, (list, tuple)) and isinstance(b, (list, tuple)):
        if len(a) != len(b):
            return f"{path}: lengths {len(a)} != {len(b)}"
        for i, (x, y) in enumerate(zip(a, b)):
            d = diff(x, y, f"{path}[{i}]")
            if d:
                return d
        return None
    if a != b or (isinstance(a, str) != isinstance(b, str)):
        return f"{path}: {a!r} != {b!r}"
    return None
