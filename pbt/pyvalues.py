"""Wire values as the Python objects a caller would pass, and Python dumps as wire-like values."""
import enum

from graphql import GraphQLEnumType, GraphQLInputObjectType, GraphQLList, GraphQLNonNull

import common as cm
import oracle
from inputgen import is_oneof
from oracle import Violation

HOWS = ["kwargs", "json", "names", "instances"]


def build(mod, t, value, how):
    """a Python value for input type t: wire dicts, dicts by Python name, or nested model instances"""
    if value is None:
        return None
    if isinstance(t, GraphQLNonNull):
        t = t.of_type
    if isinstance(t, GraphQLList):
        return [build(mod, t.of_type, v, how) for v in value]
    if isinstance(t, GraphQLEnumType) and how in ("names", "instances"):
        return cm.enum_class(mod, t.name)(value)
    if isinstance(t, GraphQLInputObjectType) and is_oneof(t):
        return oneof(mod, t, value, how)
    if isinstance(t, GraphQLInputObjectType):
        if how == "kwargs":
            return {k: build(mod, t.fields[k].type, v, how) for k, v in value.items()}
        cls = cm.input_class(mod, t.name)
        if cls is None:
            raise Violation("missing input", t.name)
        names = {a: n for a, (n, _) in oracle.fields_by_alias(cls).items()}
        missing = set(t.fields) - set(names)
        if missing:
            raise Violation("missing field", f"{t.name}: no field for {sorted(missing)}, has {sorted(names)}")
        inner = {(names[k] if how == "names" else k): build(mod, t.fields[k].type, v, how) for k, v in value.items()}
        return cls(**inner) if how == "instances" else inner
    return value


def oneof_wrapper(mod, t, name):
    """the class that carries field `name` of a oneOf type, None when members stand for themselves"""
    from pydantic import BaseModel
    return cm.by_graphql_name(mod, t.name + name, BaseModel, ("", "In"))


def oneof(mod, t, value, how):
    (name, payload), = value.items()
    wrapper = oneof_wrapper(mod, t, name)
    ft = t.fields[name].type
    if wrapper is None:
        if not isinstance(ft, GraphQLInputObjectType):
            raise Violation("oneOf field has no class", f"{t.name}.{name}")
        return build(mod, ft, payload, "instances")
    if how == "kwargs":
        return {name: build(mod, ft, payload, how)}
    return wrapper(**{name: build(mod, ft, payload, how)})


def plain(x):
    """python-mode dump: enum members are their wire names"""
    if isinstance(x, enum.Enum):
        return x.value
    if isinstance(x, dict):
        return {k: plain(v) for k, v in x.items()}
    if isinstance(x, (list, tuple)):
        return [plain(v) for v in x]
    return x


def shape(x):
    if isinstance(x, dict):
        return {k: shape(v) for k, v in x.items()}
    if isinstance(x, (list, tuple)):
        return [shape(v) for v in x]
    return None if x is None else 0
