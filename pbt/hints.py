"""What an annotation promises, judged against values and against GraphQL types."""
import collections.abc as abc
import enum
import types
import typing
from typing import Annotated, Any, Literal, Union

from graphql import GraphQLEnumType, GraphQLList, GraphQLNonNull, GraphQLScalarType

LISTS = (list, tuple, abc.Iterable, abc.Sequence, abc.Collection)


def members(hint):
    """the alternatives of an annotation, Annotated and nested unions opened"""
    while typing.get_origin(hint) is Annotated:
        hint = typing.get_args(hint)[0]
    if typing.get_origin(hint) in (Union, types.UnionType):
        return [m for a in typing.get_args(hint) for m in members(a)]
    return [hint]


def optional(hint):
    return any(m is type(None) for m in members(hint))


def conform(value, hint, path="$"):
    """None, or why the value is not what the annotation says"""
    reasons = []
    for m in members(hint):
        r = _one(value, m, path)
        if r is None:
            return None
        reasons.append(r)
    return next((r for r in reasons if r[0] != "shape"), reasons[0])[1]


def _one(value, hint, path):
    origin = typing.get_origin(hint)
    if hint is Any or hint is object:
        return None
    if hint is None or hint is type(None):
        return None if value is None else ("shape", f"{path}: {value!r:.100} is not None")
    if isinstance(hint, (str, typing.ForwardRef)):
        return ("unresolved", f"{path}: annotation {hint!r} is not resolved")
    if isinstance(hint, typing.TypeVar):
        return None
    if origin is Literal:
        return None if any(type(value) is type(a) and value == a for a in typing.get_args(hint)) else ("shape", f"{path}: {value!r} is none of {hint}")
    if origin is tuple:
        args = typing.get_args(hint)
        if not isinstance(value, tuple):
            return ("shape", f"{path}: a {type(value).__name__} is not a {hint}")
        if len(args) != 2 or args[1] is not Ellipsis:
            return ("inner", f"{path}: {hint} promises {len(args)} elements") if len(args) != len(value) else None
        inner = args[0]
    elif origin in LISTS:
        if not isinstance(value, origin) or isinstance(value, str):
            return ("shape", f"{path}: a {type(value).__name__} is not a {hint}")
        inner, = typing.get_args(hint)
    elif origin is not None:
        return None if isinstance(value, origin) else ("shape", f"{path}: a {type(value).__name__} is not a {hint}")
    elif isinstance(hint, type):
        if isinstance(value, hint) and not (isinstance(value, bool) and hint in (int, float)):
            return None
        if hint is float and type(value) is int:
            return None
        return ("shape", f"{path}: {value!r:.100} ({type(value).__name__}) is not a {hint.__name__}")
    else:
        return None  # NewType and the like
    for i, v in enumerate(value):
        r = conform(v, inner, f"{path}[{i}]")
        if r:
            return ("inner", r)
    return None


def mirror(hint, t, scalars, python=None, nullable=None, extra=(), path="$"):
    """None, or how the annotation differs from the GraphQL type: nullable where it is, lists where it has lists,
    a definite leaf. `scalars` maps scalars to Python types, `extra` are alternatives allowed at the outermost level"""
    null = not isinstance(t, GraphQLNonNull) if nullable is None else nullable
    t = t.of_type if isinstance(t, GraphQLNonNull) else t
    alternatives = [m for m in members(hint) if m not in extra]
    have = type(None) in alternatives
    rest = [m for m in alternatives if m is not type(None)]
    if have != null:
        if not (null and Any in rest):
            return f"{path}: {hint} {'may' if have else 'cannot'} be None, the type is {t}{'' if null else '!'}"
    if not rest:
        return f"{path}: {hint} for {t}"
    if isinstance(t, GraphQLList):
        if len(rest) != 1 or typing.get_origin(rest[0]) not in LISTS:
            return f"{path}: {hint} for the list {t}"
        args = typing.get_args(rest[0])
        if typing.get_origin(rest[0]) is tuple and (len(args) != 2 or args[1] is not Ellipsis):
            return f"{path}: {rest[0]} has a fixed length"
        return mirror(args[0], t.of_type, scalars, python, path=path + "[]")
    for m in rest:
        if typing.get_origin(m) in LISTS or m in (list, tuple):
            return f"{path}: {hint} for {t}, which is no list"
        if isinstance(t, GraphQLScalarType):
            allowed = python(t.name)
            if allowed is not None and m not in allowed:
                return f"{path}: {hint} for the scalar {t}"
        elif m is Any or isinstance(m, (str, typing.ForwardRef)):
            return f"{path}: {hint} for {t}"
        elif isinstance(t, GraphQLEnumType):
            if typing.get_origin(m) is Literal:
                if set(typing.get_args(m)) - {str(x) for x in t.values}:
                    return f"{path}: {hint} for the enum {t}"
            elif not (isinstance(m, type) and issubclass(m, enum.Enum) and {x.value for x in m} == set(t.values)):
                return f"{path}: {hint} for the enum {t}"
        elif not isinstance(m, type) or m in (str, int, float, bool, dict):
            return f"{path}: {hint} for {t}"
    return None
