"""Python types that configurations map scalars to, with a reference for what they make of wire values."""
import datetime
import decimal
import enum
import json
import pathlib
import uuid
from typing import Annotated

from pydantic import BaseModel, Field, model_validator
from pydantic_core import core_schema


class Slug(str):
    """a string in lower case"""
    @classmethod
    def __get_pydantic_core_schema__(cls, source, handler):
        return core_schema.no_info_after_validator_function(lambda s: cls(s.lower()), core_schema.str_schema())


class Celsius:
    """a number with a unit"""
    def __init__(self, degrees):
        self.degrees = degrees

    def __eq__(self, other):
        return type(other) is Celsius and other.degrees == self.degrees

    def __hash__(self):
        return hash(self.degrees)

    def __repr__(self):
        return f"Celsius({self.degrees!r})"

    @classmethod
    def __get_pydantic_core_schema__(cls, source, handler):
        parse = core_schema.no_info_after_validator_function(cls, core_schema.float_schema(strict=True))
        return core_schema.json_or_python_schema(json_schema=parse, python_schema=core_schema.union_schema([core_schema.is_instance_schema(cls), parse]),
                                                 serialization=core_schema.plain_serializer_function_ser_schema(lambda c: c.degrees))


class Point(BaseModel):
    """a structured scalar"""
    x: int
    y: int


class Level(enum.IntEnum):
    LOW = 1
    HIGH = 9


class Tags(tuple):
    """a list written as one string"""
    @classmethod
    def __get_pydantic_core_schema__(cls, source, handler):
        parse = core_schema.no_info_after_validator_function(lambda s: cls(s.split(",")), core_schema.str_schema())
        return core_schema.json_or_python_schema(json_schema=parse, python_schema=core_schema.union_schema([core_schema.is_instance_schema(cls), parse]),
                                                 serialization=core_schema.plain_serializer_function_ser_schema(",".join))


Small = Annotated[int, Field(ge=0, le=99)]


class FromText(BaseModel):
    """inputs that are also taken as JSON text"""
    @model_validator(mode="before")
    @classmethod
    def from_text(cls, value):
        return json.loads(value) if isinstance(value, str) else value


class Text(str):
    pass


def instant(text):
    return datetime.datetime.fromisoformat(text.replace("Z", "+00:00"))


# type -> (wire values, what the type makes of one, values it refuses)
TYPES = {
    "str": (["", "s", "ünï ✓", "12"], str, [5, True, {}]),
    "int": ([0, -7, 2 ** 31 - 1], int, ["abc", 1.5, {}]),
    "float": ([0.0, 1.5, -2.25, 3], float, ["abc", {}]),
    "bool": ([True, False], bool, ["abc", 2, {}]),
    "typing.Any": ([1, "x", [1, "a", None], {"k": {"n": 1}}, True, 1.5], lambda x: x, []),
    "dict": ([{}, {"a": 1}, {"k": {"n": [1, None]}}], lambda x: x, ["abc", 5]),
    "datetime.datetime": (["2020-01-02T03:04:05", "1999-12-31T23:59:59Z", "2024-02-29T00:00:00.123000"], instant, ["no date", {}]),
    "datetime.date": (["2020-01-02", "1999-12-31"], datetime.date.fromisoformat, ["no date", {}]),
    "datetime.time": (["03:04:05", "23:59:59.500000"], datetime.time.fromisoformat, ["no time", {}]),
    "uuid.UUID": (["12345678-1234-5678-1234-567812345678", "00000000-0000-0000-0000-000000000000"], uuid.UUID, ["zz", 5, {}]),
    "decimal.Decimal": (["1.50", "0", "-12.345"], decimal.Decimal, ["abc", [1], {}]),
    "pathlib.Path": (["/a/b", "x.txt", "rel/p"], pathlib.Path, [5, {}]),
    "basescalars.Slug": (["low", "ÜNÏ", "Mixed Case", ""], lambda x: Slug(x.lower()), [5, {}]),
    "basescalars.Celsius": ([21.5, 0.0, -3.25], Celsius, ["abc", {}]),
    "basescalars.Point": ([{"x": 1, "y": -2}, {"x": 0, "y": 0}], lambda x: Point(**x), ["abc", {"x": 1}]),
    "basescalars.Level": ([1, 9], Level, [5, "abc"]),
    "basescalars.Tags": (["a,b", "one", "x,,y"], lambda x: Tags(x.split(",")), [5, {}]),
    "basescalars.Small": ([0, 99, 42], int, [100, -1, "abc"]),
}


def wire(py, value):
    """what a value of the type is on the wire"""
    if py == "basescalars.Slug":
        return str(value)
    if py == "basescalars.Celsius":
        return value.degrees
    if py == "basescalars.Point":
        return {"x": value.x, "y": value.y}
    if py == "basescalars.Level":
        return int(value)
    if py == "basescalars.Tags":
        return ",".join(value)
    if py in ("datetime.datetime", "datetime.time"):
        return value.isoformat().replace("+00:00", "Z")
    if py == "datetime.date":
        return value.isoformat()
    if py in ("uuid.UUID", "decimal.Decimal", "pathlib.Path"):
        return str(value)
    return value


# scalar type -> other types whose values it takes: (type, values with what they amount to on the wire)
COERCIBLE = {
    "uuid.UUID": [("str", [("12345678-1234-5678-1234-567812345678", "12345678-1234-5678-1234-567812345678")])],
    "datetime.datetime": [("str", [("2020-01-02T03:04:05", "2020-01-02T03:04:05")]), ("datetime.date", [(datetime.date(2020, 1, 2), "2020-01-02T00:00:00")])],
    "datetime.date": [("str", [("2020-01-02", "2020-01-02")])],
    "decimal.Decimal": [("int", [(3, "3")]), ("str", [("1.50", "1.50")])],
    "pathlib.Path": [("str", [("/a/b", "/a/b")])],
    "float": [("int", [(3, 3.0)]), ("decimal.Decimal", [(decimal.Decimal("1.5"), 1.5)])],
    "int": [("basescalars.Level", [(Level.LOW, 1)])],
    "str": [("basescalars.Text", [(Text("t"), "t")])],
    "basescalars.Slug": [("str", [("ABC", "abc")]), ("basescalars.Text", [(Text("T"), "t")])],
    "basescalars.Celsius": [("float", [(1.5, 1.5)])],
    "basescalars.Point": [("dict", [({"x": 3, "y": 4}, {"x": 3, "y": 4})])],
    "basescalars.Tags": [("str", [("a,b", "a,b")])],
    "basescalars.Level": [("int", [(9, 9)])],
}
