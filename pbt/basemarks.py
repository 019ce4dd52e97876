"""Base classes that configurations refer to."""
from pydantic import BaseModel


class GlobalA(BaseModel):
    def which(self):
        return "GlobalA"


class GlobalB(BaseModel):
    def which(self):
        return "GlobalB"


class GlobalMixin:
    def which(self):
        return "GlobalMixin"


def _model(name):
    return type(name, (BaseModel,), {"__module__": __name__, "which": lambda self: name})


def _mixin(name):
    return type(name, (), {"__module__": __name__, "which": lambda self: name})


for _n in ("TypeA", "TypeB", "IfaceA", "QueryA", "MutationA", "SubscriptionA", "ArgumentsA", "FragmentA", "FragObjectA", "InputA", "ObjectA"):
    globals()[_n] = _model(_n)
for _n in ("TypeM", "TypeN", "IfaceM", "QueryM", "MutationM", "SubscriptionM", "ArgumentsM", "FragmentM", "FragObjectM", "InputM", "ObjectM"):
    globals()[_n] = _mixin(_n)


class Preset:
    def __init__(self, value):
        self.value = value


class Obsolete:
    def __init__(self, reason=None):
        self.reason = reason
