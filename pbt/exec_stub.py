"""Executor stand-ins that generated functions call; they record the call and answer with canned results."""
calls = []
results = []


class Client:
    pass


class Context:
    pass


def vp_execute(*args, **kwargs):
    calls.append((args, kwargs))
    return results[-1]


async def vp_aexecute(*args, **kwargs):
    calls.append((args, kwargs))
    return results[-1]


def vp_subscribe(*args, **kwargs):
    calls.append((args, kwargs))
    yield from results[-1]


async def vp_asubscribe(*args, **kwargs):
    calls.append((args, kwargs))
    for r in results[-1]:
        yield r


def reset(result):
    calls.clear()
    results.clear()
    results.append(result)
