"""Generates modules in a process of its own (its own hash seed, its own order of directory listings).
Reads {"root", "case", "plugins", "parsers", "order"} lines, writes {"source"} or {"error"} lines."""
import json
import os
import random
import sys

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import boot  # noqa: E402

boot.boot()
out = os.fdopen(os.dup(1), "w")
os.dup2(2, 1)

import genpipe  # noqa: E402

for line in sys.stdin:
    job = json.loads(line)
    try:
        answer = {"source": genpipe.generate(job["case"], job["directory"], random.Random(job["order"]))}
    except Exception as e:
        answer = {"error": f"{type(e).__name__}: {e}"}
    out.write(json.dumps(answer) + "\n")
    out.flush()
