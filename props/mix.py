"""Programs of the other properties, for the properties that relate two ways to build or run one program."""
import importlib

POOL = [("c01", 2), ("c02", 2), ("c03", 3), ("c04", 4), ("c05", 4), ("c06", 4), ("c07", 5), ("c08", 5), ("c09", 5), ("c10", 5),
        ("c11", 5), ("c12", 5)]


def draw(s, skip=(), only=None):
    """(name, source text, expected output, case) of a random program of one of the other properties."""
    name = s.weighted([(w, n) for n, w in POOL if n not in skip])
    name = only or name
    s.tag(name)
    c = importlib.import_module("props." + name).gen(s)
    st = c["steps"][0]
    return name, c["files"]["P/a.cs"], st["out"], c
