"""Shared by C20 and C21: a program of legal units, and variants of it with one illegal unit each."""


class Unit:
    """types: texts of types; prog: texts of members of Program; main: statements of Main"""

    def __init__(self, types=(), prog=(), main=()):
        self.types, self.prog, self.main = list(types), list(prog), list(main)


def text(s, base, units, extra=None):
    us = list(units)
    if extra:
        us.insert(s.draw(len(us) + 1), extra)
    types = [t for t in base] + [t for u in us for t in u.types]
    prog = [t for u in us for t in u.prog]
    main = ["Console.WriteLine(\"START\");"] + [t for u in us for t in u.main]
    p = "class Program\n{\n[EntryPoint]\npublic static void Main()\n{\n%s\n}\n%s\n}" % ("\n".join(main), "\n".join(prog))
    types.insert(s.draw(len(types) + 1), p)
    return "import System;\nusing System;\n" + "\n".join(types) + "\n"


def case(s, base, units, faults, nontrivial):
    """faults: [(Unit, tag)]"""
    files = {"P/a.cs": text(s, base, units)}
    steps = [{"argv": ["@april", "run", "P/a.cs", "@sys"], "rc": 0, "out": "START\n"}]
    for k, f in enumerate(faults):
        files["F%d/a.cs" % k] = text(s, base, units, f)
        steps.append({"argv": ["@april", "run", "F%d/a.cs" % k, "@sys"], "reject": True, "lenient": True, "marker": "START"})
    return {"files": files, "steps": steps, "units": len(steps), "nontrivial": nontrivial}
