"""C13: compiled assemblies, alone and together, behave as their sources."""
import re
from vlib.engine import Reject
from vlib import lang
from vlib.stmtgen import program, value, fmt, Lit
from vlib.objs import *
from props import mix, c08

QUICK, THOROUGH = 1200, 15000
RULE = ("a case is a random program of one of the other properties, or a class and interface hierarchy, (a) compiled to an "
        "assembly that is then run, (b) moved whole into a library assembly that a main assembly calls, (c) cut at a random "
        "place into two or three assemblies, so that classes derive from, implement, override, call and hold types of "
        "other assemblies, or (d) a library of constants of every type, enumerations and static methods read from another assembly; the main assembly is run from source or compiled first. Non-trivial: the program is non-trivial "
        "for its own property")
ASSUME = ["not generated: access to fields of types of another assembly, generic types and delegates of another assembly "
          "(not implemented by the compiler)"]

TYPE = re.compile(r"^((?:abstract |sealed )*(?:class|struct|interface|enum)) ", re.M)
HEAD = "import System;\n%susing System;\n%s\n"


def public(text):
    return TYPE.sub(r"public \1 ", text)


def head(libs):
    return HEAD % ("".join("import %s;\n" % l for l in libs), "".join("using %s;\n" % l for l in libs))


def steps(s, libs, out):
    """Compiles the libraries in order, then runs the main assembly from source or compiled."""
    st = []
    for k, l in enumerate(libs):
        st.append({"argv": ["@april", "compile", "%s/l.cs" % l] + ["%s.apl" % x for x in libs[:k]] + ["@sys"], "rc": 0})
    refs = ["%s.apl" % l for l in (libs if s.p(70) else s.shuffle(libs))] + ["@sys"]
    if s.p(60):
        st.append({"argv": ["@april", "run", "M/m.cs"] + refs, "rc": 0, "out": out})
    else:
        st.append({"argv": ["@april", "compile", "M/m.cs"] + refs, "rc": 0})
        st.append({"argv": ["@april", "run", "M.apl"] + refs, "rc": 0, "out": out})
    return st


def whole(s):
    """The whole program as a library; the main assembly only calls it."""
    name, text, out, c = mix.draw(s, skip=("c08",))
    members, main, types, usings = lang.LAST
    if usings.strip():
        raise Reject()
    members = re.sub(r"^(public )?static ", "public static ", members, flags=re.M).replace("Program.", "Lib.")
    types = types.replace("Program.", "Lib.")
    main = re.sub(r"(?<![\w.])((?:[FUH]\d+|Run|[FUH]_\w+)(?:<[^()]*>)?\()", r"Lib.\1", main).replace("Program.", "Lib.")
    lib = head([]) + "public class Lib\n{\n%s\n}\n\n%s\n" % (ind(members), public(types))
    mtx = head(["L"]) + "class Program\n{\n    [EntryPoint]\n    public static void Main()\n    {\n%s\n    }\n}\n" % ind(main, 2)
    s.tag("library")
    return {"files": {"L/l.cs": lib, "M/m.cs": mtx}, "units": c["units"], "nontrivial": c["nontrivial"],
            "steps": steps(s, ["L"], out)}


def split(s):
    """A hierarchy cut into assemblies."""
    h, helpers, calls, ncall = c08.build(s, own_fields=True)
    text, out, mc = program(list(helpers.values()), calls, "")
    libs = ["L", "K"][:s.weighted([(3, 1), (1, 2)])]
    ifs, cls = list(h.ifaces), list(h.classes)
    where = {}
    ci = sorted(s.i(0, len(ifs)) for _ in libs)
    cc = sorted(s.i(0, len(cls)) for _ in libs)
    for k, t in enumerate(ifs):
        where[t] = sum(k >= x for x in ci)
    for k, t in enumerate(cls):
        where[t] = sum(k >= x for x in cc)
    for t in h.structs:
        where[t] = s.draw(len(libs) + 1)
    # what a type depends on must not be in a later assembly
    for t in cls + h.structs:
        for i in t.ifaces:
            for j in [i] + i.all_bases():
                where[j] = min(where[j], where[t])
    for i in reversed(ifs):
        for j in i.all_bases():
            where[j] = min(where[j], where[i])
    files = {}
    cross = sum(1 for t in cls for d in [t.base] + t.ifaces if d is not None and where[d] != where[t])
    hs = {}
    for t, m in helpers.items():
        hs[m.name] = (where[t] if s.p(50) else len(libs), m)
    def fix(tx, here):
        for n, (w, m) in hs.items():
            if w != here:
                tx = re.sub(r"(?<![\w.])%s\(" % n, "Help%d.%s(" % (w, n), tx)
        return tx
    for k, l in enumerate(libs):
        tx = head(libs[:k]) + "\n\n".join(public(t.tx()) for t in ifs + cls + h.structs if where[t] == k)
        ms = [m for w, m in hs.values() if w == k]
        if ms:
            tx += "\n\npublic class Help%d\n{\n%s\n}\n" % (k, ind("\n\n".join("public " + m.tx() for m in ms)))
        files["%s/l.cs" % l] = tx + "\n"
    n = len(libs)
    main = fix("\n".join(c.tx() for c in calls), n)
    ms = "\n\n".join(m.tx() for w, m in hs.values() if w == n)
    files["M/m.cs"] = head(libs) + ("class Program\n{\n    [EntryPoint]\n    public static void Main()\n    {\n%s\n    }\n\n%s\n}\n\n%s\n"
                                    % (ind(main, 2), ind(ms), "\n\n".join(t.tx() for t in ifs + cls + h.structs if where[t] == n)))
    s.tag("split")
    s.tag("cross", cross)
    return {"files": files, "units": ncall[0], "nontrivial": ncall[0] >= 4 and cross >= 1, "steps": steps(s, libs, out)}


def show(t, v):
    return fmt(t, v) + ("\r\n" if t == "bool" else "\n")


CT = ["int", "int", "long", "long", "ulong", "uint", "byte", "sbyte", "short", "ushort", "double", "float", "bool", "char", "string"]


def api(s):
    """Constants, enumerations and static methods of a library, seen from the library and from the main assembly."""
    libs = ["L", "K"][:s.weighted([(3, 1), (1, 2)])]
    files, main, out, n = {}, [], [], 0
    names = []                  # (text, type, value) visible so far
    for k, l in enumerate(libs):
        tx, own = [], []
        for j in s.many(1, 3, 60):
            c = "H%d%d" % (k, j)
            ms, vis = [], list(names)
            for q in s.many(1, 6, 80):
                t = s.choice(CT)
                v = value(s, t)
                ms.append("public const %s K%d = %s;" % (t, q, Lit(t, v).tx()))
                own.append(("%s.K%d" % (c, q), t, v))
                vis.append(("K%d" % q, t, v))
            for q in s.many(0, 4):
                w, t, v = s.choice(vis)
                kind = s.draw(3)
                if kind == 0:
                    ms.append("public static %s F%d() { return %s; }" % (t, q, w))
                    own.append(("%s.F%d()" % (c, q), t, v))
                elif kind == 1:
                    ms.append("public static %s G%d(%s a, bool b) { return b ? a : %s; }" % (t, q, t, w))
                    v2 = value(s, t)
                    for b in (True, False):
                        own.append(("%s.G%d(%s, %s)" % (c, q, Lit(t, v2).tx(), str(b).lower()), t, v2 if b else v))
                else:
                    ms.append("public static void P%d() { Console.WriteLine(%s); }" % (q, w))
                    own.append(("%s.P%d()" % (c, q), None, (t, v)))
            tx.append("public class %s\n{\n%s\n}\n" % (c, ind("\n".join(ms))))
        for j in s.many(0, 2):
            e = "E%d%d" % (k, j)
            items, v = [], -1
            for q in s.many(1, 5, 80):
                if s.p(40):
                    v = s.choice([0, 1, 2, 5, 10, 100, 1000, 65536, 7, 3])
                    items.append("V%d = %d" % (q, v))
                else:
                    v += 1
                    items.append("V%d" % q)
                own.append(("(int)%s.V%d" % (e, q), "int", v))
            tx.append("public enum %s { %s }\n" % (e, ", ".join(items)))
        files["%s/l.cs" % l] = head(libs[:k]) + "\n".join(tx)
        names += own
        names = [x for x in names if x[1] is not None] + [x for x in own if x[1] is None]
        for w, t, v in own:
            if s.p(80):
                n += 1
                if t is None:
                    main.append("%s;" % w)
                    out.append(show(*v))
                else:
                    main.append("Console.WriteLine(%s);" % w)
                    out.append(show(t, v))
        names = [x for x in names if x[1] is not None]
    files["M/m.cs"] = head(libs) + "class Program\n{\n    [EntryPoint]\n    public static void Main()\n    {\n%s\n    }\n}\n" % ind("\n".join(main), 2)
    s.tag("api")
    return {"files": files, "units": n, "nontrivial": n >= 4, "steps": steps(s, libs, "".join(out))}


def gen(s):
    k = s.weighted([(4, "one"), (2, "whole"), (5, "split"), (2, "api")])
    if k == "api":
        return api(s)
    if k == "whole":
        return whole(s)
    if k == "split":
        return split(s)
    name, text, out, c = mix.draw(s)
    s.tag("single")
    return {"files": {"P/a.cs": text}, "units": c["units"], "nontrivial": c["nontrivial"],
            "steps": [{"argv": ["@april", "compile", "P/a.cs", "@sys"], "rc": 0},
                      {"argv": ["@april", "run", "P.apl", "@sys"], "rc": 0, "out": out}]}
