"""C19: access modifiers decide which code may use a member or a type."""
from vlib.engine import Reject

QUICK, THOROUGH = 900, 12000
RULE = ("a case is a set of 2 to 9 classes and structs in one to three assemblies (hierarchies over several levels and assemblies, public "
        "and internal types) with fields, properties, constants, static, instance and virtual methods of every access modifier or "
        "none, and 3 to 14 random legal uses of them and of their types from other members (overriding, through this, implicitly, by type name, through a variable, "
        "parameter, cast or new object; reading, writing, compound operators, calls; in every kind of statement), which have to "
        "compile and give the member's value; then up to 4 variants with one more use, which breaks the access rules and "
        "has to be refused before anything runs. Non-trivial: there is a refused variant and at least 3 legal uses of members that are not public")
ASSUME = ["not generated: 'protected internal' (recorded finding), modifiers of constructors and of property accessors (recorded finding), "
          "protected members through an instance of a base type, fields across assemblies (recorded finding)"]

ACC = ["public", "private", "protected", "internal", ""]
KINDS = ["field", "method", "virtual", "prop", "rprop", "smethod", "const"]


class T:
    def __init__(self, name, asm, pub, base, struct):
        self.name, self.asm, self.pub, self.base, self.struct = name, asm, pub, base, struct
        self.members, self.uses = [], []
        self.up = base.up + [self] if base else [self]

    def derives(self, o):
        return o in self.up


class M:
    def __init__(self, host, kind, acc, name, val):
        self.host, self.kind, self.acc, self.name, self.val = host, kind, acc, name, val
        self.static = kind in ("smethod", "const")
        self.call = kind in ("method", "virtual", "smethod")
        self.write = kind in ("field", "prop")

    def tx(self):
        a = self.acc + " " if self.acc else ""
        n, v = self.name, self.val
        return {"field": "%sint %s;" % (a, n),
                "method": "%sint %s() { return %d; }" % (a, n, v),
                "virtual": "%svirtual int %s() { return %d; }" % (a, n, v),
                "smethod": "%sstatic int %s() { return %d; }" % (a, n, v),
                "const": "%sconst int %s = %d;" % (a, n, v),
                "rprop": "%sint %s { get { return %d; } }" % (a, n, v),
                "prop": "int _%s;\n%sint %s { get { return _%s; } set { _%s = value; } }" % (n, a, n, n, n)}[self.kind]

    def init(self):
        return {"field": "%s = %d;" % (self.name, self.val), "prop": "_%s = %d;" % (self.name, self.val)}.get(self.kind, "")


def may(c, m, form, d):
    """True: allowed, False: refused, None: not decided here. c: the class of the use; d: the static type of the receiver"""
    t = m.host
    if form in ("name", "obj") and d.asm != c.asm and not d.pub:
        return False
    if c is t:
        return True
    if m.acc in ("private", ""):
        return False
    if m.acc == "public":
        return True
    if m.acc == "internal":
        return c.asm == t.asm
    if not c.derives(t):
        return False
    if form == "obj" and not d.derives(c):
        return None
    return True


class World:
    def __init__(self, s):
        self.s = s
        self.n = 0
        self.nasm = s.weighted([(4, 1), (5, 2), (2, 3)])
        self.types = []
        for k in range(s.i(2, 8)):
            asm = s.draw(self.nasm)
            struct = s.p(12)
            base = None
            pub = s.p(65) if asm < self.nasm - 1 else s.p(30)
            if not struct and s.p(65):
                bs = [t for t in self.types if not t.struct and t.asm <= asm and (t.asm == asm or t.pub)
                      and (t.pub or not pub) and len(t.up) < 5]
                if bs:
                    base = s.choice(bs)
            t = T("%s%d" % (s.choice(["A", "Kind", "c_", "Zz"]), k), asm, pub, base, struct)
            t.intern = s.p(50)
            self.types.append(t)
            for _ in range(s.i(1, 6)):
                kind = s.choice(KINDS)
                acc = s.choice(ACC)
                if struct and (kind in ("virtual", "field", "prop") or acc == "protected"):
                    kind, acc = "method", s.choice(["public", "private", "internal", ""])
                if kind == "virtual" and acc in ("private", ""):
                    acc = "protected"
                self.n += 1
                t.members.append(M(t, kind, acc, "%s%d" % (s.choice(["m", "Get", "_v", "P"]), self.n), s.i(2, 90)))
        self.prog = T("Program", self.nasm - 1, False, None, False)
        self.prog.intern = False
        self.pairs()

    def pairs(self):
        """All (use class, member, form, receiver type) with a verdict."""
        self.legal, self.illegal = [], []
        for c in self.types + [self.prog]:
            for t in self.types:
                if t.asm > c.asm:
                    continue
                for m in t.members:
                    if m.kind == "field" and c.asm != t.asm:
                        continue
                    forms = []
                    if c.derives(t):
                        forms.append(("impl", None))
                        if not m.static:
                            forms.append(("this", None))
                    if m.static:
                        forms.append(("name", t))
                    else:
                        for d in self.types:
                            if d.asm <= c.asm and d.derives(t):
                                if m.kind == "field" and d.asm != t.asm:
                                    continue
                                forms.append(("obj", d))
                    for f, d in forms:
                        v = may(c, m, f, d)
                        if v is not None:
                            (self.legal if v else self.illegal).append((c, m, f, d))

    # -- one use: (text of a member of class c, statement for the caller, printed lines)
    def use(self, c, m, form, d, q):
        s = self.s
        pre, par, arg = "", "", ""
        if form == "impl":
            r = ""
        elif form == "this":
            r = "this."
        elif form == "name":
            r = m.host.name + "."
        else:
            k = s.draw(5)
            if d.struct and k in (2, 3):
                k = 0
            if k == 0 or m.write:
                pre, r = "%s r = new %s(); " % (d.name, d.name), "r."
            elif k == 1:
                par, arg, r = "%s r" % d.name, "new %s()" % d.name, "r."
            elif k == 2:
                pre, r = "object r = new %s(); " % d.name, "((%s)r)." % d.name
            elif k == 3:
                pre, r = "%s[] r = new %s[2]; r[1] = new %s(); " % (d.name, d.name, d.name), "r[1]."
            else:
                r = "(new %s())." % d.name
            s.tag("receiver %d" % k)
        x = r + m.name + ("()" if m.call else "")
        v = m.val
        opts = ["print", "decl", "if", "arr", "arg", "tern", "for", "while", "switch", "ret", "dead", "try", "do", "else", "and", "idx", "prop"]
        if m.write:
            opts += ["set", "add", "inc", "pre"] * 3
        if m.call:
            opts += ["stmt"] * 2
        if m.kind == "const":
            opts += ["case", "konst"] * 2
        k = s.choice(opts)
        if par and k == "prop":
            k = "print"
        s.tag("use " + k)
        out = [str(v)]
        ret = "void"
        if k == "print":
            b = "Console.WriteLine(%s);" % x
        elif k == "decl":
            b, out = "int t = %s + 1; Console.WriteLine(t);" % x, [str(v + 1)]
        elif k == "if":
            b, out = "if (%s == %d) Console.WriteLine(\"y\");" % (x, v), ["y"]
        elif k == "else":
            b, out = "if (%s != %d) Console.WriteLine(\"y\"); else Console.WriteLine(%s);" % (x, v, x), [str(v)]
        elif k == "and":
            b, out = "int z = 1; if (z > 0 && %s > 1) Console.WriteLine(\"a\");" % x, ["a"]
        elif k == "arr":
            b = "int[] a = new int[%s]; Console.WriteLine(a.Length);" % x
        elif k == "idx":
            b, out = "int[] a = new int[100]; a[%s] = 5; Console.WriteLine(a[%d]);" % (x, v), ["5"]
        elif k == "arg":
            b = "Console.WriteLine(Id(%s));" % x
        elif k == "tern":
            b, out = "Console.WriteLine(%s > 1 ? 1 : 2);" % x, ["1"]
        elif k == "for":
            b, out = "int n = 0; for (int i = 0; i < %s; i++) { n++; } Console.WriteLine(n);" % x, [str(v)]
        elif k == "while":
            b, out = "int n = 0; while (n < %s) { n++; } Console.WriteLine(n);" % x, [str(v)]
        elif k == "do":
            b, out = "int n = 0; do { n += %s; } while (n < 1); Console.WriteLine(n);" % x, [str(v)]
        elif k == "switch":
            b, out = "switch (%s) { case %d: Console.WriteLine(\"s\"); break; default: break; }" % (x, v), ["s"]
        elif k == "dead":
            b, out = "int z = 0; if (z > 3) { Console.WriteLine(%s); } Console.WriteLine(\"d\");" % x, ["d"]
        elif k == "try":
            j = s.draw(3)
            p = ["", "", ""]
            p[j] = "Console.WriteLine(%s);" % x
            b = "try { %s Console.WriteLine(0); } catch (Exception ex) { %s } finally { %s }" % tuple(p)
            out = [[str(v), "0"], ["0"], ["0", str(v)]][j]
        elif k == "set":
            b, out = "%s = 7; Console.WriteLine(\"w\");" % x, ["w"]
        elif k == "add":
            o = s.choice(["+", "-", "*", "|", "^"])
            b = "%s %s= 3; Console.WriteLine(%s);" % (x, o, x)
            out = [str({"+": v + 3, "-": v - 3, "*": v * 3, "|": v | 3, "^": v ^ 3}[o])]
        elif k == "inc":
            b, out = "%s++; Console.WriteLine(%s);" % (x, x), [str(v + 1)]
        elif k == "pre":
            b, out = "--%s; Console.WriteLine(%s);" % (x, x), [str(v - 1)]
        elif k == "stmt":
            b, out = "%s; Console.WriteLine(\"c\");" % x, ["c"]
        elif k == "case":
            b, out = "int z = %d; switch (z) { case %s: Console.WriteLine(\"k\"); break; }" % (v, x), ["k"]
        elif k == "konst":
            b, out = "const int z = %s + 2; Console.WriteLine(z);" % x, [str(v + 2)]
        else:
            ret = "int"
            b = "return %s;" % x
        name = "Q%d" % q
        static = c is self.prog or (form in ("name", "obj") and s.p(25)) or (form == "impl" and m.static and s.p(40))
        # static members reach only what needs no object
        if static and form in ("impl", "this") and not m.static:
            static = False
        vis = "public" if c.asm == self.nasm - 1 or True else "internal"
        if k == "prop" and not static:
            text = "%s int %s { get { %s%s } }" % (vis, name, pre, b)
            call = name
        else:
            text = "%s %s%s %s(%s) { %s%s }" % (vis, "static " if static else "", ret, name, par, pre, b)
            call = "%s(%s)" % (name, arg)
        if ret == "int":
            st = "Console.WriteLine(%s);"
        else:
            st = "%s;"
        return text, static, st, call, out

    def type_use(self, c, d, q):
        """A member of class c that names the type d without using its members."""
        s = self.s
        n = d.name
        k = s.choice(["new", "decl", "is", "cast", "as", "arr", "field", "ret", "par", "garg", "prop", "arrdecl", "arrpar"])
        if d.struct and k in ("decl", "ret", "as", "prop", "is", "cast", "new"):
            k = "arr"
        s.tag("type use " + k)
        st = "static " if c is self.prog or s.p(30) else ""
        m = "public %svoid Q%d(%s) { %s }"
        body = {"new": "object p = new %s();", "decl": "%s a = null;", "is": "object o = \"s\"; if (o is %s) Console.WriteLine(1);",
                "cast": "object o = null; object a = (%s)o;", "as": "object o = \"s\"; object p = o as %s;",
                "arr": "object p = new %s[3];", "arrdecl": "%s[] p = null;", "garg": "object p = new Box<%s>();"}
        if k in body:
            return m % (st, q, "", body[k] % n)
        if k == "field":
            return "%s fq%d;" % (n, q)
        if k == "ret":
            return "static %s Q%d() { return null; }" % (n, q)
        if k == "prop":
            return "%s Q%d { get { return null; } }" % (n, q)
        return "static void Q%d(%s%s x) { }" % (q, n, "[]" if k == "arrpar" else "")

    def files(self, extra=None):
        """Texts of the assemblies; extra: (class, text) of one more member."""
        names = ["L%d" % k for k in range(self.nasm - 1)]
        res = []
        for a in range(self.nasm):
            imp = "import System;\n" + "".join("import %s;\n" % n for n in names[:a]) + "using System;\n" + \
                "".join("using %s;\n" % n for n in names[:a])
            body = []
            for t in self.order:
                if t.asm != a:
                    continue
                mem = []
                init = " ".join(x for x in (m.init() for m in t.members) if x)
                if not t.struct:
                    mem.append("public %s() { %s }" % (t.name, init))
                mem += [m.tx() for m in t.members]
                mem += t.uses
                if extra and extra[0] is t:
                    mem.insert(self.s.draw(len(mem) + 1), extra[1])
                mem.append("static int Id(int x) { return x; }")
                body.append("%s%s %s%s\n{\n%s\n}\n" % ("public " if t.pub else "internal " if t.intern else "",
                                                       "struct" if t.struct else "class", t.name,
                                                       " : " + t.base.name if t.base else "", "\n".join(mem)))
            body.append("class Box<T> { }\n")
            # what the later assemblies call to run the uses of this one
            p = self.calls[a]
            if a < self.nasm - 1:
                body.append("public class Run%d\n{\npublic static void Go()\n{\n%s\n}\n}\n" % (a, "\n".join(p)))
            else:
                pre = ["Console.WriteLine(\"START\");"] + ["Run%d.Go();" % k for k in range(a)]
                mem = list(self.prog.uses)
                if extra and extra[0] is self.prog:
                    mem.append(extra[1])
                mem.append("static int Id(int x) { return x; }")
                body.insert(0 if self.top else len(body), "class Program\n{\n[EntryPoint]\npublic static void Main()\n{\n%s\n}\n%s\n}\n" % (
                    "\n".join(pre + p), "\n".join(mem)))
            res.append(imp + "\n".join(body))
        return names, res


def gen(s):
    w = World(s)
    if not w.legal:
        raise Reject()
    w.top = s.p(50)
    w.order = s.shuffle(w.types) if s.p(50) else list(w.types)
    w.calls = [[] for _ in range(w.nasm)]
    outs = [[] for _ in range(w.nasm)]
    inner = 0
    q = 0
    hard = [x for x in w.legal if x[1].acc != "public"]
    far = [x for x in hard if x[0] is not x[1].host]
    tys = [(c, d) for c in w.types + [w.prog] for d in w.types if d.asm < c.asm]
    vir = [(c, m) for c in w.types for t in c.up[:-1] for m in t.members if m.kind == "virtual" and
           (m.acc != "internal" or t.asm == c.asm)]
    done = set()
    if vir and s.p(40):
        for _ in range(s.i(1, 2)):
            c, m = s.choice(vir)
            if not any(x in c.up or c in x.up for x, y in done if y is m):
                done.add((c, m))
                c.uses.append("%s override int %s() { return %d; }" % (m.acc, m.name, m.val))
                s.tag("override")
    over = [m for _, m in done]

    def settled(x):
        """The use does not go through an object whose type overrides a protected member."""
        return not (x[1] in over and x[2] == "obj" and x[1].acc == "protected")
    w.legal, w.illegal = [x for x in w.legal if settled(x)], [x for x in w.illegal if settled(x)]
    hard, far = [x for x in hard if settled(x)], [x for x in far if settled(x)]
    if not w.legal:
        raise Reject()
    for _ in s.many(3, 14):
        k = s.draw(20)
        if k == 0 and [x for x in tys if x[1].pub]:
            q += 1
            c, d = s.choice([x for x in tys if x[1].pub])
            c.uses.append(w.type_use(c, d, q))
            continue
        c, m, form, d = s.choice(far if far and s.p(50) else hard if hard and s.p(70) else w.legal)
        q += 1
        text, static, st, call, out = w.use(c, m, form, d, q)
        c.uses.append(text)
        inner += m.acc != "public"
        s.tag("legal %s %s" % (m.acc or "none", "own" if c is m.host else "derived" if c.derives(m.host) else
                               "other" if c.asm == m.host.asm else "far"))
        a = c.asm
        if c is w.prog:
            e = call
        elif static:
            e = "%s.%s" % (c.name, call)
        else:
            w.calls[a].append("%s o%d = new %s();" % (c.name, q, c.name))
            e = "o%d.%s" % (q, call)
        w.calls[a].append(st % e)
        outs[a] += out
    exp = "START\n" + "".join(x + "\n" for a in range(w.nasm) for x in outs[a])
    names, texts = w.files()
    files, steps = {}, []
    for k, n in enumerate(names):
        files["%s/l.cs" % n] = texts[k]
        steps.append({"argv": ["@april", "compile", "%s/l.cs" % n] + ["%s.apl" % x for x in names[:k]] + ["@sys"], "rc": 0})
    refs = ["%s.apl" % x for x in names] + ["@sys"]
    files["M/m.cs"] = texts[-1]
    steps.append({"argv": ["@april", "run", "M/m.cs"] + refs, "rc": 0, "out": exp})
    # the forbidden uses
    nf = 0
    near = [x for x in w.illegal if x[1].acc == "protected" and x[0].asm == x[1].host.asm or x[1].acc == "internal" or
            x[0].derives(x[1].host)]
    hidden = [x for x in tys if not x[1].pub]
    free = [x for x in vir if x[1] not in over]
    for _ in s.many(0, 4):
        pool = near if near and s.p(60) else w.illegal
        k = s.draw(5)
        if k == 0 and hidden:
            c, d = s.choice(hidden)
            q += 1
            text = w.type_use(c, d, q)
            s.tag("fault type")
        elif k == 1 and free:
            c, m = s.choice(free)
            a = s.choice([a for a in ACC if a != m.acc])
            text = "%s override int %s() { return 1; }" % (a, m.name)
            s.tag("fault override")
        else:
            if not pool:
                continue
            c, m, form, d = s.choice(pool)
            q += 1
            text = w.use(c, m, form, d, q)[0]
            s.tag("fault %s %s" % (m.acc or "none", "derived" if c.derives(m.host) else "other" if c.asm == m.host.asm else "far"))
            s.tag("fault " + m.kind)
        nf += 1
        t = w.files((c, text))[1][c.asm]
        dn = "F%d" % nf
        files["%s/f.cs" % dn] = t
        if c.asm < w.nasm - 1:
            steps.append({"argv": ["@april", "compile", "%s/f.cs" % dn] + ["%s.apl" % x for x in names[:c.asm]] + ["@sys"],
                          "reject": True, "lenient": True})
        else:
            steps.append({"argv": ["@april", "run", "%s/f.cs" % dn] + refs, "reject": True, "lenient": True, "marker": "START"})
    return {"files": files, "steps": steps, "units": len(steps), "nontrivial": nf > 0 and inner >= 3}
