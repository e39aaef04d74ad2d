"""C21: declarations are checked: overriding, modifiers, duplicates, enum ranges, cycles, type parameter constraints."""
from vlib.engine import Reject
from props.illf import Unit, case

QUICK, THOROUGH = 1200, 15000
RULE = ("a case is a program with 4 to 14 random groups of legal declarations (class chains with virtual, abstract, overriding and sealed "
        "members; interfaces; members and overloads; enums with explicit and implicit values up to the ends of their range; generic "
        "types and methods with constraints and uses of them), which has to compile and run, and up to 4 variants with one more group "
        "that breaks one rule of the language, which have to be refused before anything runs. Non-trivial: there are a refused variant and "
        "at least 4 legal groups")
ASSUME = ["not judged, because the compiler does not check them (recorded findings): bodies of abstract methods, missing bodies, missing "
          "implementations, instances of abstract types, sealed base types, base types that are no classes, constructors required by new(), "
          "string as a reference type in constraints"]

PT = ["int", "long", "string", "bool", "double", "byte", "A", "E", "object", "int[]"]
BASE = ["interface I { int H(); }", "interface J : I { int K(); }", "class A { public A() { } }",
        "class B : A, I { public B() { } public int H() { return 1; } }", "class C : B { public C() { } }",
        "class D : J { public int H() { return 1; } public int K() { return 2; } }",
        "interface N { int Z(); }", "interface W<T> { T Y(); }", "interface P : I, N { }",
        "class F : A, N { public F() { } public int Z() { return 3; } }",
        "class M : I, N { public M() { } public int H() { return 4; } public int Z() { return 5; } }",
        "class O : P, W<int> { public O() { } public int H() { return 6; } public int Z() { return 7; } public int Y() { return 8; } }",
        "struct S { public int s; }", "enum E { X, Y }"]
UP = {"A": {"A"}, "B": {"A", "B", "I"}, "C": {"A", "B", "C", "I"}, "D": {"I", "J", "D"}, "I": {"I"}, "J": {"I", "J"},
      "F": {"A", "N", "F"}, "M": {"I", "N", "M"}, "O": {"O", "P", "I", "N", "W<int>"}, "N": {"N"}, "P": {"P", "I", "N"}}
VAL = {"int": "1", "long": "1L", "string": "\"s\"", "bool": "true", "double": "1.5", "byte": "(byte)1", "A": "new A()", "E": "E.X",
       "object": "new A()", "int[]": "new int[1]", "void": ""}
RANGE = {"byte": (0, 255), "sbyte": (-128, 127), "short": (-32768, 32767), "ushort": (0, 65535), "int": (-2 ** 31, 2 ** 31 - 1),
         "uint": (0, 2 ** 32 - 1)}


class G:
    def __init__(self, s):
        self.s, self.q = s, 0

    def nm(self, p):
        self.q += 1
        return "%s%d" % (p, self.q)

    def sig(self):
        return [self.s.choice(PT) for _ in range(self.s.i(0, 3))]

    def tag(self, ok, x):
        self.s.tag("%s %s" % ("legal" if ok else "fault", x))

    # ------------------------------------------------------------ overriding
    def over(self, ok):
        """A chain of 2 to 5 classes with one virtual member, overridden at some levels."""
        s = self.s
        n = s.i(2, 5)
        top = s.i(0, n - 2)
        ts, ret = self.sig(), s.choice(["void"] + PT)
        prop = ret != "void" and s.p(30)
        acc = s.choice(["public", "protected", "internal"])
        m, c = self.nm("m"), self.nm("C")
        others = s.i(0, 3)

        def member(mods, ts=ts, ret=ret, body=True, acc=acc):
            if prop:
                b = " { get { return %s; } }" % VAL[ret] if body else " { get; }"
                return "%s %s %s %s%s" % (acc, mods, ret, m, b)
            p = ", ".join("%s p%d" % (t, k) for k, t in enumerate(ts))
            b = " { %s }" % ("return %s;" % VAL[ret] if ret != "void" else "") if body else ";"
            return "%s %s %s %s(%s)%s" % (acc, mods, ret, m, p, b)
        abstract = s.p(30)
        levels = {top: member("abstract", body=False) if abstract else member("virtual")}
        lo = top + 1
        if abstract:
            levels[lo] = member("override")
            lo += 1
        free = [k for k in range(lo, n)]
        sealed = None
        for k in free:
            if s.p(50):
                if s.p(15):
                    levels[k] = member("sealed override")
                    sealed = k
                    break
                levels[k] = member("override")
        why = "-"
        if not ok:
            at = s.choice([k for k in range(top + 1, n)])
            opts = ["sig", "ret", "static", "private", "new", "virtual", "access", "nonvirtual", "nobase", "sealed", "sealedonly"]
            why = s.choice(opts)
            if prop and why == "sig" or abstract and why in ("nonvirtual", "nobase"):
                why = "ret" if ret != "void" or not prop else "static"
            if why == "sealed" and n - top < 3:
                why = "static"
            if why == "sig":
                t2 = list(ts)
                if t2 and s.p(60):
                    k = s.draw(len(t2))
                    t2[k] = s.choice([t for t in PT if t != t2[k]])
                elif t2 and s.p(50):
                    t2.pop()
                else:
                    t2.append(s.choice(PT))
                levels[at] = member("override", ts=t2)
            elif why == "ret":
                levels[at] = member("override", ret=s.choice([t for t in PT if t != ret]))
            elif why == "static":
                levels[at] = member("static override")
            elif why == "private":
                levels[at] = member("override", acc=s.choice(["private", ""]))
            elif why == "new":
                levels[at] = member("new override")
            elif why == "virtual":
                levels[at] = member("virtual override")
            elif why == "access":
                levels[at] = member("override", acc=s.choice([a for a in ("public", "protected", "internal") if a != acc]))
            elif why == "nonvirtual":
                levels = {top: member(""), at: member("override")}
            elif why == "nobase":
                levels = {at: member("override")}
            elif why == "sealedonly":
                levels[at] = member("sealed")
            else:
                a, b = sorted(s.shuffle(range(top + 1, n))[:2])
                for k in range(a + 1, n):
                    levels.pop(k, None)
                levels[a] = member("sealed override")
                levels[b] = member("override")
        self.tag(ok, "override " + why)
        types = []
        for k in range(n):
            ms = ["public int o%s%d() { return %d; }" % (m, j * 10 + k, j) for j in range(others)]
            if k in levels:
                ms.insert(s.draw(len(ms) + 1), levels[k])
            types.append("%sclass %s_%d%s\n{\n%s\n}" % ("abstract " if abstract and k == top else "", c, k,
                                                        " : %s_%d" % (c, k - 1) if k else "", "\n".join(ms)))
        return Unit(types=s.shuffle(types) if s.p(40) else types)

    def mods(self, ok):
        s = self.s
        c, m = self.nm("C"), self.nm("m")
        t = s.choice(PT)
        f, meth, pr = "%s %s;" % (t, m), "%s %s() { return %s; }" % (t, m, VAL[t]), "%s %s { get { return %s; } }" % (t, m, VAL[t])
        b = s.choice([f, meth, pr])
        if ok:
            b = s.choice(["public ", "private ", "protected ", "internal ", ""]) + b
            if s.p(30):
                b = s.choice(["public static ", "static ", "public virtual ", "protected virtual "]) + meth
            if s.p(20):
                b = "public " + s.choice(["const int %s = 3;" % m, f])
            text = "class %s { %s }" % (c, b)
        else:
            k = s.choice(["fieldmod", "dupacc", "twoacc", "dupmod", "privvirt", "statvirt", "absnon", "sealednon"])
            self.tag(ok, "modifier " + k)
            if k == "fieldmod":
                b = "public %s %s" % (s.choice(["virtual", "abstract", "sealed", "override"]), f)
            elif k == "dupacc":
                a = s.choice(["public", "private", "protected", "internal"])
                b = "%s %s %s" % (a, a, b)
            elif k == "twoacc":
                b = "%s %s" % (s.choice(["public private", "private public", "public protected", "internal public", "public internal"]), b)
            elif k == "dupmod":
                x = s.choice(["static", "virtual"])
                b = "public %s %s %s" % (x, x, meth)
            elif k == "privvirt":
                b = s.choice(["private virtual ", "virtual ", "virtual private "]) + s.choice([meth, pr])
            elif k == "statvirt":
                b = "public " + s.choice(["static virtual ", "virtual static "]) + meth
            elif k == "absnon":
                b = "public abstract " + s.choice(["%s %s();" % (t, m), "%s %s { get; }" % (t, m)])
            else:
                b = "public sealed " + s.choice([meth, pr])
            ms = ["int z%s%d;" % (m, j) for j in range(s.i(0, 3))]
            ms.insert(s.draw(len(ms) + 1), b)
            text = "%s %s\n{\n%s\n}" % ("class", c, "\n".join(ms))
        return Unit(types=[text])

    def iface(self, ok):
        s = self.s
        c, m = self.nm("F"), self.nm("m")
        t = s.choice(PT)
        b = s.choice(["%s %s();" % (t, m), "void %s(%s p);" % (m, t), "%s %s { get; }" % (t, m)])
        why = "-"
        if not ok:
            why = s.choice(["body", "field", "public", "private", "static", "virtual", "abstract", "protected", "internal"])
            if why == "body":
                b = "%s %s() { return %s; }" % (t, m, VAL[t])
            elif why == "field":
                b = "%s %s;" % (t, m)
            else:
                b = "%s %s" % (why, b)
        self.tag(ok, "interface " + why)
        ms = ["int z%s%d();" % (m, j) for j in range(s.i(0, 3))]
        ms.insert(s.draw(len(ms) + 1), b)
        return Unit(types=["interface %s\n{\n%s\n}" % (c, "\n".join(ms))])

    # ------------------------------------------------------------ names declared twice
    def dup(self, ok):
        s = self.s
        c, m = self.nm("C"), self.nm("m")
        t, u = s.choice(PT), s.choice(PT)
        k = s.choice(["member", "member", "method", "type", "enum", "own"])
        self.tag(ok, "duplicate " + k)
        n2 = m if not ok else m + "b"
        if k == "member":
            def mk(t, n):
                return s.choice(["%s %s;" % (t, n), "public %s %s { get { return %s; } }" % (t, n, VAL[t]), "const int %s = 4;" % n])
            ms = [mk(t, m), mk(u, n2)]
            if s.p(25):
                j = s.draw(2)
                ms[j] = "%s %s() { return %s; }" % (t, (m, n2)[j], VAL[t])
        elif k == "method":
            ts = self.sig()
            us = list(ts)
            if ok:
                if us and s.p(50):
                    j = s.draw(len(us))
                    us[j] = s.choice([x for x in ["int", "string", "bool", "A", "long[]"] if x != us[j]])
                else:
                    us.append(s.choice(PT))

            def mm(t, ts, p):
                return "%s %s %s(%s) { return %s; }" % (s.choice(["public", "private", ""]), t, m,
                                                        ", ".join("%s %s%d" % (x, p, j) for j, x in enumerate(ts)), VAL[t])
            ms = [mm(t, ts, "a"), mm(u, us, "b")]
        elif k == "own":
            n = c if not ok else m
            ms = [s.choice(["int %s;" % n, "int %s { get { return 1; } }" % n])]
        elif k == "enum":
            fs = ["e%d" % j for j in range(s.i(1, 6))]
            if not ok:
                fs.insert(s.draw(len(fs) + 1), s.choice(fs))
            return Unit(types=["enum %s { %s }" % (c, ", ".join(f + (" = %d" % s.i(0, 9) if s.p(30) else "") for f in fs))])
        else:
            kinds = ["class %s { }", "struct %s { public int z; }", "enum %s { Z }", "interface %s { }"]
            return Unit(types=[s.choice(kinds) % c, s.choice(kinds) % (c if not ok else c + "b")])
        for j in range(s.i(0, 3)):
            ms.insert(s.draw(len(ms) + 1), "int z%s%d;" % (m, j))
        return Unit(types=["%s %s\n{\n%s\n}" % (s.choice(["class", "class", "struct"]), c, "\n".join(ms))])

    # ------------------------------------------------------------ enums
    def enum(self, ok):
        s = self.s
        c = self.nm("E")
        t = s.choice(list(RANGE))
        lo, hi = RANGE[t]
        if not ok:
            k = s.choice(["big", "next", "small", "type", "nonconst", "cycle"])
            if t in ("int", "uint") and k in ("big", "next", "small"):
                t = s.choice(["byte", "sbyte", "short", "ushort"])
                lo, hi = RANGE[t]
        fs, cur = [], -1
        n = s.i(1, 6)
        for j in range(n):
            room = n - j
            if s.p(50) or cur + 1 > hi:
                v = s.choice([lo, lo + 1, hi, hi - 1, hi - room, s.i(0, min(hi, 100)), s.i(lo, hi)])
                if v > hi or v < lo:
                    v = 0
                cur = v
                fs.append("e%d = %d" % (j, v))
            else:
                cur += 1
                fs.append("e%d" % j)
        extra = []
        at = s.draw(len(fs) + 1)
        if not ok:
            self.tag(ok, "enum " + k)
            d = s.choice([1, 1, 2, 100])
            if k == "big":
                fs.insert(at, "bad = %d" % (hi + d))
            elif k == "small":
                fs.insert(at, "bad = %d" % (lo - d))
            elif k == "next":
                fs[at:at] = ["last = %d" % hi, "bad"]
            elif k == "type":
                t = s.choice(["string", "double", "float"])
                fs = ["e0"]
            elif k == "nonconst":
                h = self.nm("H")
                extra = ["class %s { public static int F() { return 1; } }" % h]
                fs.insert(at, "bad = %s.F()" % h)
            else:
                m = s.i(1, 4)
                ring = ["r%d = r%d" % (j, (j + 1) % m) for j in range(m)]
                fs[at:at] = ring
        else:
            self.tag(ok, "enum")
        return Unit(types=["enum %s%s { %s }" % (c, " : " + t if t != "int" or s.p(50) else "", ", ".join(fs))] + extra)

    # ------------------------------------------------------------ bases, names of types, other members
    def bases(self, ok):
        s = self.s
        c = self.nm("C")
        n = s.i(1, 5)
        types = ["class %s_%d%s { }" % (c, k, " : %s_%d" % (c, k - 1) if k else "") for k in range(n)]
        if not ok:
            types[0] = "class %s_0 : %s_%d { }" % (c, c, s.i(0, n - 1))
        self.tag(ok, "base chain")
        return Unit(types=s.shuffle(types))

    def refs(self, ok):
        s = self.s
        c, m = self.nm("C"), self.nm("m")
        t = s.choice(["A", "B", "I", "S", "E"]) if ok else s.choice(["Zz", "a", "AA", "Int", "boolean", c + "x"])
        k = s.choice(["field", "ret", "param", "prop", "elem", "garg"])
        self.tag(ok, "type name in " + k)
        v = "" if t in ("S", "E") else "return null;"
        b = {"field": "%s %s;" % (t, m), "ret": "static %s %s() { %s }" % (t, m, v or "return new A();"),
             "param": "void %s(int z, %s p) { }" % (m, t), "prop": "%s %s { get { %s } }" % (t, m, v or "return new A();"),
             "elem": "%s[] %s;" % (t, m), "garg": "Box<%s> %s;" % (t, m)}[k]
        if ok and not v and k in ("ret", "prop"):
            b = "%s %s;" % (t, m)
        return Unit(types=["class %s\n{\n%s\n}" % (c, b)])

    def special(self, ok):
        s = self.s
        c, m = self.nm("C"), self.nm("m")
        k = s.choice(["ctorret", "structctor", "noacc", "constlocal"])
        self.tag(ok, "special " + k)
        if k == "ctorret":
            b = "class %s { public %s%s() { %s} }" % (c, "" if ok else s.choice(["int ", "void ", "A "]), c, "")
        elif k == "structctor":
            b = "struct %s { public int z; public %s(%s) { } }" % (c, c, "int a" if ok else "")
        elif k == "noacc":
            b = "class %s { public int %s { %s } }" % (c, m, "get { return 1; }" if ok else "")
        else:
            b = "class %s { public void %s() { const int k%s; } }" % (c, m, " = 3" if ok else "")
        return Unit(types=[b])

    # ------------------------------------------------------------ constraints
    def meets(self, con, a):
        """Whether type a meets one constraint; None: not decided here."""
        val = a in ("int", "long", "bool", "double", "byte", "S", "E", "char")
        if con == "class":
            return None if a == "string" else not val
        if con == "struct":
            return None if a == "string" else val
        if con == "new()":
            if a in ("I", "J", "N", "P"):
                return False
            return None if a in ("E", "string", "int[]", "A[]", "D") else True
        return con in UP.get(a, set())

    def cons(self, ok):
        s = self.s
        args = ["int", "long", "bool", "double", "char", "object", "string", "A", "B", "C", "D", "S", "E", "I", "J", "int[]", "A[]", "F", "M", "O", "N", "P", "B", "M", "O"]
        sets = [["class"], ["struct"], ["new()"], ["A"], ["B"], ["I"], ["J"], ["A", "I"], ["A", "new()"], ["I", "new()"], ["class", "I"],
                ["class", "new()"], ["C"], ["B", "new()"], ["class", "I", "new()"], ["A", "I", "new()"],
                ["I", "N"], ["N", "I"], ["A", "N"], ["J", "N"], ["N", "J", "new()"], ["class", "N", "I"], ["A", "N", "I"], ["P", "W<int>"],
                ["W<int>", "I"], ["W<long>"], ["I", "W<int>", "N"], ["I", "W<long>", "N"]]
        np = s.weighted([(4, 1), (3, 2), (1, 3)])
        ps = ["T", "U", "V"][:np]
        use = [s.choice(sets) if s.p(75) else None for _ in ps]
        if not any(use):
            use[s.draw(np)] = s.choice(sets)
        dep = None
        if np > 1 and s.p(20):                  # one parameter derives from another
            dep = (0, 1)
            use[0] = ["U"]
        pick = None
        for _ in range(60):
            a = [s.choice(args) for _ in ps]
            v = []
            for k, con in enumerate(use):
                for x in con or []:
                    v.append(a[1] in UP.get(a[0], set()) and a[0] in UP if x == "U" else self.meets(x, a[k]))
            if dep and not (a[0] in UP and a[1] in UP):
                continue
            if None in v:
                continue
            if ok and all(v) or not ok and v.count(False) >= 1 and (v.count(False) == 1 or s.p(30)):
                pick = a
                break
        if pick is None:
            return self.over(ok)
        g = self.nm("G")
        wh = " ".join("where %s : %s" % (p, ", ".join(c)) for p, c in zip(ps, use) if c)
        al = ", ".join(pick)
        k = s.choice(["new", "local", "field", "param", "base", "method", "method", "smethod", "ret", "struct"])
        self.tag(ok, "constraint in " + k)
        for c in use:
            for x in c or []:
                s.tag("constraint " + x)
        h, m = self.nm("H"), self.nm("m")
        pl = ", ".join(ps)
        decl = "%s %s<%s> %s { %s }" % ("struct" if k == "struct" else "class", g, pl, wh, "public int z;")
        if k in ("new", "local", "struct"):
            st = {"new": "object o = new %s<%s>();", "local": "%s<%s> o = null;", "struct": "%s<%s> o;"}[k] % (g, al)
            return Unit(types=[decl, "class %s { public void %s() { %s } }" % (h, m, st)])
        if k == "field":
            return Unit(types=[decl, "class %s { %s<%s> %s; }" % (h, g, al, m)])
        if k == "param":
            return Unit(types=[decl, "class %s { void %s(%s<%s> p) { } }" % (h, m, g, al)])
        if k == "ret":
            return Unit(types=[decl, "class %s { %s<%s> %s() { return null; } }" % (h, g, al, m)])
        if k == "base":
            return Unit(types=[decl, "class %s : %s<%s> { }" % (h, g, al)])
        md = "public %svoid %s<%s>() %s { }" % ("static " if k == "smethod" else "", m, pl, wh)
        call = "%s.%s<%s>();" % (h if k == "smethod" else "o", m, al)
        pre = "" if k == "smethod" else "%s o = new %s(); " % (h, h)
        return Unit(types=["class %s { %s }" % (h, md), "class %sb { public void F() { %s%s } }" % (h, pre, call)])

    def cdecl(self, ok):
        """The constraint clauses themselves."""
        s = self.s
        g = self.nm("G")
        if ok:
            w = s.choice(["where T : class", "where T : struct", "where T : new()", "where T : A, I, new()", "where T : U",
                          "where T : class where U : struct", "where T : I, J", "where U : T", "where T : A where U : I"])
        else:
            w = s.choice(["where T : class, struct", "where T : I, class", "where T : A, struct", "where T : class, A", "where T : I, I",
                          "where T : class where T : I", "where T : U where U : T", "where T : I, A", "where T : struct, new()",
                          "where T : struct, class", "where T : T"])
        self.tag(ok, "clause")
        return Unit(types=["class %s<T, U> %s { }" % (g, w)])

    def unit(self, ok):
        k = self.s.weighted([(7, "over"), (3, "mods"), (2, "iface"), (4, "dup"), (4, "enum"), (2, "bases"), (2, "refs"), (1, "special"),
                             (7, "cons"), (1, "cdecl")])
        return getattr(self, k)(ok)


def gen(s):
    g = G(s)
    units = [g.unit(True) for _ in s.many(4, 14)]
    faults = [g.unit(False) for _ in s.many(0, 4)]
    return case(s, BASE + ["class Box<T> { }"], units, faults, len(faults) > 0 and len(units) >= 4)
