"""C20: method bodies are checked: types, calls, names, returns on every path."""
from vlib.engine import Reject
from props.illf import Unit, case

QUICK, THOROUGH = 1200, 15000
RULE = ("a case is a program with 4 to 14 random legal method bodies (implicit conversions in initialisers, arguments, constructor "
        "arguments and returns from values of every form; operators; calls; declarations; returns on every path through nested "
        "conditionals, loops, switches and try blocks), which has to compile and run, and up to 4 variants with one more body that breaks one "
        "rule (a conversion that does not exist, an operator without meaning for its operands, an unknown name, a wrong number of "
        "arguments, a missing ref, a path without a return value, a value returned from a void method, a name declared twice), which have to be "
        "refused before anything runs. Non-trivial: there are a refused variant and at least 4 legal bodies")
ASSUME = ["not judged, because the compiler does not check them (recorded findings): assignments to existing variables, conditions that are "
          "not bool, unassigned variables, null for value types, explicit casts, constructor calls without arguments; conversions C# has and April has not (byte to int) are not used"]

SIGNED = ["sbyte", "short", "int", "long"]
UNSIGNED = ["byte", "ushort", "uint", "ulong"]
BITS = {"sbyte": 8, "short": 16, "int": 32, "long": 64, "byte": 8, "ushort": 16, "uint": 32, "ulong": 64}
NUM = SIGNED + UNSIGNED + ["float", "double"]
TYPES = NUM + ["char", "bool", "string", "object", "A", "B", "I", "S", "E", "int[]", "long[]", "A[]"]
ARRS = ("int[]", "long[]", "A[]")

BASE = ["interface I { int H(); }", "class A { public int v; }", "class B : A, I { public int H() { return 1; } }",
        "enum E { X, Y }", "struct S { public int s; }"]


def legal(a, b):
    if a == b:
        return True
    if b == "object":
        return a not in ("E", "I", "S")
    if a in SIGNED:
        return b in SIGNED and BITS[b] > BITS[a] or b in ("float", "double")
    if a in UNSIGNED:
        return b in UNSIGNED and BITS[b] > BITS[a]
    return a == "float" and b == "double" or a == "B" and b in ("A", "I")


def illegal(a, b):
    """No conversion in C# either, and checked by the compiler."""
    if a == b or b == "object" or legal(a, b):
        return False
    if b == "E" or a == "E":
        return b in ("bool", "string", "A", "B", "S") or a in ("bool", "string", "A", "object", "double", "S")
    if a in UNSIGNED:                       # C# has more conversions from unsigned types and char
        return b not in NUM or b in SIGNED and BITS[b] <= BITS[a] or b in UNSIGNED
    if a == "char":
        return b not in NUM or b in ("sbyte", "byte", "short")
    if a in ARRS and b in ARRS:
        return True
    return True


def lit(t):
    return {"sbyte": "(sbyte)3", "short": "(short)3", "int": "3", "long": "3L", "byte": "(byte)3", "ushort": "(ushort)3", "uint": "3U",
            "ulong": "3UL", "float": "1.5f", "double": "1.5", "char": "'c'", "bool": "true", "string": "\"s\"", "object": "new A()",
            "A": "new A()", "B": "new B()", "I": "new B()", "S": "new S()", "E": "E.Y", "int[]": "new int[2]", "long[]": "new long[2]",
            "A[]": "new A[2]"}[t]


class G:
    def __init__(self, s):
        self.s = s
        self.q = 0
        self.k = None
        self.used = set()

    def nm(self, p):
        self.q += 1
        return "%s%d" % (p, self.q)

    # -- an expression of type t that is no constant: (declarations before, parameters, helper members of Program, text)
    def src(self, t):
        s = self.s
        n = self.nm("x")
        k = s.weighted([(4, "par"), (4, "loc"), (3, "call"), (2, "fld"), (2, "prop"), (2, "elem"), (1, "paren"), (1, "cond"),
                        (2, "op"), (1, "cast"), (1, "inst")])
        if t in ARRS and k in ("elem", "cond", "op", "cast") or t in ("S", "I", "E") and k in ("cond", "cast", "elem"):
            k = "loc"
        s.tag("source " + k)
        if k == "op":
            if t in ("int", "long", "double", "float", "ulong"):
                return "", ["%s %s" % (t, n)], [], "%s %s %s" % (n, s.choice("+-*"), n)
            if t == "bool":
                return "", ["int %s" % n], [], "%s %s 3" % (n, s.choice(["<", ">", "==", "!=", "<=", ">="]))
            k = "loc"
        if k == "par":
            return "", ["%s %s" % (t, n)], [], n
        if k == "loc":
            return "%s %s = %s; " % (t, n, lit(t)), [], [], n
        if k == "call":
            return "", [], ["static %s %s() { return %s; }" % (t, n, lit(t))], "Program.%s()" % n
        if k == "elem":
            return "", ["%s[] %s" % (t, n)], [], "%s[%d]" % (n, s.i(0, 3))
        if k == "paren":
            return "", ["%s %s" % (t, n)], [], "(%s)" % n
        if k == "cond":
            return "", ["%s %s" % (t, n), "bool b" + n], [], "(b%s ? %s : %s)" % (n, n, n)
        if k == "cast":
            if t in NUM:
                return "", ["int %s" % n], [], "(%s)%s" % (t, n)
            if t in ("string", "A", "B"):
                return "", ["object %s" % n], [], "(%s)%s" % (t, n)
            return "", ["%s %s" % (t, n)], [], n
        self.used.add(t)
        f = {"fld": "f", "prop": "P", "inst": "m"}[k] + "_" + t.replace("[]", "s")
        return "", ["K %s" % n], [], "%s.%s%s" % (n, f, "()" if k == "inst" else "")

    def base(self):
        """Class K has a field, a property and a method of every type that is used."""
        m = []
        for t in sorted(self.used):
            n = t.replace("[]", "s")
            m.append("public %s f_%s;\npublic %s P_%s { get { return f_%s; } set { f_%s = value; } }\npublic %s m_%s() { return f_%s; }" % (
                t, n, t, n, n, n, t, n, n))
        return BASE + ["class K\n{\n%s\n}" % "\n".join(m)]

    # -- statements around a statement
    def wrap(self, st, ret=False):
        s = self.s
        for _ in range(s.weighted([(4, 0), (4, 1), (3, 2), (1, 3)])):
            k = s.choice(["if", "else", "for", "while", "do", "case", "default", "try", "catch", "finally", "block", "after", "before"])
            if ret and k in ("finally",):
                k = "if"
            n = self.nm("w")
            s.tag("inside " + k)
            st = {"if": "int %s = 3; if (%s > 2) { %s }", "else": "int %s = 3; if (%s > 2) { } else { %s }",
                  "for": "for (int %s = 0; %s < 2; ) { %s break; }", "while": "int %s = 0; while (%s < 1) { %s break; }",
                  "do": "int %s = 0; do { %s } while (%s < 0);", "case": "int %s = 1; switch (%s) { case 1: { %s } break; default: break; }",
                  "default": "int %s = 1; switch (%s) { case 1: break; default: { %s } break; }",
                  "try": "int %s = 1; try { %s } catch (Exception %se) { }", "catch": "int %s = 1; try { } catch (Exception e%s) { %s }",
                  "finally": "int %s = 1; try { } finally { int e%s = 0; %s }", "block": "int %s = 1; { int b%s = 1; %s }",
                  "after": "int %s = 1; int a%s = 2; { } %s", "before": "int %s = 1; int a%s = 2; %s ;"}[k].replace(
                      "%s", "\0")
            # the names first, the statement where it belongs
            st = fill(st, n, k, self._st)
            self._st = st
        return self._st

    def member(self, pre, pars, st, ret="void", wrap=True, body=None):
        """A method, static or not, of Program or of a class of its own; or a constructor, property accessor."""
        s = self.s
        n = self.nm("U")
        if body is None:
            self._st = pre + st
            body = self.wrap(st, ret != "void") if wrap else pre + st
        if ret != "void" and wrap:
            body += " return %s;" % lit(ret)
        k = s.weighted([(4, "prog"), (2, "cls"), (2, "inst"), (1, "ctor"), (1, "virt"), (1, "gen"), (1, "struct"), (1, "set")])
        if ret != "void" and k in ("ctor", "set"):
            k = "inst"
        p = ", ".join(pars)
        if k == "set" and p:
            k = "inst"
        s.tag("in " + k)
        if k == "prog":
            return Unit(prog=["static %s %s(%s)\n{\n%s\n}" % (ret, n, p, body)])
        if k == "cls":
            return Unit(types=["class C%s\n{\npublic static %s F(%s)\n{\n%s\n}\n}" % (n, ret, p, body)])
        if k == "inst":
            return Unit(types=["class C%s\n{\nint z;\npublic %s F(%s)\n{\n%s\n}\n}" % (n, ret, p, body)])
        if k == "ctor":
            return Unit(types=["class C%s\n{\npublic C%s(%s)\n{\n%s\n}\n}" % (n, n, p, body)])
        if k == "virt":
            return Unit(types=["class C%s\n{\npublic virtual %s F(%s)\n{\n%s\n}\n}" % (n, ret, p, body)])
        if k == "gen":
            return Unit(types=["class C%s<T>\n{\npublic %s F(%s)\n{\n%s\n}\n}" % (n, ret, p, body)])
        if k == "struct":
            return Unit(types=["struct C%s\n{\npublic int z;\npublic %s F(%s)\n{\n%s\n}\n}" % (n, ret, p, body)])
        return Unit(types=["class C%s\n{\npublic int F { get { return 1; } set\n{\n%s\n} }\n}" % (n, body)])

    # -- rules
    def conv(self, ok):
        s = self.s
        for _ in range(60):
            a, b = s.choice(TYPES), s.choice(TYPES)
            if a == b and s.p(70):
                continue
            if (legal if ok else illegal)(a, b):
                break
        else:
            raise Reject()
        pre, pars, prog, x = self.src(a)
        ctx = s.choice(["local", "local2", "sarg", "marg", "carg", "ret", "ret"])
        s.tag("%s conversion in %s" % ("legal" if ok else "fault", ctx))
        h = self.nm("H")
        n = self.nm("y")
        types = []
        other = s.choice(["int", "string", "B"])
        sig, args = "%s p" % b, x
        if s.p(40):                             # among other arguments
            sig, args = s.choice([("%s p, %s o" % (b, other), "%s, %s" % (x, lit(other))),
                                  ("%s o, %s p" % (other, b), "%s, %s" % (lit(other), x))])
        if ctx == "local":
            u = self.member(pre, pars, "%s %s = %s;" % (b, n, x))
        elif ctx == "local2":
            u = self.member(pre, pars, "%s %s = %s, %sb = %s;" % (b, n, lit(b), n, x))
        elif ctx == "sarg":
            prog = prog + ["public static void %s(%s) { }" % (h, sig)]
            u = self.member(pre, pars, "Program.%s(%s);" % (h, args))
        elif ctx == "marg":
            types = ["class %s { public int M(%s) { return 1; } }" % (h, sig)]
            u = self.member(pre, pars, "%s %s = new %s(); %s;" % (h, n, h, "%s.M(%s)" % (n, args)))
        elif ctx == "carg":
            types = ["class %s { public %s(%s) { } }" % (h, h, sig)]
            u = self.member(pre, pars, "%s %s = new %s(%s);" % (h, n, h, args))
        else:
            u = self.member(pre, pars, "return %s;" % x, ret=b)
        u.prog += [p if p.startswith("public") else "public " + p for p in prog]
        u.types += types
        return u

    def oper(self, ok):
        s = self.s
        k = s.choice(["arith", "bit", "shift", "cmp", "logic", "eq", "un"])
        ref = ["object", "A", "S", "int[]", "bool"]
        if ok:
            t = s.choice(["int", "long", "short", "sbyte", "uint", "ulong", "byte", "ushort"])
            a, b = t, t
            if k == "arith":
                op = s.choice("+-*/%")
                if op != "%" and s.p(30):
                    a, b = s.choice([("double", "int"), ("int", "double"), ("float", "float"), ("double", "double"), ("int", "long")])
            elif k == "bit":
                op = s.choice("&|^")
            elif k == "shift":
                op, b = s.choice(["<<", ">>"]), "int"
            elif k == "cmp":
                op = s.choice(["<", ">", "<=", ">="])
            elif k == "logic":
                op, a, b = s.choice(["&&", "||"]), "bool", "bool"
            elif k == "eq":
                op = s.choice(["==", "!="])
                a = b = s.choice([t, "bool"])
            else:
                op, a = s.choice([("-", "int"), ("~", "long"), ("!", "bool"), ("-", "double"), ("~", "uint"), ("+", "int")])
        else:
            num = s.choice(["int", "long", "double", "byte", "uint", "float"])
            if k == "arith":
                op = s.choice("+-*/%")
                a, b = s.choice(ref + (["string"] if op != "+" else [])), s.choice([num, num, s.choice(ref)])
            elif k == "bit":
                op = s.choice("&|^")
                a, b = s.choice([s.choice(["object", "A", "S", "int[]", "string"]), "bool"]), s.choice(["int", "long", "byte", "uint"])
            elif k == "shift":
                op = s.choice(["<<", ">>"])
                a, b = s.choice(ref + ["string", "double", "float"]), s.choice(["int", "int", "byte"])
            elif k == "cmp":
                op = s.choice(["<", ">", "<=", ">="])
                a, b = s.choice(ref + ["string"]), s.choice([num, num, s.choice(ref)])
            elif k == "logic":
                op = s.choice(["&&", "||"])
                a, b = s.choice(["int", "long", "double", "string", "object", "A", "S", "int[]", "byte"]), s.choice(["bool", "bool", "int", "A"])
            elif k == "eq":
                op = s.choice(["==", "!="])
                a, b = s.choice([("int", "bool"), ("int", "string"), ("string", "bool"), ("double", "bool"), ("long", "string")])
            else:
                op, a = s.choice([("-", t) for t in ["bool", "string", "object", "A", "S", "int[]"]] +
                                 [("~", t) for t in ["bool", "string", "object", "A", "S", "int[]"]] +
                                 [("!", t) for t in ["int", "string", "object", "A", "S", "int[]", "double", "long"]])
            if k != "un" and s.p(50):
                a, b = b, a
        pre, pars, prog, x = self.src(a)
        s.tag("%s operator %s" % ("legal" if ok else "fault", k))
        if k == "un":
            e = "%s(%s)" % (op, x)
        else:
            pre2, pars2, prog2, y = self.src(b)
            pre, pars, prog = pre + pre2, pars + pars2, prog + prog2
            e = "(%s) %s (%s)" % (x, op, y)
        u = self.member(pre, pars, "Console.WriteLine(%s);" % e)
        u.prog += ["public " + p for p in prog]
        return u

    def names(self, ok):
        """Names of variables, members, methods and types."""
        s = self.s
        k = s.choice(["var", "member", "method", "smethod", "mmethod", "type", "enum", "istype", "write", "scope", "later", "loop"])
        v, h = self.nm("v"), self.nm("H")
        bad = s.choice([v + "x", v[:-1] if len(v) > 2 else v + "z", v.upper(), v + "_", "q" + v])
        hb = s.choice([h + "x", h.lower(), h + "_"])
        n = v if ok else bad
        m = h if ok else hb
        prog, types = [], []
        pre = "int %s = 3; " % v
        if k == "var":
            st = "Console.WriteLine(%s + 1);" % n
        elif k == "write":
            st = "%s = 4;" % n
        elif k == "member":
            types = ["class %s { public int %s; }" % (h, v)]
            pre, st = "%s o = new %s(); " % (h, h), "Console.WriteLine(o.%s);" % n
        elif k == "mmethod":
            types = ["class %s { public int %s() { return 1; } }" % (h, v)]
            pre, st = "%s o = new %s(); " % (h, h), "Console.WriteLine(o.%s());" % n
        elif k == "smethod":
            types = ["class %s { public static int %s() { return 1; } }" % (h, v)]
            pre, st = "", "Console.WriteLine(%s.%s());" % (h, n)
        elif k == "method":
            prog = ["public static int %s() { return 2; }" % h]
            st = "Console.WriteLine(Program.%s());" % m
        elif k == "type":
            types = ["class %s { }" % h]
            st = "object o = new %s();" % m
        elif k == "istype":
            types = ["class %s { }" % h]
            pre, st = "object o = \"s\"; ", "Console.WriteLine(o is %s);" % m
        elif k == "enum":
            types = ["enum %s { %s, Z }" % (h, v)]
            pre, st = "", "%s o = %s.%s;" % (h, h, n)
        elif k == "scope":
            pre, st = "", "int q%s = 1; { int %s = 2; %s }" % (v, v, "q%s = %s;" % (v, v)) if ok else \
                "int q%s = 1; { int %s = 2; } q%s = %s;" % (v, v, v, v)
        elif k == "loop":
            pre, st = "", "int q%s = 1; for (int %s = 0; %s < 2; %s++) { q%s = %s; }" % (v, v, v, v, v, v) if ok else \
                "int q%s = 1; for (int %s = 0; %s < 2; %s++) { } q%s = %s;" % (v, v, v, v, v, v)
        else:
            a, b = "int %s = 2; " % v, "Console.WriteLine(%s); " % v
            pre, st = "", a + b if ok else b
        s.tag("%s name %s" % ("legal" if ok else "fault", k))
        u = self.member(pre, [], st)
        u.prog += prog
        u.types += types
        return u

    def calls(self, ok):
        s = self.s
        h = self.nm("H")
        ts = [s.choice(["int", "string", "long", "A", "bool", "double"]) for _ in range(s.i(0, 4))]
        refs = [t in ("int", "long") and s.p(25) for t in ts]
        pre, args = "", []
        for k, (t, r) in enumerate(zip(ts, refs)):
            pre += "%s a%s%d = %s; " % (t, h, k, lit(t))
            args.append([r, "a%s%d" % (h, k), t])
        k = s.choice(["static", "inst", "ctor", "base"])
        why = "-"
        if not ok:
            opts = ["more"] + (["fewer"] if ts else []) + (["noref", "wrongref"] if any(refs) else []) + \
                (["swap"] if len(ts) > 1 and ts[0] in ("string", "A") and ts[1] in ("int", "long", "bool", "double") and not any(refs[:2]) else [])
            why = s.choice(opts)
            if why == "more":
                args.insert(s.draw(len(args) + 1), [False, s.choice(["1", "\"t\"", "true"]), ""])
            elif why == "fewer":
                args.pop(s.draw(len(args)))
            elif why == "noref":
                x = s.choice([a for a in args if a[0]])
                x[0] = False
            elif why == "wrongref":
                x = s.choice([a for a in args if a[0]])
                x[1] = "5"
            else:
                args[0], args[1] = args[1], args[0]
        if not args and k in ("ctor", "base"):      # a constructor without parameters always exists (recorded finding)
            k = "static"
        s.tag("%s call %s %s" % ("legal" if ok else "fault", k, why))
        sig = ", ".join("%s%s p%d" % ("ref " if r else "", t, j) for j, (t, r) in enumerate(zip(ts, refs)))
        al = ", ".join(("ref " if r else "") + x for r, x, _ in args)
        if k == "static":
            u = self.member(pre, [], "Program.%s(%s);" % (h, al))
            u.prog.append("public static int %s(%s) { return 1; }" % (h, sig))
        elif k == "inst":
            u = self.member(pre, [], "C%s o = new C%s(); o.F(%s);" % (h, h, al))
            u.types.append("class C%s { public int F(%s) { return 1; } }" % (h, sig))
        elif k == "ctor" or any(refs):
            u = self.member(pre, [], "C%s o = new C%s(%s);" % (h, h, al))
            u.types.append("class C%s { public C%s(%s) { } }" % (h, h, sig))
        else:
            al = ", ".join(lit(t) if t else x for _, x, t in args)
            u = Unit(types=["class C%s { public C%s(%s) { } }" % (h, h, sig), "class D%s : C%s { public D%s() : base(%s) { } }" % (h, h, h, al)])
        return u

    # -- returns: text and whether the end can be reached
    def st(self, d, loop):
        s = self.s
        opts = [(3, "x"), (4, "ret"), (1, "throw")]
        if d > 0:
            opts += [(2, "if"), (6, "ifelse"), (1, "block"), (2, "while"), (1, "for"), (2, "do"), (2, "switch"), (4, "switchd"), (3, "try"),
                     (2, "tryfin"), (2, "forever"), (1, "forever2"), (1, "forever3"), (2, "ifnob")]
        if loop:
            opts += [(2, "break")] + ([(1, "continue")] if loop[2] else [])
        k = s.weighted(opts)
        if k == "x":
            return "a++;", True
        if k == "ret":
            return "return a;", False
        if k == "throw":
            return "throw new Exception(\"e\");", False
        if k in ("break", "continue"):
            if k == "break":
                loop[0] = True
            else:
                loop[1] = True
            return k + ";", False
        c = "a > %d" % s.i(0, 9)
        if k == "if":
            return "if (%s) %s" % (c, self.blk(d - 1, loop)[0]), True
        if k == "ifnob":
            t, e = self.st(0, loop)
            u, f = self.st(0, loop)
            return "if (%s) %s else %s" % (c, t, u), e or f
        if k == "ifelse":
            t, e = self.blk(d - 1, loop)
            u, f = self.blk(d - 1, loop)
            return "if (%s) %s else %s" % (c, t, u), e or f
        if k == "block":
            return self.blk(d - 1, loop)
        i = self.nm("i")
        if k == "while":
            return "while (%s) %s" % (c, self.blk(d - 1, [False, False, True])[0]), True
        if k == "for":
            return "for (int %s = 0; %s < a; %s++) %s" % (i, i, i, self.blk(d - 1, [False, False, True])[0]), True
        if k == "do":
            l = [False, False, True]
            t, e = self.blk(d - 1, l)
            return "do %s while (%s);" % (t, c), e or l[0] or l[1]
        if k in ("forever", "forever2", "forever3"):
            l = [False, False, True]
            t, e = self.blk(d - 1, l)
            f = {"forever": "while (true) %s", "forever2": "for (;;) %s", "forever3": "do %s while (true);"}[k]
            return f % t, l[0]
        if k in ("switch", "switchd"):
            labels = [str(x) for x in s.shuffle(range(6))[:s.i(1, 3)]]
            groups = [["case " + x] for x in labels]
            if k == "switchd":
                groups.insert(s.draw(len(groups) + 1), ["default"])
            out = k == "switch"
            parts = []
            for g in groups:
                l = [False, False, loop is not None and loop[2]]
                t, e = self.blk(d - 1, l if s.p(60) else None)
                if loop is not None:
                    loop[1] = loop[1] or l[1]
                if l[0]:
                    out = True
                if e:
                    t += " break;"
                    out = True
                parts.append("%s: %s" % (g[0], t))
            return "switch (a) { %s }" % " ".join(parts), out
        if k == "try":
            t, e = self.blk(d - 1, loop)
            u, f = self.blk(d - 1, loop)
            fin = s.choice(["", "", " finally { a--; }"])
            return "try %s catch (Exception e%s) %s%s" % (t, i, u, fin), e or f
        t, e = self.blk(d - 1, loop)
        return "try %s finally { a--; }" % t, e

    def blk(self, d, loop):
        out, e = [], True
        for _ in self.s.many(0 if d < 3 and self.s.p(12) else 1, 3):
            t, e = self.st(d, loop)
            out.append(t)
            if not e:
                break
        return "{ %s }" % " ".join(out), e

    def flow(self, ok):
        s = self.s
        for _ in range(30):
            t, e = self.blk(3, None)
            if e != ok:
                break
        else:
            raise Reject()
        s.tag("%s flow" % ("legal" if ok else "fault"))
        return self.member("", ["int a"], "", ret="int", wrap=False, body=t[1:-1].strip())

    def rets(self, ok):
        s = self.s
        k = s.choice(["void", "int"])
        t = s.choice(["int", "string", "bool", "A", "double"])
        s.tag("%s return in %s" % ("legal" if ok else "fault", k))
        if k == "void":
            return self.member("", [], "return;" if ok else "return %s;" % lit(t), wrap=True)
        return self.member("", [], "return %s;" % lit(t) if ok else "return;", ret=t)

    def dups(self, ok):
        s = self.s
        v = self.nm("v")
        w = v if not ok else v + "b"
        t, u = s.choice(["int", "long", "string", "A"]), s.choice(["int", "long", "bool"])
        k = s.choice(["local", "list", "param", "par2"])
        s.tag("%s duplicate %s" % ("legal" if ok else "fault", k))
        if k == "local":
            return self.member("", [], "%s %s = %s; ; %s %s = %s;" % (t, v, lit(t), u, w, lit(u)))
        if k == "list":
            return self.member("", [], "%s %s = %s, %s = %s;" % (t, v, lit(t), w, lit(t)))
        if k == "param":
            return self.member("", ["%s %s" % (t, v)], "%s %s = %s;" % (u, w, lit(u)), wrap=False)
        return self.member("", ["%s %s" % (t, v), "%s %s" % (u, w)], ";")

    def const(self, ok):
        s = self.s
        v = self.nm("v")
        if ok:
            st = "const int %s = %s; Console.WriteLine(%s);" % (v, s.choice(["3", "3 + 4 * 2", "-1", "7 / 2"]), v)
            return self.member("", [], st)
        pre, pars, prog, x = self.src("int")
        u = self.member(pre, pars, "const int %s = %s;" % (v, x))
        u.prog += ["public " + p for p in prog]
        return u

    def unit(self, ok):
        k = self.s.weighted([(8, "conv"), (5, "oper"), (4, "names"), (4, "calls"), (6, "flow"), (1, "rets"), (2, "dups"), (1, "const")])
        return getattr(self, k)(ok)


def fill(tpl, n, k, st):
    """Puts the name and the statement into the places of a template."""
    parts = tpl.split("\0")
    holes = len(parts) - 1
    vals = [n] * holes
    at = {"if": 2, "else": 2, "for": 2, "while": 2, "do": 1, "case": 2, "default": 2, "try": 1}.get(k, 2)
    vals[at] = st
    return "".join(a + b for a, b in zip(parts, vals + [""]))


def gen(s):
    g = G(s)
    units = [g.unit(True) for _ in s.many(4, 14)]
    faults = [g.unit(False) for _ in s.many(0, 4)]
    return case(s, g.base(), units, faults, len(faults) > 0 and len(units) >= 4)
