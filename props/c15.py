"""C15: the System library: console, mathematics, exceptions, arrays."""
import ctypes
import math
from vlib.stmtgen import *

QUICK, THOROUGH = 1200, 15000
RULE = ("each case is a program of 1..4 methods whose expressions call the mathematical functions of every type, nested in each other "
        "and in arithmetic, and whose statements write values of every type with and without line ends, build, throw, catch and "
        "inspect exceptions of the library and of classes derived from it with messages and chains of inner exceptions, and read "
        "array sizes and ticks. Non-trivial: at least 8 library calls are executed")
ASSUME = ["results of the mathematical functions are compared with the C library of this machine, as printed (6 digits)",
          "arguments outside the domain of a function and characters outside ASCII are not generated"]

LIBM = ctypes.CDLL("libm.so.6")


def libm(name, n=1):
    f = getattr(LIBM, name)
    f.restype = ctypes.c_double
    f.argtypes = [ctypes.c_double] * n
    return f


ONE = {n: libm(n.lower()) for n in ("Sqrt", "Sin", "Cos", "Tan", "Sinh", "Cosh", "Tanh", "Asin", "Acos", "Atan", "Asinh", "Acosh",
                                    "Atanh", "Log", "Log10")}
POW = libm("pow", 2)
SIGNED = ["sbyte", "short", "int", "long", "float", "double"]
NUMS = INT_NAMES + ["float", "double"]


class LibCall(E):
    def __init__(self, t, name, args, f):
        self.t, self.name, self.args, self.f = t, name, args, f

    def kids(self):
        return self.args

    def tx(self):
        return "Math.%s(%s)" % (self.name, ", ".join(a.tx() for a in self.args))

    def ev(self, fr):
        vs = [a.ev(fr) for a in self.args]
        fr.m.ev("Math." + self.name)
        r = self.f(*vs)
        if isinstance(r, float) and (r != r or math.isinf(r)):
            raise Undef(self.name)
        return r


def pick(f):
    """The larger or smaller of two values; which of two zeros of different sign it is, is left open."""
    def g(a, b):
        if isinstance(a, float) and a == b == 0 and math.copysign(1, a) != math.copysign(1, b):
            raise Undef("zeros")
        return f(a, b)
    return g


def fabs(v):
    if v == 0 and math.copysign(1, v) < 0:
        raise Undef("zero")
    return abs(v)


def sign(v):
    return (v > 0) - (v < 0)


def small(g, d):
    """A double between -1 and 1."""
    s = g.s
    if d <= 0 or s.p(35):
        return Lit("double", s.i(-64, 64) / 64.0)
    n = s.choice(["Sin", "Cos", "Tanh", "Sign"])
    if n == "Sign":
        return Cast("double", LibCall("int", "Sign", [g.e("double", d - 1)], sign))
    return LibCall("double", n, [mid(g, d - 1)], ONE[n])


def mid(g, d):
    """A double of moderate size."""
    s = g.s
    k = s.draw(4)
    if k == 0 or d <= 0:
        return Lit("double", s.choice([0.0, 0.5, 1.0, 2.0, 3.25, 10.0, 100.5, 0.125, 0.001953125, 7.0, -1.0, -2.5, -10.0]))
    if k == 1:
        return Bin(s.choice("+-*"), small(g, d - 1), mid(g, d - 1))
    if k == 2:
        return Cast("double", g.e(s.choice(["sbyte", "byte"]), d - 1))
    return small(g, d)


def mathcall(g, t, d):
    s = g.s
    if t not in NUMS or not s.p(35):
        return None
    k = s.weighted([(4, "mm"), (3, "abs"), (2, "sign"), (8, "fn")])
    if k == "sign" and t == "int":
        a = s.choice(SIGNED)
        return LibCall("int", "Sign", [g.e(a, d - 1)], sign)
    if k == "fn" and t == "double":
        n = s.choice(sorted(ONE) + ["Pow", "Pow"])
        if n == "Pow":
            if s.p(50):
                return LibCall(t, n, [mid(g, d - 1), Lit("double", float(s.i(0, 6)))], POW)
            return LibCall(t, n, [LibCall(t, "Abs", [mid(g, d - 1)], fabs), Lit("double", s.i(0, 12) / 4.0)], POW)
        if n in ("Sqrt",):
            a = LibCall(t, "Abs", [mid(g, d - 1)], fabs)
        elif n in ("Log", "Log10"):
            a = Bin("+", LibCall(t, "Abs", [mid(g, d - 1)], fabs), Lit(t, s.choice([0.5, 1.0, 2.0])))
        elif n == "Acosh":
            a = Bin("+", LibCall(t, "Abs", [mid(g, d - 1)], fabs), Lit(t, s.choice([1.0, 2.0, 1.5])))
        elif n in ("Asin", "Acos"):
            a = small(g, d - 1)
        elif n == "Atanh":
            a = Bin("*", small(g, d - 1), Lit(t, s.choice([0.5, 0.25, 0.75])))
        elif n in ("Sinh", "Cosh", "Tan"):
            a = Bin("*", small(g, d - 1), Lit(t, s.choice([0.5, 2.0, 5.0])))
        else:
            a = mid(g, d - 1)
        return LibCall(t, n, [a], ONE[n])
    if k == "abs" and t in SIGNED:
        return LibCall(t, "Abs", [g.e(t, d - 1)], (lambda v: wrap(t, abs(v))) if t in INTS else fabs)
    n = s.choice(["Max", "Min"])
    return LibCall(t, n, [g.e(t, d - 1), g.e(t, d - 1)], pick(max if n == "Max" else min))


ESC = [("\\n", "\n"), ("\\t", "\t"), ("\\\\", "\\"), ("\\\"", "\""), ("'", "'"), ("a", "a"), ("Z", "Z"), (" ", " "), ("%d", "%d"),
       ("{0}", "{0}"), ("/*", "/*"), ("//", "//"), ("0", "0"), ("\\r", "\r")]


def text(s, long=False):
    n = s.i(0, 8) if not long else s.i(100, 400)
    ps = [s.choice(ESC) if s.p(40) else (lambda c: (c, c))(chr(97 + s.draw(26))) for _ in range(n)]
    return Lit("string", "".join(p[1] for p in ps), '"%s"' % "".join(p[0] for p in ps))


LIB = {"Exception": None, "SystemException": "Exception", "NullReferenceException": "SystemException",
       "InvalidCastException": "SystemException", "OutOfRangeException": "SystemException"}


class X:
    """A model exception object."""

    def __init__(self, cls, msg, inner):
        self.cls, self.msg, self.inner = cls, msg, inner


class ExcWorld:
    def __init__(self, s):
        self.s = s
        self.base = dict(LIB)
        self.tx = []
        self.ctors = {"Exception": (0, 1, 2)}
        for n in LIB:
            self.ctors.setdefault(n, (0, 1))
        for k in s.many(0, 3):
            b = s.choice(sorted(self.base))
            n = "X%d" % k
            self.base[n] = b
            cs, body = [], []
            for a in (0, 1, 2):
                if a == 0 and s.p(60):
                    cs.append(0)
                    body.append("public %s() { }" % n)
                if a == 1 and 1 in self.ctors[b] and s.p(80):
                    cs.append(1)
                    body.append("public %s(string m) : base(m) { }" % n)
                if a == 2 and 2 in self.ctors[b] and s.p(80):
                    cs.append(2)
                    body.append("public %s(string m, Exception i) : base(m, i) { }" % n)
            if not cs:
                cs.append(0)
                body.append("public %s() { }" % n)
            self.ctors[n] = tuple(cs)
            self.tx.append("class %s : %s\n{\n%s\n}" % (n, b, ind("\n".join(body))))

    def is_a(self, a, b):
        while a is not None:
            if a == b:
                return True
            a = self.base[a]
        return False

    def make(self, vars, d=2):
        """(text, function of the frame giving the object)"""
        s = self.s
        c = s.choice(sorted(self.base))
        a = s.choice(self.ctors[c])
        if a == 0:
            return "new %s()" % c, c, (lambda fr: X(c, None, None))
        m = text(s)
        if a == 1:
            return "new %s(%s)" % (c, m.tx()), c, (lambda fr: X(c, m.v, None))
        if vars and s.p(50):
            n = s.choice(vars)
            return "new %s(%s, %s)" % (c, m.tx(), n), c, (lambda fr: X(c, m.v, fr.slots[n][0]))
        if d <= 0:
            return "new %s(%s, null)" % (c, m.tx()), c, (lambda fr: X(c, m.v, None))
        it, _, f = self.make(vars, d - 1)
        return "new %s(%s, %s)" % (c, m.tx(), it), c, (lambda fr: X(c, m.v, f(fr)))


class Do(S):
    def __init__(self, tx, f, ev=None):
        self.text, self.f, self.e = tx, f, ev

    def tx(self):
        return self.text

    def run(self, fr):
        fr.m.tick()
        if self.e:
            fr.m.ev(self.e)
        self.f(fr)


CHAIN = """static void Chain(Exception e)
{
    while (e != null) {
        Console.Write("<");
        Console.Write(e.Message);
        Console.Write(">");
        e = e.InnerException;
    }
    Console.WriteLine();
}"""


def chain(o):
    r = ""
    while o is not None:
        r += "<%s>" % (o.msg or "")
        o = o.inner
    return r + "\n"


class LG(SG):
    world = None

    def stmt(self, d):
        s, g = self.s, self.g
        k = s.weighted([(10, "sg"), (6, "write"), (5, "exc"), (2, "arr"), (1, "ticks"), (1, "bool")])
        if k == "write":
            j = s.draw(4)
            if j == 0:
                return Do("Console.WriteLine();", lambda fr: fr.m.out.append("\n"), "WriteLine()")
            if j == 1:
                return Print(text(s, s.p(5)), bool(s.draw(2)))
            t = s.choice(self.types + ["string"])
            return Print(g.e(t, 2), s.p(40))
        if k == "bool":
            e = g.leaf("bool")
            if not isinstance(e, Var):
                e = g.lit("bool")
            return Do("Console.WriteLine(%s.ToString());" % e.tx(), lambda fr: fr.m.out.append(fmt("bool", e.ev(fr)) + "\n"), "ToString")
        if k == "ticks":
            e = Lit("long", value(s, "long"))
            n = self.fresh()
            return Do("DateTime %s = new DateTime(%s);\nConsole.WriteLine(%s.Ticks);\nDateTime.SetUtcNow(%s);" % (n, e.tx(), n, n),
                      lambda fr: fr.m.out.append("%d\n%d\n" % (e.v, e.v)), "DateTime")
        if k == "arr":
            r = s.i(1, 3)
            ds = [s.i(1, 5) for _ in range(r)]
            n = self.fresh()
            t = s.choice(["int", "byte", "long", "string", "double"])
            q = s.i(0, r - 1)
            tot = 1
            for x in ds:
                tot *= x
            return Do("%s[%s] %s = new %s[%s];\nConsole.WriteLine(%s.Rank);\nConsole.WriteLine(%s.Length);\nConsole.WriteLine(%s.GetLength(%d));"
                      % (t, "," * (r - 1), n, t, ", ".join(map(str, ds)), n, n, n, q),
                      lambda fr: fr.m.out.append("%d\n%d\n%d\n" % (r, tot, ds[q])), "Array")
        if k == "exc":
            return self.exc(d)
        return SG.stmt(self, d)

    def exc(self, d):
        s, w = self.s, self.world
        vars = [v.name for v in self.g.vars.get("!exc", [])]
        k = s.weighted([(4, "new"), (4, "chain"), (5, "throw"), (2, "sys")])
        if k == "new" or (k == "chain" and not vars):
            tx, c, f = w.make(vars)
            n = self.fresh()
            t = c if s.p(40) else s.choice([b for b in sorted(w.base) if w.is_a(c, b)])
            self.g.add("!exc", n)
            return Do("%s %s = %s;" % (t, n, tx), lambda fr: fr.slots.__setitem__(n, [f(fr)]), "Exception")
        if k == "chain":
            n = s.choice(vars)
            return Do("Chain(%s);" % n, lambda fr: fr.m.out.append(chain(fr.slots[n][0])), "Message")
        if k == "sys":
            n = self.fresh()
            c = s.choice(["OutOfRangeException", "SystemException", "Exception"])
            i = s.choice([3, 4, -1, 100])
            return Do("try {\n    int[] %s = new int[3];\n    %s[%s] = 1;\n    Console.WriteLine(\"none\");\n}\ncatch (%s) {\n    Console.WriteLine(\"range\");\n}"
                      % (n, n, "-1" if i < 0 else i, c), lambda fr: fr.m.out.append("range\n"), "OutOfRange")
        # throw and catch
        if vars and s.p(50):
            n0 = s.choice(vars)
            tx, f, c = n0, (lambda fr: fr.slots[n0][0]), None
        else:
            tx, c, f = w.make(vars)
        cs = []
        for b in s.shuffle(sorted(w.base))[:s.i(0, 3)] + ["Exception"]:
            if b not in cs and not any(w.is_a(b, p) for p in cs):
                cs.append(b)
        n = self.fresh()
        inner = self.fresh()
        pre = s.p(50)

        def run(fr):
            o = f(fr)
            if pre:
                fr.m.out.append("in\n")
            for b in cs:
                if w.is_a(o.cls, b):
                    fr.m.out.append("catch %s\n" % b)
                    fr.m.out.append((o.msg or "") + "\n")
                    fr.m.out.append(chain(o))
                    break
        body = ("    Console.WriteLine(\"in\");\n" if pre else "") + "    throw %s;" % tx
        t = "try {\n%s\n}" % body
        for b in cs:
            t += "\ncatch (%s %s) {\n    Console.WriteLine(\"catch %s\");\n    Console.WriteLine(%s.Message);\n    Chain(%s);\n}" % (b, n, b, n, n)
        return Do(t, run, "throw")


TYPES = ["int", "double", "double", "double", "long", "bool", "float", "sbyte", "byte", "short", "ushort", "uint", "ulong", "char"]


def gen(s):
    w = ExcWorld(s)
    methods, calls = [RawM(CHAIN)], []
    for k in s.many(1, 4, 80):
        ret = s.choice(["void", "double", "int", "float", "sbyte"])
        sg = LG(s, funcs=[m for m in methods if not isinstance(m, RawM) and m.ret != "void"], ret=ret, types=TYPES, exprdepth=3,
                use_float=True, extra=mathcall, weights=dict(if_=3, for_=2, while_=1, do_=1, decl=6, print=12, ret=1, brk=1, cont=1))
        sg.world = w
        ps = []
        for j in range(s.i(0, 3)):
            t = s.choice(TYPES)
            n = sg.fresh()
            sg.g.add(t, n)
            ps.append(Param(t, n))
        body = sg.stmts(2, 1, 8)
        if ret != "void":
            body.append(Return(sg.g.e(ret, 3), ret))
        m = Method("F%d" % k, ret, ps, body)
        methods.append(m)
        for _ in s.many(1, 3, 60):
            c = Call(m, [Arg(Lit(p.t, value(s, p.t))) for p in ps])
            calls.append(Ex(c) if ret == "void" else Print(c))
    tx, out, mc = program(methods, calls, "\n\n".join(w.tx))
    n = sum(mc.events.values())
    for k in mc.events:
        s.tag(k, mc.events[k])
    return run_case(tx, out, units=n, nontrivial=n >= 8)


class RawM:
    def __init__(self, t):
        self.t = t

    def tx(self):
        return self.t
