"""A reference model of the language: typed nodes that print themselves as source text and
evaluate themselves in Python. Nothing here is derived from the implementation at run time."""
import math
import struct

INTS = {"sbyte": (8, True), "byte": (8, False), "short": (16, True), "ushort": (16, False),
        "int": (32, True), "uint": (32, False), "long": (64, True), "ulong": (64, False)}
INT_NAMES = ["int", "long", "uint", "ulong", "short", "byte", "sbyte", "ushort"]
WIDE = ["int", "long", "uint", "ulong"]


class Undef(Exception):
    """The program leaves the defined part of the language (the case is discarded)."""


class StepLimit(Undef):
    pass


def lo(t):
    b, s = INTS[t]
    return -(1 << (b - 1)) if s else 0


def hi(t):
    b, s = INTS[t]
    return (1 << (b - 1)) - 1 if s else (1 << b) - 1


def wrap(t, v):
    b, s = INTS[t]
    v &= (1 << b) - 1
    if s and v >> (b - 1):
        v -= 1 << b
    return v


def f32(v):
    try:
        return struct.unpack("<f", struct.pack("<f", v))[0]
    except OverflowError:
        return math.copysign(math.inf, v)


def promote(a, b):
    """The common type of the operands of an arithmetic operator."""
    if a == "double" or b == "double":
        return "double"
    if a == "float" or b == "float":
        return "float"
    if a == "ulong" or b == "ulong":
        return "ulong"
    if a == "long" or b == "long":
        return "long"
    if a == "uint" or b == "uint":
        o = b if a == "uint" else a
        if o == "uint" or not INTS[o][1]:
            return "uint"
        return "long"
    return "int"


def is_int(t):
    return isinstance(t, str) and t in INTS


def is_num(t):
    return is_int(t) or t in ("float", "double")


def conv(t, v, src=None):
    """The value v (of a numeric or char type) converted to type t."""
    if t in INTS:
        if isinstance(v, float):
            if v != v or math.isinf(v):
                raise Undef("nan to int")
            v = int(v)
            if not (lo(t) <= v <= hi(t)):
                raise Undef("float out of range")
            return v
        return wrap(t, v)
    if t == "double":
        return float(v)
    if t == "float":
        return f32(float(v)) if not isinstance(v, int) else int_to_f32(v)
    if t == "char":
        if isinstance(v, float):
            raise Undef("float to char")
        return v & 0xFFFF
    if t == "bool":
        return bool(v)
    raise Undef(t)


def int_to_f32(v):
    # correctly rounded (the double step would round twice above 2**53)
    if abs(v) < (1 << 53):
        return f32(float(v))
    import fractions
    # round to nearest even at 24 bits
    sign, m = (-1, -v) if v < 0 else (1, v)
    sh = m.bit_length() - 24
    q, r = divmod(m, 1 << sh)
    half = 1 << (sh - 1)
    if r > half or (r == half and q & 1):
        q += 1
    return sign * float(q << sh)


def arith(op, t, a, b):
    """a op b, both already of the common type t."""
    if t in INTS:
        if op == "+":
            return wrap(t, a + b)
        if op == "-":
            return wrap(t, a - b)
        if op == "*":
            return wrap(t, a * b)
        if op in "/%":
            if b == 0:
                raise Undef("division by zero")
            if INTS[t][1] and b == -1 and a == lo(t):
                raise Undef("overflowing division")
            q = abs(a) // abs(b)
            if (a < 0) != (b < 0):
                q = -q
            return q if op == "/" else a - q * b
        if op == "&":
            return wrap(t, a & b)
        if op == "|":
            return wrap(t, a | b)
        if op == "^":
            return wrap(t, a ^ b)
        if op in ("<<", ">>"):
            if not (0 <= b < INTS[t][0]):
                raise Undef("shift count")
            return wrap(t, a << b) if op == "<<" else a >> b
    else:
        if op == "+":
            r = a + b
        elif op == "-":
            r = a - b
        elif op == "*":
            r = a * b
        elif op == "/":
            if b == 0:
                raise Undef("float division by zero")
            r = a / b
        else:
            raise Undef(op)
        if t == "float":
            r = f32(r)
        if r != r or math.isinf(r):
            raise Undef("float overflow")
        return r
    raise Undef(op)


def compare(op, a, b):
    return {"<": a < b, ">": a > b, "<=": a <= b, ">=": a >= b, "==": a == b, "!=": a != b}[op]


def fmt(t, v):
    """What Console.Write prints for a value of a primitive type."""
    if t in INTS:
        return str(v)
    if t in ("float", "double"):
        return fmt_g(v)
    if t == "bool":
        return "True" if v else "False"
    if t == "char":
        return chr(v)
    if t == "string":
        return v or ""
    raise Undef("print " + str(t))


def fmt_g(v):
    return "%g" % v


PREC = {"*": 13, "/": 13, "%": 13, "+": 12, "-": 12, "<<": 11, ">>": 11, "<": 10, ">": 10,
        "<=": 10, ">=": 10, "is": 10, "as": 10, "==": 9, "!=": 9, "&": 8, "^": 7, "|": 6,
        "&&": 5, "||": 4, "??": 3}


class Frame:
    """An activation: local slots (lists, so that ref arguments can alias them)."""
    __slots__ = ("slots", "this", "m")

    def __init__(self, m, this=None):
        self.slots = {}
        self.this = this
        self.m = m


class Machine:
    """Output and step accounting of one run."""

    def __init__(self, limit=20000):
        self.out = []
        self.steps = 0
        self.limit = limit
        self.depth = 0
        self.events = {}

    def tick(self):
        self.steps += 1
        if self.steps > self.limit:
            raise StepLimit()

    def ev(self, k):
        self.events[k] = self.events.get(k, 0) + 1


# ---------------------------------------------------------------- expressions

class E:
    t = None
    prec = 15

    def kids(self):
        return []


class Lit(E):
    def __init__(self, t, v, text=None):
        self.t, self.v = t, v
        self.text = text if text is not None else lit_text(t, v)
        s = self.text
        self.prec = 14 if s[0] in "-(" else 15

    def tx(self):
        return self.text

    def ev(self, fr):
        return self.v


def char_text(v):
    m = {10: "\\n", 13: "\\r", 9: "\\t", 39: "\\'", 34: "\\\"", 92: "\\\\", 0: "\\0"}
    return m.get(v, chr(v))


def str_text(s):
    return '"' + "".join(c if c == "'" else char_text(ord(c)) for c in s) + '"'


def lit_text(t, v):
    if t == "int":
        return str(v)
    if t == "long":
        return "%dL" % v
    if t == "uint":
        return "%dU" % v
    if t == "ulong":
        return "%dUL" % v
    if t in INTS:
        return "(%s)%s" % (t, v if v >= 0 else "(%d)" % v)
    if t == "bool":
        return "true" if v else "false"
    if t == "char":
        return "'%s'" % char_text(v)
    if t == "string":
        return str_text(v)
    if t in ("double", "float"):
        return ("%s" % dec_text(v)) + ("f" if t == "float" else "")
    raise ValueError(t)


def dec_text(v):
    s = repr(float(v))
    if "e" in s or "inf" in s or "nan" in s:
        s = "%.20f" % v
        s = s.rstrip("0")
        if s.endswith("."):
            s += "0"
    return s


def sub(e, minprec):
    s = e.tx()
    return "(%s)" % s if e.prec < minprec else s


class Paren(E):
    def __init__(self, e):
        self.e, self.t = e, e.t

    def tx(self):
        return "(%s)" % self.e.tx()

    def ev(self, fr):
        return self.e.ev(fr)


class Var(E):
    """A local variable, a parameter, or (by alias) a ref/out parameter."""

    def __init__(self, t, name):
        self.t, self.name = t, name

    def tx(self):
        return self.name

    def ev(self, fr):
        v = fr.slots[self.name][0]
        return v

    def loc(self, fr):
        s = fr.slots[self.name]
        return (lambda: s[0]), (lambda v: s.__setitem__(0, v))


class Bin(E):
    def __init__(self, op, a, b):
        self.op, self.a, self.b = op, a, b
        self.prec = PREC[op]
        if op in ("<", ">", "<=", ">=", "==", "!=", "&&", "||"):
            self.t = "bool"
        else:
            self.t = promote(a.t, b.t)

    def tx(self):
        p = self.prec
        b = sub(self.b, p + 1)
        if self.op == "<" and ">" in b and b[0] != "(":
            b = "(%s)" % b          # a < b > (c) reads as a generic name
        return "%s %s %s" % (sub(self.a, p), self.op, b)

    def ev(self, fr):
        fr.m.tick()
        op = self.op
        if op == "&&":
            return bool(self.a.ev(fr) and self.b.ev(fr))
        if op == "||":
            return bool(self.a.ev(fr) or self.b.ev(fr))
        x = self.a.ev(fr)
        y = self.b.ev(fr)
        if self.t == "bool":
            if is_num(self.a.t) and is_num(self.b.t):
                c = promote(self.a.t, self.b.t)
                x, y = conv(c, x), conv(c, y)
            elif not (self.a.t in ("bool", "char")):
                return (x is y) if op == "==" else (x is not y)
            return compare(op, x, y)
        if op in ("<<", ">>"):
            return shift(op, self.a.t, self.t, x, y)
        return arith(op, self.t, conv(self.t, x), conv(self.t, y))


def shift(op, lt, t, x, n):
    """Shifts are computed in the promoted type of the left operand."""
    lt = lt if lt in WIDE else "int"
    return conv(t, arith(op, lt, conv(lt, x), n))


class Un(E):
    prec = 14

    def __init__(self, op, a):
        self.op, self.a = op, a
        if op == "!":
            self.t = "bool"
        elif is_int(a.t):
            self.t = a.t if a.t in WIDE else "int"
        else:
            self.t = a.t

    def tx(self):
        s = sub(self.a, 14)
        if s[0] in "+-~!" or self.a.prec == 14:
            s = "(%s)" % s
        return self.op + s

    def ev(self, fr):
        fr.m.tick()
        v = self.a.ev(fr)
        if self.op == "!":
            return not v
        if self.op == "+":
            return conv(self.t, v)
        if self.op == "-":
            return wrap(self.t, -v) if is_int(self.t) else -v
        return wrap(self.t, ~v)


def has_index(e):
    """e is a postfix expression with an index in its path."""
    while e is not None and not isinstance(e, Paren):
        if hasattr(e, "idx"):
            return True
        e = getattr(e, "obj", None) or getattr(e, "target", None) or getattr(e, "arr", None)
        if not isinstance(e, E):
            return False
    return False


class Cast(E):
    prec = 14

    def __init__(self, t, a):
        self.t, self.a = t, a

    def tx(self):
        s = sub(self.a, 15)
        if isinstance(self.a, IncDec) or has_index(self.a):
            s = "(%s)" % s                  # (T)x++ and (T)a[i] are not accepted (recorded findings)
        return "(%s)%s" % (self.t, s)

    def ev(self, fr):
        fr.m.tick()
        return conv(self.t, self.a.ev(fr))


class Cond(E):
    prec = 2

    def __init__(self, c, a, b):
        self.c, self.a, self.b = c, a, b
        self.t = a.t

    def tx(self):
        return "%s ? %s : %s" % (sub(self.c, 3), sub(self.a, 3), sub(self.b, 2))

    def ev(self, fr):
        fr.m.tick()
        return self.a.ev(fr) if self.c.ev(fr) else self.b.ev(fr)


class Assign(E):
    """lv = e, or lv op= e; the value is the stored one."""
    prec = 1

    def __init__(self, lv, op, e):
        self.lv, self.op, self.e = lv, op, e
        self.t = lv.t

    def tx(self):
        return "%s %s= %s" % (self.lv.tx(), self.op, sub(self.e, 1))

    def ev(self, fr):
        fr.m.tick()
        recv = getattr(self.lv, "obj", None)
        if not pure(recv):
            recv = None
        before = recv.ev(fr) if recv is not None else None
        get, put = self.lv.loc(fr)
        if self.op == "":
            v = self.e.ev(fr)
            if is_num(self.t) and is_num(self.e.t):
                v = conv(self.t, v)
            v = copy_val(v)
        else:
            old = get()
            y = self.e.ev(fr)
            c = promote(self.t, self.e.t)
            if self.op in ("<<", ">>"):
                v = conv(self.t, shift(self.op, self.t, c, old, y))
            else:
                v = conv(self.t, arith(self.op, c, conv(c, old), conv(c, y)))
        if recv is not None and recv.ev(fr) is not before:
            raise Undef("the right-hand side changes the receiver")
        put(v)
        return v


def pure(e):
    """A variable, or a field of one."""
    return isinstance(e, Var) or (type(e).__name__ == "Fld" and pure(e.obj))


class IncDec(E):
    prec = 14

    def __init__(self, lv, op, prefix):
        self.lv, self.op, self.prefix = lv, op, prefix
        self.t = lv.t
        self.prec = 14 if prefix else 15

    def tx(self):
        return self.op + self.lv.tx() if self.prefix else self.lv.tx() + self.op

    def ev(self, fr):
        fr.m.tick()
        get, put = self.lv.loc(fr)
        old = get()
        d = 1 if self.op == "++" else -1
        new = wrap(self.t, old + d) if is_int(self.t) else conv(self.t, old + d)
        put(new)
        return new if self.prefix else old


class Arg:
    """An actual argument: mode '', 'ref' or 'out'; optional name."""

    def __init__(self, e, mode="", name=None):
        self.e, self.mode, self.name = e, mode, name

    def tx(self):
        s = self.e.tx()
        if self.mode:
            s = self.mode + " " + s
        elif "<" in s and ">" in s:
            s = "(%s)" % s
        return "%s: %s" % (self.name, s) if self.name else s


class Call(E):
    """Call of a Method; target None (static, unqualified), a class name or an expression."""

    def __init__(self, method, args, target=None, virtual=False):
        self.method, self.args, self.target = method, args, target
        self.t = method.ret

    def tx(self):
        a = ", ".join(x.tx() for x in self.args)
        if self.target is None:
            return "%s(%s)" % (self.method.name, a)
        t = self.target if isinstance(self.target, str) else sub(self.target, 15)
        return "%s.%s(%s)" % (t, self.method.name, a)

    def ev(self, fr):
        fr.m.tick()
        this = None
        m = self.method
        if self.target is not None and not isinstance(self.target, str):
            this = self.target.ev(fr)
            m = m.resolve(this)
        vals = []
        for k, x in enumerate(self.args):
            p = m.params[k] if x.name is None else [q for q in m.params if q.name == x.name][0]
            if x.mode:
                vals.append((p, fr.slots[x.e.name]))
            else:
                v = x.e.ev(fr)
                if is_num(p.t) and is_num(x.e.t):
                    v = conv(p.t, v)
                vals.append((p, [copy_val(v)]))
        return m.invoke(fr.m, this, vals)


class Raw(E):
    """Text with a Python function as its meaning."""

    def __init__(self, t, text, fn, prec=15):
        self.t, self.text, self.fn, self.prec = t, text, fn, prec

    def tx(self):
        return self.text

    def ev(self, fr):
        fr.m.tick()
        return self.fn(fr)


class StructVal:
    __slots__ = ("ty", "f")

    def __init__(self, ty, f):
        self.ty, self.f = ty, f

    def copy(self):
        return StructVal(self.ty, {k: copy_val(v) for k, v in self.f.items()})


def copy_val(v):
    return v.copy() if isinstance(v, StructVal) else v


def kids(e):
    return [x for x in (getattr(e, a, None) for a in ("a", "b", "c", "e", "lv")) if isinstance(x, E)] \
        + [x.e for x in getattr(e, "args", [])]


def depth(e):
    return 1 + max([depth(k) for k in kids(e)] or [0]) if kids(e) else 0


def types_of(e):
    r = {e.t} if isinstance(e.t, str) and e.t in INTS else set()
    for k in kids(e):
        r |= types_of(k)
    return r


# ---------------------------------------------------------------- control signals

class BreakX(Exception):
    pass


class ContinueX(Exception):
    pass


class ReturnX(Exception):
    def __init__(self, v):
        self.v = v


class ThrowX(Exception):
    """An exception object of the modelled program in flight."""

    def __init__(self, obj):
        self.obj = obj


# ---------------------------------------------------------------- statements

def ind(s, n=1):
    pad = "    " * n
    return "\n".join(pad + x if x else x for x in s.split("\n"))


class S:
    def tx(self):
        raise NotImplementedError


class Decl(S):
    def __init__(self, t, name, e=None, tname=None):
        self.t, self.name, self.e, self.tname = t, name, e, tname or t

    def tx(self):
        if self.e is None:
            return "%s %s;" % (self.tname, self.name)
        return "%s %s = %s;" % (self.tname, self.name, self.e.tx())

    def run(self, fr):
        fr.m.tick()
        v = None
        if self.e is not None:
            v = self.e.ev(fr)
            if is_num(self.t) and is_num(self.e.t):
                v = conv(self.t, v)
        fr.slots[self.name] = [copy_val(v)]


class Ex(S):
    def __init__(self, e):
        self.e = e

    def tx(self):
        return self.e.tx() + ";"

    def run(self, fr):
        self.e.ev(fr)


class Print(S):
    """Console.WriteLine / Write of one expression of a primitive type."""

    def __init__(self, e, line=True):
        self.e, self.line = e, line

    def tx(self):
        return "Console.Write%s(%s);" % ("Line" if self.line else "", Arg(self.e).tx())

    def run(self, fr):
        fr.m.tick()
        v = self.e.ev(fr)
        s = fmt(self.e.t, v)
        if self.line:
            s += "\r\n" if self.e.t == "bool" else "\n"
        fr.m.out.append(s)


class Blk(S):
    def __init__(self, ss):
        self.ss = ss

    def tx(self):
        if not self.ss:
            return "{\n}"
        return "{\n" + ind("\n".join(s.tx() for s in self.ss)) + "\n}"

    def run(self, fr):
        fr.m.tick()
        for s in self.ss:
            s.run(fr)


def body(s):
    """A statement as the body of a compound statement."""
    return " " + s.tx() if isinstance(s, Blk) else "\n" + ind(s.tx())


class If(S):
    def __init__(self, c, a, b=None):
        self.c, self.a, self.b = c, a, b

    def tx(self):
        s = "if (%s)%s" % (self.c.tx(), body(self.a))
        if self.b is not None:
            s += "\nelse" + (" " + self.b.tx() if isinstance(self.b, If) else body(self.b))
        return s

    def run(self, fr):
        fr.m.tick()
        if self.c.ev(fr):
            self.a.run(fr)
        elif self.b is not None:
            self.b.run(fr)


class While(S):
    def __init__(self, c, b):
        self.c, self.b = c, b

    def tx(self):
        return "while (%s)%s" % (self.c.tx(), body(self.b))

    def run(self, fr):
        while self.c.ev(fr):
            fr.m.tick()
            try:
                self.b.run(fr)
            except BreakX:
                break
            except ContinueX:
                continue


class DoWhile(S):
    def __init__(self, c, b):
        self.c, self.b = c, b

    def tx(self):
        return "do%s\nwhile (%s);" % (body(self.b), self.c.tx())

    def run(self, fr):
        while True:
            fr.m.tick()
            try:
                self.b.run(fr)
            except BreakX:
                break
            except ContinueX:
                pass
            if not self.c.ev(fr):
                break


class For(S):
    def __init__(self, init, c, step, b):
        self.init, self.c, self.step, self.b = init, c, step, b

    def tx(self):
        i = self.init.tx() if self.init else ";"
        return "for (%s %s; %s)%s" % (i, self.c.tx() if self.c else "",
                                      self.step.tx() if self.step else "", body(self.b))

    def run(self, fr):
        if self.init:
            self.init.run(fr)
        while self.c is None or self.c.ev(fr):
            fr.m.tick()
            try:
                self.b.run(fr)
            except BreakX:
                break
            except ContinueX:
                pass
            if self.step:
                self.step.ev(fr)


class Break(S):
    def tx(self):
        return "break;"

    def run(self, fr):
        raise BreakX()


class Continue(S):
    def tx(self):
        return "continue;"

    def run(self, fr):
        raise ContinueX()


class Return(S):
    def __init__(self, e=None, t=None):
        self.e, self.t = e, t

    def tx(self):
        return "return;" if self.e is None else "return %s;" % self.e.tx()

    def run(self, fr):
        v = None
        if self.e is not None:
            v = self.e.ev(fr)
            if self.t and is_num(self.t) and is_num(self.e.t):
                v = conv(self.t, v)
            v = copy_val(v)
        raise ReturnX(v)


class Switch(S):
    """cases: list of (labels, statements); a label is a Lit or None (default)."""

    def __init__(self, e, cases):
        self.e, self.cases = e, cases

    def tx(self):
        out = []
        for labels, ss in self.cases:
            for l in labels:
                out.append("default:" if l is None else "case %s:" % l.tx())
            for s in ss:
                out.append(ind(s.tx()))
        return "switch (%s)\n{\n%s\n}" % (self.e.tx(), ind("\n".join(out)))

    def run(self, fr):
        fr.m.tick()
        v = self.e.ev(fr)
        start = None
        for k, (labels, _) in enumerate(self.cases):
            if any(l is not None and l.ev(fr) == v for l in labels):
                start = k
        if start is None:
            for k, (labels, _) in enumerate(self.cases):
                if any(l is None for l in labels):
                    start = k
                    fr.m.ev("switch default")
        else:
            fr.m.ev("switch hit")
        if start is None:
            fr.m.ev("switch none")
            return
        try:
            for _, ss in self.cases[start:]:
                for s in ss:
                    s.run(fr)
        except BreakX:
            pass


class Throw(S):
    """throw new C(...): cls is an ExcClass, e the constructor argument (or None)."""

    def __init__(self, cls, args=(), rethrow_var=None):
        self.cls, self.args, self.rv = cls, args, rethrow_var

    def tx(self):
        if self.rv:
            return "throw %s;" % self.rv
        return "throw new %s(%s);" % (self.cls.name, ", ".join(a.tx() for a in self.args))

    def run(self, fr):
        fr.m.tick()
        fr.m.ev("throw")
        if self.rv:
            raise ThrowX(fr.slots[self.rv][0])
        raise ThrowX(ExcObj(self.cls, [a.ev(fr) for a in self.args]))


class ExcClass:
    def __init__(self, name, base=None):
        self.name, self.base = name, base

    def is_a(self, o):
        c = self
        while c is not None:
            if c is o:
                return True
            c = c.base
        return False


class ExcObj:
    def __init__(self, cls, args):
        self.cls, self.args = cls, args


class Try(S):
    """catches: [(ExcClass, varname or None, [stmts])], fin: [stmts] or None."""

    def __init__(self, b, catches, fin):
        self.b, self.catches, self.fin = b, catches, fin

    def tx(self):
        s = "try " + Blk(self.b).tx()
        for c, v, ss in self.catches:
            s += "\ncatch (%s%s) " % (c.name, " " + v if v else "") + Blk(ss).tx()
        if self.fin is not None:
            s += "\nfinally " + Blk(self.fin).tx()
        return s

    def run(self, fr):
        fr.m.tick()
        try:
            try:
                for s in self.b:
                    s.run(fr)
            except ThrowX as x:
                for c, v, ss in self.catches:
                    if x.obj.cls.is_a(c):
                        fr.m.ev("catch")
                        if v:
                            fr.slots[v] = [x.obj]
                        for s in ss:
                            s.run(fr)
                        break
                else:
                    raise
        except (BreakX, ContinueX, ReturnX, ThrowX):
            if self.fin is not None:
                fr.m.ev("finally on exit")
                for s in self.fin:
                    s.run(fr)
            raise
        else:
            if self.fin is not None:
                for s in self.fin:
                    s.run(fr)


class RawS(S):
    def __init__(self, text, fn=None):
        self.text, self.fn = text, fn

    def tx(self):
        return self.text

    def run(self, fr):
        fr.m.tick()
        if self.fn:
            self.fn(fr)


# ---------------------------------------------------------------- methods

class Param:
    def __init__(self, t, name, mode=""):
        self.t, self.name, self.mode = t, name, mode

    def tx(self):
        return "%s%s %s" % (self.mode + " " if self.mode else "", self.t, self.name)


class Method:
    def __init__(self, name, ret, params, body=None, mods="static"):
        self.name, self.ret, self.params, self.body, self.mods = name, ret, params, body, mods

    def head(self):
        return "%s %s %s(%s)" % (self.mods, self.ret, self.name,
                                 ", ".join(p.tx() for p in self.params))

    def tx(self):
        return self.head() + "\n" + Blk(self.body).tx()

    def resolve(self, this):
        return self

    def invoke(self, m, this, vals):
        m.tick()
        m.depth += 1
        if m.depth > 60:
            raise StepLimit()
        fr = Frame(m, this)
        for p, slot in vals:
            fr.slots[p.name] = slot
        try:
            for s in self.body:
                s.run(fr)
        except ReturnX as r:
            return r.v
        finally:
            m.depth -= 1
        if self.ret != "void":
            raise Undef("no return")
        return None


LAST = []           # the parts of the last program, for properties that split programs into assemblies


def source(members, main, types="", usings=""):
    """A whole program."""
    LAST[:] = [members, main, types, usings]
    return ("import System;\nusing System;\n%s\nclass Program\n{\n    [EntryPoint]\n"
            "    public static void Main()\n    {\n%s\n    }\n\n%s\n}\n\n%s\n" % (
                usings, ind(main, 2), ind(members), types))


def run_case(text, out, **kw):
    c = {"files": {"P/a.cs": text},
         "steps": [{"argv": ["@april", "run", "P/a.cs", "@sys"], "rc": 0, "out": out}]}
    c.update(kw)
    return c
