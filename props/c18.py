"""C18: a literal denotes the value and type of its notation; a malformed one is refused."""
import math
import struct
from fractions import Fraction
from vlib.engine import Reject
from vlib.lang import run_case, fmt_g

QUICK, THOROUGH = 1300, 15000
RULE = ("a case is a program of 3 to 25 literals: decimal, hexadecimal, binary and octal integers of 1 to 64 bits with digit separators "
        "and suffixes, decimal floating point numbers of up to 25 digits and any exponent, characters and strings of printable "
        "characters and all escapes, verbatim strings of any text; each printed directly, or after going through a variable, "
        "argument, constant, field, array element, cast or boxing, its type observed by overload resolution, and floating values compared with "
        "the exactly computed nearest value; or, in 20 % of cases, a program with one malformed literal, which has to be refused "
        "with a diagnostic, without running. Non-trivial: at least 3 notations occur, or the program is malformed")
ASSUME = ["the back quote is not generated: with < or > it delimits sections in another language, wherever it stands",
          "0x and 0b without digits are not generated (accepted as 0, recorded finding)",
          "the nearest double or float of a decimal literal is computed with exact rationals"]

ESC = {"\n": "\\n", "\t": "\\t", "\\": "\\\\", '"': '\\"', "'": "\\'", "\r": "\\r", "\a": "\\a", "\b": "\\b", "\f": "\\f", "\v": "\\v"}
TYPES = ["int", "uint", "long", "ulong", "float", "double", "char", "bool", "string"]


def seps(s, digits):
    """Digit separators between digits."""
    if not s.p(25):
        return digits
    out = digits[0]
    for d in digits[1:]:
        if s.p(30):
            out += "'"
        out += d
    return out


def intval(s):
    k = s.draw(4)
    if k == 0:
        return s.i(0, 20)
    if k == 1:
        b = s.choice([7, 8, 15, 16, 31, 32, 33, 40, 53, 62, 63, 64])
        return max(0, min(2 ** 64 - 1, 2 ** b + s.i(-2, 2)))
    if k == 2:
        return 10 ** s.i(0, 19) + s.i(-1, 1)
    return s.draw(2 ** s.i(1, 64))


def casing(s, t):
    return "".join(c.upper() if s.p(50) else c.lower() for c in t)


def integer(s):
    """(text, value, type or None)"""
    v = intval(s)
    base = s.weighted([(5, 10), (3, 16), (2, 2), (2, 8)])
    suf = s.weighted([(6, ""), (1, "U"), (1, "L"), (1, "UL"), (1, "LU")])
    if base == 10:
        tx = seps(s, str(v))
    elif base == 16:
        tx = s.choice(["0x", "0X"]) + seps(s, "0" * s.i(0, 2) + casing(s, "%x" % v))
    elif base == 2:
        tx = s.choice(["0b", "0B"]) + seps(s, bin(v)[2:])
    else:
        tx = "0" + seps(s, "%o" % v)
    s.tag("base %d" % base)
    t = None
    if base == 10 or v > 2 ** 63 - 1:
        if suf == "":
            t = "int" if v < 2 ** 31 else "long" if v < 2 ** 63 else "ulong"
        elif suf == "U":
            t = "uint" if v < 2 ** 32 else "ulong"
        elif suf == "L":
            t = "long" if v < 2 ** 63 else "ulong"
        else:
            t = "ulong"
    return tx + casing(s, suf), v, t


def digits(s, lo, hi):
    return "".join(s.choice("0123456789") for _ in range(s.i(lo, hi)))


def nearest(x, single):
    if x == 0:
        return 0.0
    d = float(x)            # correctly rounded
    if not single:
        return d
    # round the rational itself, not the double
    try:
        a = struct.unpack("<f", struct.pack("<f", d))[0]
    except OverflowError:
        return math.inf
    cands = [a]
    bits = struct.unpack("<I", struct.pack("<f", a))[0]
    for b in (bits - 1, bits + 1):
        if 0 <= b < 0x7F800000:
            cands.append(struct.unpack("<f", struct.pack("<I", b))[0])
    best = min(cands, key=lambda c: (abs(Fraction(c) - x), struct.unpack("<I", struct.pack("<f", c))[0] & 1))
    return best


def floating(s):
    """(text, value, type)"""
    single = s.p(40)
    ip = s.choice(["0", "1", "7", "10", "123456789", "9007199254740993", "16777217"]) if s.p(50) else str(int(digits(s, 1, 20)))
    fp = digits(s, 1, 20) if s.p(70) else ""
    ex = None
    if s.p(50):
        hi = 38 if single else 300
        ex = s.i(-(hi + 12), max(0, hi - len(ip)))
    x = Fraction(int(ip + fp), 10 ** len(fp)) * (Fraction(10) ** (ex or 0))
    if fp == "" and ex is None and not single:
        tx = seps(s, ip) + "."
    else:
        tx = seps(s, ip) + ("." + seps(s, fp) if fp else "")
    if ex is not None:
        tx += s.choice("eE") + (s.choice(["", "+"]) if ex >= 0 else "-") + str(abs(ex))
    try:
        v = nearest(x, single)
    except OverflowError:
        raise Reject()
    if math.isinf(v):
        raise Reject()
    s.tag("exponent" if ex is not None else "float")
    return tx + (s.choice("fF") if single else ""), v, "float" if single else "double"


PRINT = [chr(c) for c in range(32, 127) if c != 96]       # <` and `> delimit sections of another language, anywhere


def chars(s, n):
    out = []
    for _ in range(n):
        out.append(s.choice(list(ESC)) if s.p(25) else s.choice(PRINT))
    return "".join(out)


def esc(s, t, q):
    r = ""
    for c in t:
        if c in "'\"" and c != q:
            r += ESC[c] if s.p(50) else c
        else:
            r += ESC.get(c, c)
    return r


def string(s):
    n = s.weighted([(1, 0), (4, s.i(1, 8)), (4, s.i(5, 40)), (1, s.i(100, 600))])
    k = s.draw(4)
    if k == 0:
        t = chars(s, n).replace("\r", "").replace("\b", "").replace("\f", "").replace("\v", "").replace("\a", "")
        s.tag("verbatim")
        return '@"%s"' % t.replace('"', '""'), t
    if k == 1:
        t = s.choice(["//", "/* x */", "*/", "'", "0x", "{", "}", ";", " ", "%d%s%1%", "$D", "@", "\\", "#if", "a//b"]) * s.i(1, 3)
    else:
        t = chars(s, n)
    s.tag("string")
    return '"%s"' % esc(s, t, '"'), t


def char(s):
    c = s.choice(list(ESC)) if s.p(40) else s.choice(PRINT)
    s.tag("char")
    return "'%s'" % esc(s, c, "'"), ord(c)


def exact(v, single):
    """A call that computes the value from an integer and a power of two."""
    if v == 0:
        return "X%s(0L, 0)" % ("f" if single else "d")
    m, e = math.frexp(v)
    m, e = int(m * 2 ** 53), e - 53
    while m % 2 == 0:
        m, e = m // 2, e + 1
    return "X%s(%dL, %d)" % ("f" if single else "d", m, e)


def helpers():
    ms = []
    for t, n, one, half in (("float", "Xf", "2f", "0.5f"), ("double", "Xd", "2.0", "0.5")):
        ms.append("static %s %s(long m, int e)\n{\n    %s r = (%s)m;\n    while (e > 0) { r = r * %s; e--; }\n    while (e < 0) { r = r * %s; e++; }\n"
                  "    return r;\n}" % (t, n, t, t, one, half))
    for t in TYPES:
        ms.append('static string K(%s x) { return "%s"; }' % (t, t))
        ms.append("static %s Id%s(%s x) { return x; }" % (t, t, t))
    return ms


class Out:
    def __init__(self):
        self.lines, self.out, self.members, self.n = [], [], [], 0

    def show(self, e, text):
        self.lines.append("Console.WriteLine(%s);" % e)
        self.out.append(text + "\n")


def through(s, o, t, tx, call=True):
    """The literal, possibly after going through a variable, argument, constant, field or element."""
    o.n += 1
    n = o.n
    k = s.draw(9)
    if k < 3:
        return tx
    if k == 3:
        o.lines.append("%s v%d = %s;" % (t, n, tx))
        return "v%d" % n
    if k == 4 and t != "string":
        o.members.append("const %s c%d = %s;" % (t, n, tx))
        return "c%d" % n
    if k == 5:
        return "Id%s(%s)" % (t, tx)
    if k == 6:
        o.lines.append("%s[] a%d = new %s[] { %s, %s };" % (t, n, t, tx, tx))
        return "a%d[1]" % n
    if k == 7 and t != "string":
        o.lines.append("object o%d = %s;" % (n, tx))
        return "(%s)o%d" % (t, n)
    if k == 8:
        o.lines.append("%s w%d; w%d = %s;" % (t, n, n, tx))
        return "w%d" % n
    return tx


def one(s, o):
    k = s.weighted([(6, "int"), (4, "flt"), (2, "chr"), (4, "str"), (1, "bool")])
    if k == "int":
        tx, v, t = integer(s)
        if t is None:
            c = s.choice(["ulong", "long", "uint", "int", ""])
            if c == "":
                return o.show(tx, str(v))
            if c == "long" and v >= 2 ** 63 or c == "uint" and v >= 2 ** 32 or c == "int" and v >= 2 ** 31:
                c = "ulong"
            return o.show("(%s)%s" % (c, tx), str(v))
        neg = t in ("int", "long") and v and s.p(25)
        if s.p(30):
            return o.show("K(%s)" % tx, t)
        if neg:
            tx, v = "-" + tx, -v
        o.show(through(s, o, t, tx), str(v))
    elif k == "flt":
        tx, v, t = floating(s)
        if s.p(15):
            return o.show("K(%s)" % tx, t)
        e = through(s, o, t, tx)
        if s.p(25):
            o.show(e, fmt_g(v))
        else:
            o.show("%s == %s" % (e if e[0] != "(" else "(%s)" % e, exact(v, t == "float")), "True")
            o.out[-1] = "True\r\n"
    elif k == "chr":
        tx, v = char(s)
        if s.p(15):
            return o.show("K(%s)" % tx, "char")
        e = through(s, o, "char", tx)
        if e[0] == "(":
            e = "(%s)" % e
        if "[" in e:
            e = "(%s)" % e
        o.show("(int)%s" % e, str(v))
    elif k == "str":
        tx, v = string(s)
        if s.p(10):
            return o.show("K(%s)" % tx, "string")
        o.show(through(s, o, "string", tx), v)
    else:
        v = s.p(50)
        tx = "true" if v else "false"
        o.show(through(s, o, "bool", tx), "True" if v else "False")
        o.out[-1] = ("True" if v else "False") + "\r\n"
        s.tag("bool")


BAD = [lambda s: "0" + str(s.i(0, 99)) + s.choice("89") + digits(s, 0, 2),
       lambda s: "0x" + digits(s, 0, 3) + s.choice("gGzZ_hx"),
       lambda s: "0b" + "".join(s.choice("01") for _ in range(s.i(0, 4))) + s.choice("23456789") + digits(s, 0, 2),
       lambda s: str(s.i(0, 999)) + s.choice(["abc", "x1", "_1", "q", "LL", "UU", "ULU", "d", "D", "m", "lf", "fu", "z", "Ux"]),
       lambda s: str(s.i(0, 99)) + "''" + digits(s, 1, 2),
       lambda s: str(s.i(0, 99)) + "'",
       lambda s: str(2 ** 64 + s.draw(10 ** s.i(1, 25))),
       lambda s: "0x1" + "".join(s.choice("0123456789abcdef") for _ in range(s.i(16, 20))),
       lambda s: "0b1" + "".join(s.choice("01") for _ in range(s.i(64, 70))),
       lambda s: str(s.i(1, 9)) + "." + digits(s, 1, 3) + "e" + s.choice(["", "+", "-"]),
       lambda s: str(s.i(1, 9)) + "e" + str(s.i(400, 9999)),
       lambda s: str(s.i(1, 9)) + "e" + str(s.i(39, 300)) + "f",
       lambda s: "''",
       lambda s: "'" + s.choice("abcXYZ 09") * s.i(2, 5) + "'",
       lambda s: "'\\" + s.choice("qwyzkm189x#") + "'",
       lambda s: '"' + chars(s, 0) + "ab\\" + s.choice("qwyzkm189x#") + 'c"',
       lambda s: '"abc',
       lambda s: '@"abc',
       lambda s: "'a",
       lambda s: "/* abc",
       lambda s: s.choice(["1#2", "1`", "1$1"])]


def text_of(members, lines):
    """No indentation: lines of verbatim strings stay as they are."""
    return ("import System;\nusing System;\n\nclass Program\n{\n[EntryPoint]\npublic static void Main()\n{\n%s\n}\n\n%s\n}\n"
            % ("\n".join(lines), "\n".join(members)))


def gen(s):
    o = Out()
    if s.p(20):
        bad = s.choice(BAD)(s)
        for _ in range(s.i(0, 3)):
            tx, v, _t = integer(s)
            o.lines.append("Console.WriteLine(%s);" % tx)
        o.lines.insert(0, "Console.WriteLine(70000 + 331);")
        o.lines.insert(s.i(1, len(o.lines)), "Console.WriteLine(%s);" % bad if s.p(60) else "object z = %s;" % bad)
        s.tag("malformed")
        return {"files": {"P/a.cs": text_of([], o.lines)}, "units": 1, "nontrivial": True,
                "steps": [{"argv": ["@april", "run", "P/a.cs", "@sys"], "reject": True, "marker": "70331\n", "lenient": True}]}
    for _ in s.many(3, 25, 92):
        one(s, o)
    return run_case(text_of(o.members + helpers(), o.lines), "".join(o.out), units=len(o.out), nontrivial=len(s.tags) >= 3)
