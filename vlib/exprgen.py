"""Random typed expressions of the reference model."""
from .lang import *

BASES = [0, 1, 2, 3, 5, 7, 8, 10, 15, 16, 31, 32, 63, 64, 100, 127, 128, 129, 200, 255, 256, 257,
         1000, 32767, 32768, 32769, 65535, 65536, 65537, 1 << 20, (1 << 24) - 1, 1 << 24,
         (1 << 31) - 1, 1 << 31, (1 << 31) + 1, (1 << 32) - 1, 1 << 32, (1 << 32) + 1,
         1 << 40, (1 << 48) - 1, 1 << 53, (1 << 62), (1 << 63) - 1, 1 << 63, (1 << 64) - 1]


def int_value(s, t):
    """A value of integer type t, biased to the edges of every width."""
    k = s.draw(10)
    if k < 4:
        v = s.i(0, 20)
        if INTS[t][1] and s.p(35):
            v = -v
        return v
    if k < 9:
        v = s.choice(BASES)
        if INTS[t][1] and s.p(45):
            v = -v
        if s.p(15):
            v += s.i(-2, 2)
        return wrap(t, v)
    b = INTS[t][0]
    v = 0
    for _ in range(b // 8):
        v = v << 8 | s.draw(256)
    return wrap(t, v)


def float_value(s, t):
    """A value that prints and parses exactly in decimal."""
    k = s.draw(4)
    if k == 0:
        return float(s.i(0, 9))
    if k == 1:
        v = s.i(0, 9999) / 8.0
    elif k == 2:
        v = s.i(0, 1 << 20) / 1024.0
    else:
        v = float(s.i(0, 100000))
    return v


def value(s, t):
    if t in INTS:
        return int_value(s, t)
    if t in ("float", "double"):
        return float_value(s, t)
    if t == "bool":
        return bool(s.draw(2))
    if t == "char":
        return s.weighted([(6, 97 + s.draw(26)), (2, 48 + s.draw(10)), (2, 65 + s.draw(26))])
    if t == "string":
        return rand_string(s)
    raise ValueError(t)


def rand_string(s, maxlen=12):
    n = s.i(0, maxlen)
    return "".join(chr(s.weighted([(8, 97 + s.draw(26)), (2, 48 + s.draw(10)), (1, 32),
                                   (1, ord(s.choice("_-+*/.,;:!?#@%^&=()[]{}<>|~"))) ]))
                   for _ in range(n))


class Gen:
    """vars: {type: [Var]}, consts allowed; funcs: list of Method callable statically."""

    def __init__(self, s, vars=None, funcs=(), effects=False, allow_float=False, casts=True,
                 chars=True, extra=None):
        self.s = s
        self.vars = vars or {}
        self.funcs = list(funcs)
        self.effects = effects
        self.allow_float = allow_float
        self.casts = casts
        self.chars = chars
        self.extra = extra          # function (gen, t, depth) -> E or None
        self.readonly = set()

    def add(self, t, name):
        v = Var(t, name)
        self.vars.setdefault(t, []).append(v)
        return v

    def lit(self, t):
        v = value(self.s, t)
        return Lit(t, v)

    def leaf(self, t):
        vs = self.vars.get(t)
        if vs and self.s.p(70):
            return self.s.choice(vs)
        return self.lit(t)

    def lv(self, t):
        vs = [v for v in self.vars.get(t, []) if v.name not in self.readonly]
        return self.s.choice(vs) if vs else None

    def num_type(self):
        s = self.s
        if self.allow_float and s.p(20):
            return s.choice(["double", "float"])
        return s.choice(INT_NAMES)

    def operand_types(self, t):
        """Two operand types whose common type is t."""
        s = self.s
        pool = INT_NAMES + (["double", "float"] if t in ("double", "float") else [])
        pairs = PAIRS[t]
        if s.p(45):
            return t, t
        return s.choice(pairs)

    def e(self, t, d):
        s = self.s
        with s.span():
            r = self._e(t, d)
        if s.p(4):
            r = Paren(r)
        return r

    def _e(self, t, d):
        s = self.s
        if self.extra is not None and d > 0:
            x = self.extra(self, t, d)
            if x is not None:
                return x
        if d <= 0 or s.p(12):
            return self.leaf(t)
        if t == "bool":
            return self.boolean(d)
        fs = [f for f in self.funcs if f.ret == t]
        if fs and s.p(25):
            return self.call(s.choice(fs), d - 1)
        if self.effects and s.p(22):
            x = self.effect(t, d)
            if x is not None:
                return x
        if t == "char":
            return s.weighted([(3, 0), (1, 1)]) and \
                Cond(self.e("bool", d - 1), self.e("char", d - 1), self.e("char", d - 1)) \
                or self.leaf(t)
        if t == "string" or not is_num(t):
            if s.p(40):
                return Cond(self.e("bool", d - 1), self.e(t, d - 1), self.e(t, d - 1))
            return self.leaf(t)
        if t in ("sbyte", "byte", "short", "ushort"):
            k = s.weighted([(7, "cast"), (2, "cond")])
            if k == "cond":
                return Cond(self.e("bool", d - 1), self.e(t, d - 1), self.e(t, d - 1))
            return Cast(t, self.e(s.choice(INT_NAMES), d - 1))
        k = s.weighted([(12, "bin"), (3, "un"), (3, "cast"), (2, "cond"), (3, "shift"),
                        (3, "div")])
        if t in ("double", "float"):
            if k in ("shift",):
                k = "bin"
            if k == "div":
                a, b = t, t
                v = s.choice([2.0, 4.0, 8.0, 0.5, 3.0, 10.0])
                return Bin("/", self.e(a, d - 1), Lit(b, v))
            if k == "bin":
                a, b = self.operand_types(t)
                return Bin(s.choice(["+", "-", "*"]), self.e(a, d - 1), self.e(b, d - 1))
            if k == "un":
                return Un(s.choice(["-", "+"]), self.e(t, d - 1))
            if k == "cast":
                a = s.choice(INT_NAMES + ["double", "float"])
                return Cast(t, self.e(a, d - 1))
            return Cond(self.e("bool", d - 1), self.e(t, d - 1), self.e(t, d - 1))
        if k == "bin":
            a, b = self.operand_types(t)
            return Bin(s.choice(["+", "-", "*", "&", "|", "^"]), self.e(a, d - 1),
                       self.e(b, d - 1))
        if k == "un":
            op = s.choice(["~", "-", "+"])
            if op == "-" and t in ("uint", "ulong"):
                op = "~"
            a = t
            if t == "int" and s.p(30):
                a = s.choice(["sbyte", "byte", "short", "ushort"])
            return Un(op, self.e(a, d - 1))
        if k == "cast":
            return Cast(t, self.e(s.choice(INT_NAMES), d - 1))
        if k == "cond":
            return Cond(self.e("bool", d - 1), self.e(t, d - 1), self.e(t, d - 1))
        if k == "shift":
            a, b = self.operand_types(t)
            w = max(32, INTS[a][0])
            op = s.choice(["<<", ">>"])
            if s.p(60):
                n = s.i(0, w - 1)
                n = min(n, hi(b))
                return Bin(op, self.e(a, d - 1), Lit(b, n))
            # a runtime count: (e & mask) has the count type's promotion
            cnt = Bin("&", self.e(b, d - 1), Lit(b, min(w - 1, hi(b))))
            if promote(a, cnt.t) != t:
                cnt = Cast(b, cnt)
            return Bin(op, self.e(a, d - 1), cnt)
        # div
        op = s.choice(["/", "%"])
        a, b = self.operand_types(t)
        if s.p(55):
            v = value(s, b)
            if v in (0, -1):
                v = 3
            return Bin(op, self.e(a, d - 1), Lit(b, v))
        # a runtime divisor in 1..128
        den = Bin("+", Bin("&", self.e(b, d - 1), Lit(b, min(127, hi(b)) if hi(b) > 127 else 63)),
                  Lit(b, 1))
        if promote(a, den.t) != t:
            den = Cast(b, den)
        return Bin(op, self.e(a, d - 1), den)

    def boolean(self, d):
        s = self.s
        k = s.weighted([(6, "cmp"), (3, "logic"), (2, "not"), (1, "booleq"), (1, "char"),
                        (1, "cond"), (1, "fn")])
        if k == "fn":
            fs = [f for f in self.funcs if f.ret == "bool"]
            if fs:
                return self.call(s.choice(fs), d - 1)
            k = "cmp"
        if k == "cmp":
            a, b = self.num_type(), self.num_type()
            if s.p(50):
                b = a
            if "ulong" in (a, b) and ("float" in (a, b) or "double" in (a, b)):
                b = a
            return Bin(s.choice(["<", ">", "<=", ">=", "==", "!="]), self.e(a, d - 1),
                       self.e(b, d - 1))
        if k == "logic":
            return Bin(s.choice(["&&", "||"]), self.e("bool", d - 1), self.e("bool", d - 1))
        if k == "not":
            return Un("!", self.e("bool", d - 1))
        if k == "booleq":
            return Bin(s.choice(["==", "!="]), self.e("bool", d - 1), self.e("bool", d - 1))
        if k == "char" and self.chars:
            return Bin(s.choice(["<", ">", "<=", ">=", "==", "!="]), self.e("char", d - 1),
                       self.e("char", d - 1))
        return Cond(self.e("bool", d - 1), self.e("bool", d - 1), self.e("bool", d - 1))

    def call(self, f, d):
        args = []
        for p in f.params:
            if p.mode:
                v = self.lv(p.t)
                if v is None:
                    return self.leaf(f.ret)
                args.append(Arg(v, p.mode))
            else:
                args.append(Arg(self.e(p.t, d)))
        return Call(f, args)

    def effect(self, t, d):
        s = self.s
        v = self.lv(t)
        if v is None:
            return None
        k = s.weighted([(3, "pre"), (3, "post"), (2, "set"), (2, "op")])
        if not is_num(t) and k != "set":
            return Assign(v, "", self.e(t, d - 1))
        if k in ("pre", "post"):
            return IncDec(v, s.choice(["++", "--"]), k == "pre")
        if k == "set":
            return Assign(v, "", self.e(t, d - 1))
        a = s.choice(INT_NAMES) if is_int(t) else t
        op = s.choice(["+", "-", "*", "&", "|", "^"]) if is_int(t) else s.choice(["+", "-", "*"])
        return Assign(v, op, self.e(a, d - 1))


PAIRS = {}
for _a in INT_NAMES + ["float", "double"]:
    for _b in INT_NAMES + ["float", "double"]:
        if "ulong" in (_a, _b) and ("float" in (_a, _b) or "double" in (_a, _b)):
            continue
        PAIRS.setdefault(promote(_a, _b), []).append((_a, _b))
