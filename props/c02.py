"""C02 floating point arithmetic, comparison and numeric conversions."""
from vlib.stmtgen import *
from vlib.objs import *

RULE = ("each case is a program of up to 8 units; a unit declares locals of float, double and integer types with "
        "random values (including values needing rounding, halves, large and tiny magnitudes) and evaluates random "
        "expressions of + - * / unary, comparisons, ?:, compound assignments, ++/-- and casts between all numeric "
        "types; a result is printed, or compared with its exact expected value, or converted to an "
        "integer. Infinities and NaN are compared but NaN is never printed. Non-trivial: at least 3 exact comparisons "
        "and at least 3 casts between different numeric types.")
QUICK, THOROUGH = 1500, 15000
FT = ["double", "float"]


def is_f(t):
    return t in FT


class Exact(S):
    """Prints whether an expression has exactly the value the model computes for it."""

    def __init__(self, e):
        self.e, self.v = e, None

    def run(self, fr):
        v = self.e.ev(fr)
        if v != v or math.isinf(v):
            raise Undef("not finite")
        self.v = v
        fr.m.out.append("True\r\n")
        fr.m.ev("exact")

    def tx(self):
        v = self.v if self.v is not None else 0.0
        f = "f" if self.e.t == "float" else ""
        return "Console.WriteLine((%s) == %s);" % (self.e.tx(), exact_text(v, f))


def exact_text(v, suffix=""):
    if v < 0 or (v == 0 and math.copysign(1, v) < 0):
        return "(-%s)" % exact_text(-v, suffix)
    return plain_text(v) + suffix


def plain_text(v):
    s = repr(float(v))
    if "e" not in s:
        return s
    m, e = s.split("e")
    if "." not in m:
        m += ".0"
    return "%se%d" % (m, int(e))


def fval(s, t):
    k = s.draw(9)
    if k == 0:
        v = float(s.i(0, 9))
    elif k == 1:
        v = s.i(0, 9999) / 8.0
    elif k == 2:
        v = s.i(0, 99999) / 100.0
    elif k == 3:
        v = float(s.choice(BASES))
    elif k == 4:
        v = float(s.choice(BASES)) + 0.5
    elif k == 5:
        v = s.i(1, 9999) * 10.0 ** s.i(-12, 12)
    elif k == 6:
        v = s.i(1, 999) * 10.0 ** s.i(-30, 30)
    elif k == 7:
        v = (1 << 24) + s.i(-3, 3) * 0.5 if s.p(50) else float((1 << 53) + s.i(-3, 3))
    else:
        v = (s.draw(1 << 16) << 16 | s.draw(1 << 16)) / 65537.0
    if t == "float":
        v = f32(v)
    return v


class FLit(Lit):
    def __init__(self, t, v):
        Lit.__init__(self, t, v, exact_text(v, "f" if t == "float" else ""))


NUM = INT_NAMES + FT
HOLDER = ClassT("Holder", None, [(t, "f_" + t) for t in NUM])
for _t in NUM:
    _p = Prop(_t, "P_" + _t, None, None)
    _p.auto = True
    HOLDER.props.append(_p)


def new_holder():
    o = HOLDER.new()
    for p in HOLDER.props:
        o.f["$" + p.name] = default(p.t)
    return o


class NewHolder(New):
    def ev(self, fr):
        return new_holder()


class FG(Gen):
    places = {}

    def leaf(self, t):
        ps = self.places.get(t)
        if ps and self.s.p(35):
            return self.s.choice(ps)
        return Gen.leaf(self, t)

    def lv(self, t):
        ps = [p for p in self.places.get(t, []) if not isinstance(p, PropE)]
        if ps and self.s.p(35):
            return self.s.choice(ps)
        return Gen.lv(self, t)

    def add_places(self, put):
        """An object with fields and properties and a few arrays, with values."""
        s = self.s
        self.places = {}
        o = Var(HOLDER, "o")
        put(Decl(HOLDER, "o", NewHolder(HOLDER)))
        cand = []
        for t in s.shuffle(NUM)[:s.i(1, 5)]:
            cand.append((t, Fld(o, t, "f_" + t)))
        for t in s.shuffle(NUM)[:s.i(0, 3)]:
            cand.append((t, PropE(o, HOLDER.props[NUM.index(t)])))
        for t in s.shuffle(NUM)[:s.i(1, 4)]:
            a = arr_t(t)
            put(Decl(a, "a_" + t, NewArr(a, [Lit("int", 2)])))
            cand.append((t, Idx(Var(a, "a_" + t), [Lit("int", s.i(0, 1))])))
        for t, p in cand:
            if put(Ex(Assign(p, "", self.lit(t)))):
                self.places.setdefault(t, []).append(p)

    def lit(self, t):
        if is_f(t):
            return FLit(t, fval(self.s, t))
        return Gen.lit(self, t)

    def fe(self, t, d):
        """An expression of floating type t."""
        s = self.s
        with s.span():
            if d <= 0 or s.p(12):
                return self.leaf(t)
            k = s.weighted([(9, "bin"), (3, "div"), (2, "un"), (4, "cast"), (2, "cond"), (2, "eff"), (2, "fn")])
            if k == "fn":
                fs = [f for f in self.funcs if f.ret == t]
                if fs:
                    f = s.choice(fs)
                    return Call(f, [Arg(self.ne(p.t, d - 1)) for p in f.params])
                k = "bin"
            if k == "eff":
                v = self.lv(t)
                if v is not None and self.effects:
                    j = s.draw(4)
                    if j == 0:
                        return Paren(IncDec(v, s.choice(["++", "--"]), bool(s.draw(2))))
                    if j == 1:
                        return Paren(Assign(v, "", self.fe(t, d - 1)))
                    a = s.choice(["int", "short", "byte", "long", t, t])
                    if t == "double" and s.p(20):
                        a = "float"
                    return Paren(Assign(v, s.choice(["+", "-", "*"]), self.ne(a, d - 1)))
                k = "bin"
            if k == "bin":
                a, b = self.operand_types(t)
                return Bin(s.choice(["+", "-", "*"]), self.ne(a, d - 1), self.ne(b, d - 1))
            if k == "div":
                a, b = self.operand_types(t)
                if s.p(50):
                    v = fval(s, b) if is_f(b) else value(s, b)
                    if v == 0:
                        v = 3 if not is_f(b) else 3.0
                    den = FLit(b, v) if is_f(b) else Lit(b, v)
                else:
                    den = self.ne(b, d - 1)
                return Bin("/", self.ne(a, d - 1), den)
            if k == "un":
                return Un(s.choice(["-", "-", "+"]), self.fe(t, d - 1))
            if k == "cast":
                a = s.choice([x for x in INT_NAMES if x != "ulong"] + FT + FT)
                return Cast(t, self.ne(a, d - 1))
            return Cond(self.be(d - 1), self.fe(t, d - 1), self.fe(t, d - 1))

    def ne(self, t, d):
        s = self.s
        if is_f(t):
            return self.fe(t, d)
        if d > 0 and s.p(45):
            return Cast(t, self.bounded(d - 1))
        return self.e(t, min(d, 2))

    def bounded(self, d):
        """A floating expression, to be converted to an integer type (out of range is discarded)."""
        return self.fe(self.s.choice(FT), d)

    def be(self, d):
        s = self.s
        a = s.choice(FT)
        b = s.choice(FT + ["int", "short", "long", "uint", a])
        x, y = self.fe(a, d), self.ne(b, d)
        if s.p(30):
            x, y = y, x
        return Bin(s.choice(["<", ">", "<=", ">=", "==", "!="]), x, y)


def usable(ss):
    """The statements the model can evaluate, each run on its own against the state so far."""
    return ss


def special(s, k):
    """Infinities and NaN."""
    t = s.choice(FT)
    z, one = "z%d" % k, "o%d" % k
    lines, outs = [], []
    num = s.choice([1.0, -1.0, 0.0, 2.5])
    lines.append("%s %s = 0.0%s; %s %s = %s;" % (t, z, "f" if t == "float" else "", t, one,
                                                exact_text(num, "f" if t == "float" else "")))
    if s.p(30):
        f = "f" if t == "float" else ""
        lines.append("%s q%d = %s / 0.0%s;" % (t, k, exact_text(num, f), f))
    else:
        lines.append("%s q%d = %s / %s;" % (t, k, one, z))
    q = "q%d" % k
    if num == 0.0:
        val = math.nan
    else:
        val = math.copysign(math.inf, num)
    for _ in range(s.i(3, 8)):
        op = s.choice(["<", ">", "<=", ">=", "==", "!="])
        other = s.choice([q, one, z, "-" + q, "1e30"])
        ov = {q: val, one: num, z: 0.0, "-" + q: -val, "1e30": 1e30}[other]
        if s.p(40):
            lines.append("if (%s %s %s) Console.WriteLine(\"t\"); else Console.WriteLine(\"f\");" % (q, op, other))
            outs.append("t\n" if compare(op, val, ov) else "f\n")
        else:
            lines.append("Console.WriteLine(%s %s (%s));" % (q, op, other))
            outs.append("True\r\n" if compare(op, val, ov) else "False\r\n")
    if num != 0.0:
        lines.append("Console.WriteLine(%s);" % q)
        outs.append("inf\n" if val > 0 else "-inf\n")
        lines.append("Console.WriteLine(%s + %s == %s);" % (q, one, q))
        outs.append("True\r\n")
        lines.append("Console.WriteLine(%s / %s == 0.0);" % (one, q))
        outs.append("True\r\n")
    out = "".join(outs)
    return RawS("\n".join(lines), lambda fr: fr.m.out.append(out))


def helpers(s):
    """Methods whose parameters and results convert."""
    r = []
    for k in range(s.i(0, 3)):
        rt = s.choice(FT)
        pt = s.choice(FT + ["int", "long", "short"])
        if rt == "float" and pt == "double":
            pt = "float"
        r.append(Method("H%d" % k, rt, [Param(pt, "p")], [Return(Var(pt, "p"), rt)]))
    return r


def attempt(fr, st):
    """Runs a statement in the model; False (and no effect) if it leaves the defined part."""
    saved = {k: v[0] for k, v in fr.slots.items()}
    objs = [(v, dict(v.f)) for v in saved.values() if isinstance(v, Obj)]
    arrs = [(v, list(v.v)) for v in saved.values() if isinstance(v, Arr)]
    n = len(fr.m.out)
    try:
        st.run(fr)
        return True
    except Undef:
        for k, v in saved.items():
            fr.slots[k][0] = v
        for o, f in objs:
            o.f.update(f)
        for a, v in arrs:
            a.v[:] = v
        for k in list(fr.slots):
            if k not in saved:
                del fr.slots[k]
        del fr.m.out[n:]
        return False


def casts(e):
    return (1 if isinstance(e, Cast) and e.t != e.a.t else 0) + sum(casts(k) for k in kids(e))


def gen(s):
    hs = helpers(s)
    mc = Machine()
    units, calls = [], []
    ncast = 0
    for k in s.many(1, 8, 85):
        fr = Frame(mc)
        g = FG(s, {}, hs, effects=True)
        ss = []

        def put(st):
            if attempt(fr, st):
                ss.append(st)
                return True
            return False
        for j in s.many(2, 7, 85):
            t = s.choice(FT + FT + [x for x in INT_NAMES])
            n = "v%d" % j
            e = g.lit(t)
            if t == "double" and s.p(25):
                e = g.lit(s.choice(["float", "int", "long", "short"]))
            elif t == "float" and s.p(25):
                e = g.lit(s.choice(["int", "short", "byte", "long"]))
                if e.t == "byte":
                    e = Lit("int", e.v)
            if put(Decl(t, n, e)):
                g.add(t, n)
        if s.p(50):
            g.add_places(put)
        for j in s.many(2, 8, 85):
            w = s.weighted([(5, "exact"), (2, "print"), (3, "toint"), (3, "cmp"), (2, "assign"), (1, "decl")])
            d = s.i(1, 4)
            if w == "exact":
                e = g.fe(s.choice(FT), d)
                st = Exact(e)
            elif w == "print":
                e = g.fe(s.choice(FT), d)
                st = Print(e)
            elif w == "toint":
                e = Cast(s.choice(INT_NAMES), g.bounded(d))
                st = Print(e)
            elif w == "cmp":
                e = g.be(d)
                st = Print(e)
            elif w == "assign":
                t = s.choice(FT)
                v = g.lv(t)
                if v is None:
                    continue
                op = s.choice(["", "", "+", "-", "*"])
                if s.p(25):
                    ps = [p for p in g.places.get(t, []) if isinstance(p, PropE)]
                    if ps:
                        v, op = s.choice(ps), ""
                e = g.ne(t if op == "" else s.choice([t, "int", "long"]), d)
                st = Ex(Assign(v, op, e))
            else:
                t = s.choice(FT)
                e = g.fe(t, d)
                n = "w%d" % j
                st = Decl(t, n, e)
                if put(st):
                    g.add(t, n)
                    ncast += casts(e)
                continue
            if put(st):
                ncast += casts(e)
        if s.p(25):
            put(special(s, k))
        for t in FT:
            for v in g.vars.get(t, []):
                if s.p(50):
                    put(Exact(v))
        units.append(Method("U%d" % k, "void", [], ss))
        calls.append("U%d();" % k)
    text = source("\n\n".join(m.tx() for m in units + hs), "\n".join(calls), HOLDER.tx())
    return run_case(text, "".join(mc.out), units=len(units),
                    nontrivial=mc.events.get("exact", 0) >= 3 and ncast >= 3)
