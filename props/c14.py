"""C14: the optimisation level does not change what a program does."""
from vlib.stmtgen import *
from props import mix

QUICK, THOROUGH = 1600, 16000
RULE = ("a case is a random program run at two different optimisation levels out of 0 to 3, each output compared with the "
        "reference model. Half of the programs are rich in what an optimiser looks for: neutral and absorbing operands of every "
        "type on either side (a quarter of all programs are lists of such operations, whose other operand shows that it was evaluated), constant and never reassigned variables, constant conditions of if, loops and ?:, code after jumps, "
        "switches of one to three sections with constant subjects, results that nobody uses; the others are programs of the "
        "properties C01 to C12. Non-trivial: such a program prints at least 3 values, or is non-trivial for its own property")
ASSUME = ["the optimisation levels are reached through a solution file, the only way the tool offers",
          "expression statements without effect are not generated (not C#)"]

SOL = "<solution><name>S</name><projects><project><path>P/P.project</path></project></projects></solution>"
PRJ = "<project><name>P</name><files><file><path>*.cs</path></file></files></project>"

OPS = ["+", "-", "*", "/", "%", "&", "|", "^", "<<", ">>"]


class ConstDecl(Decl):
    def tx(self):
        return "const " + Decl.tx(self)


def units(g, t, d):
    """An operation with a small constant operand, or a boolean with a constant part."""
    s = g.s
    if not s.p(30):
        return None
    if t == "bool":
        k = s.draw(5)
        c = Lit("bool", bool(s.draw(2))) if s.p(50) else \
            Bin(s.choice(["<", ">", "==", "!=", "<=", ">="]), g.lit("int"), g.lit("int"))
        if k == 0:
            return Bin(s.choice(["&&", "||"]), c, g.e("bool", d - 1))
        if k == 1:
            return Bin(s.choice(["&&", "||"]), g.e("bool", d - 1), c)
        if k == 2:
            return Bin(s.choice(["==", "!="]), g.e("bool", d - 1), c)
        if k == 3:
            return Cond(c, g.e("bool", d - 1), g.e("bool", d - 1))
        return c
    if t not in ("int", "uint", "long", "ulong", "float", "double"):
        return None
    if s.p(12):
        c = Lit("bool", bool(s.draw(2))) if s.p(40) else Bin(s.choice(["<", ">", "=="]), g.lit("int"), g.lit("int"))
        return Cond(c, g.e(t, d - 1), g.e(t, d - 1))
    a, b = g.operand_types(t)
    fl = t in ("float", "double")
    op = s.choice(["+", "-", "*"] if fl else OPS)
    v = s.weighted([(4, 0), (4, 1), (1, 2)])
    if b in INTS and INTS[b][1] and s.p(15):
        v = -1
    if op in ("/", "%", "<<", ">>") or s.p(60):
        if op in ("/", "%") and v <= 0:
            v = 1
        if op in ("<<", ">>") and v < 0:
            v = 0
        return Bin(op, g.e(a, d - 1), Lit(b, float(v) if b in ("float", "double") else v))
    if a in INTS and not INTS[a][1] and v < 0:
        v = 1
    return Bin(op, Lit(a, float(v) if a in ("float", "double") else v), g.e(b, d - 1))


class OG(SG):
    def stmts(self, d, lo_=0, hi_=5):
        first = [self.fixed()] if self.s.p(25) else []
        return first + SG.stmts(self, d, lo_, hi_)

    def fixed(self):
        """A variable that is never assigned again."""
        s, g = self.s, self.g
        t = s.choice(self.types)
        k = s.draw(3)
        n = self.fresh()
        e = Lit(t, s.choice([0, 1, 2, 5])) if is_int(t) and s.p(50) else g.lit(t)
        if k == 0 and t not in ("float", "double"):
            x = ConstDecl(t, n, e)
        else:
            x = Decl(t, n, e if s.p(70) else g.e(t, 1))
        g.add(t, n)
        g.readonly.add(n)
        return x

    def make(self, k, d):
        s, g = self.s, self.g
        if k == "if_" and s.p(30):
            c = Lit("bool", bool(s.draw(2))) if s.p(50) else Bin(s.choice(["<", ">=", "=="]), g.leaf("int"), Lit("int", s.i(0, 3)))
            b = self.sub(d - 1) if s.p(60) else None
            return If(c, self.sub(d - 1), b)
        if k in ("while_", "do_") and s.p(30):
            never = Lit("bool", False) if s.p(60) else Bin(">", Lit("int", 1), Lit("int", 2))
            self.loops += 1
            osw, self.sw = self.sw, 0
            always = s.p(50)
            n = self.fresh() if always else None
            b = self.block(d - 1, 0, 3)
            self.loops -= 1
            self.sw = osw
            if not always:
                return While(never, b) if k == "while_" else DoWhile(never, b)
            f = Var("int", n)
            ss = [If(Bin(">", IncDec(f, "++", False), Lit("int", s.i(0, 3))), Break())] + b.ss
            yes = Lit("bool", True) if s.p(60) else Bin("<", Lit("int", 1), Lit("int", 2))
            return Seq([Decl("int", n, Lit("int", 0)), While(yes, Blk(ss)) if s.p(60) else For(None, yes if s.p(50) else None, None, Blk(ss))])
        if k == "for_" and s.p(25):
            never = Lit("bool", False) if s.p(60) else Bin(">", Lit("int", 1), Lit("int", 2))
            v = g.lv("int")
            st = self.push()
            self.loops += 1
            osw, self.sw = self.sw, 0
            if v is not None and s.p(65):
                init = Ex(Assign(v, s.choice(["", "", "+"]), g.e("int", 2)) if s.p(80) else IncDec(v, "++", False))
            else:
                n = self.fresh()
                init = Decl("int", n, g.e("int", 2))
                v = g.add("int", n) or Var("int", n)
            b = self.block(d - 1, 0, 2)
            self.loops -= 1
            self.sw = osw
            self.pop(st)
            return For(init, never, IncDec(v, "++", False) if s.p(70) else None, b)
        return SG.make(self, k, d)

    def guard(self, st):
        if self.s.p(25):
            return st
        return SG.guard(self, st)

    def switch(self, d):
        s, g = self.s, self.g
        if not s.p(60):
            return SG.switch(self, d)
        nlab = s.weighted([(1, 0), (5, 1), (3, 2), (1, 3)])
        labs = [Lit("int", v) for v in s.shuffle([0, 1, 2, 3])[:nlab]]
        if s.p(65) or not labs:
            labs.insert(s.i(0, len(labs)), None)
        groups = []
        for l in labs:
            if groups and s.p(15):
                groups[-1].append(l)
            else:
                groups.append([l])
        sub = s.weighted([(3, 0), (4, 1), (2, 2), (2, 3)])
        if sub == 3:
            v = g.lv("int")
            sub = IncDec(v, s.choice(["++", "--"]), bool(s.draw(2))) if v is not None else g.e("int", 2)
            if s.p(50):
                sub = s.choice([lambda: Cast(s.choice(["byte", "short", "sbyte"]), sub),
                                lambda: Cond(g.e("bool", 2), sub, g.e("int", 1)),
                                lambda: Cond(Bin(">", sub, Lit("int", 1)), Lit("int", 1), Lit("int", 2)),
                                lambda: Bin("+", sub, g.e("int", 1))])()
        else:
            sub = Lit("int", s.i(0, 4)) if sub == 0 else Bin("&", g.leaf("int"), Lit("int", 3)) if sub == 1 else g.e("int", 2)
        self.sw += 1
        cases = []
        for k, grp in enumerate(groups):
            st = self.push()
            ss = self.stmts(d - 1, 0, 3)
            if any(isinstance(x, (Decl, Seq)) for x in ss):
                ss = [Blk(ss)]
            self.pop(st)
            if s.p(70):
                ss = ss + [Break()]
            elif s.p(40):
                ss = ss + [If(g.e("bool", 2), Break())]
            cases.append((grp, ss))
        self.sw -= 1
        if not cases[-1][1]:
            cases[-1] = (cases[-1][0], [Break()])
        return Switch(sub, cases)


TYPES = ["int", "int", "long", "bool", "uint", "byte", "short", "ulong", "double", "float", "sbyte", "ushort"]


def rich(s):
    methods, calls = [], []
    nprint = 0
    for k in s.many(1, 4, 80):
        ret = s.choice(["void", "int", "long", "bool", "uint", "byte"])
        sg = OG(s, funcs=[m for m in methods if m.ret != "void"], ret=ret, types=TYPES, exprdepth=3, use_float=True, extra=units,
                weights=dict(switch=8, if_=8, for_=3, while_=4, do_=2, decl=5, print=10, ret=2))
        ps = []
        for j in range(s.i(0, 3)):
            t = s.choice(TYPES)
            n = sg.fresh()
            sg.g.add(t, n)
            ps.append(Param(t, n))
        body = [sg.fixed() for _ in range(s.i(0, 3))] + sg.stmts(3, 1, 6)
        if ret != "void":
            body.append(Return(sg.g.e(ret, 3), ret))
        m = Method("F%d" % k, ret, ps, body)
        methods.append(m)
        for _ in s.many(1, 3, 60):
            c = Call(m, [Arg(Lit(p.t, value(s, p.t))) for p in ps])
            calls.append(Ex(c) if ret == "void" else Print(c))
    text, out, mc = program(methods, calls)
    s.tag("rich")
    return text, out, len(calls), out.count("\n") >= 3


def table(s):
    """Operations with one operand whose evaluation shows and one that is neutral, absorbing or otherwise constant."""
    ts = s.shuffle(["int", "int", "long", "uint", "ulong", "short", "byte", "sbyte", "ushort", "bool", "double", "float"])[:s.i(2, 4)]
    ts = sorted(set(ts + ["int"]))
    ms = {t: Method("E" + t, t, [Param(t, "p")], [Print(Var(t, "p")), Return(Var(t, "p"), t)]) for t in ts}
    body = [Decl(t, "v" + t, Lit(t, value(s, t) if s.p(30) else t == "bool" or (5.0 if t in ("float", "double") else s.i(1, 9)))) for t in ts]

    def num(t, x):
        return Lit(t, float(x) if t in ("float", "double") else x)

    def const(t, nz):
        if t == "bool":
            return Lit(t, bool(s.draw(2)))
        w = [(5, 0), (5, 1), (1, 2), (1, 8), (1, 3)]
        if t in ("float", "double") or INTS[t][1]:
            w.append((2, -1))
        v = s.weighted([x for x in w if not nz or x[1] > 0])
        return num(t, v)

    def shown(t, nz):
        v = Var(t, "v" + t)
        k = s.draw(10)
        if nz or k < 5 or t == "bool" or t in ("float", "double"):
            return Call(ms[t], [Arg(Lit(t, bool(s.draw(2))) if t == "bool" else num(t, s.i(1, 40)) if nz or s.p(50) else Lit(t, value(s, t)))])
        if k < 7:
            return IncDec(v, s.choice(["++", "--"]), bool(s.draw(2)))
        if k == 7:
            return Paren(Assign(v, "", Lit(t, value(s, t))))
        if k == 8:
            return Call(ms[t], [Arg(v)])
        return v

    def row():
        t = s.choice(ts)
        v = Var(t, "v" + t)
        if t == "bool":
            op, nz = s.choice(["&&", "||", "==", "!="]), False
        elif s.p(20):
            op, nz = s.choice(["<", ">", "<=", ">=", "==", "!="]), False
        else:
            op = s.choice(["+", "-", "*"] if t in ("float", "double") else OPS)
            nz = op in ("/", "%")
        if op in ("<<", ">>"):
            e = Bin(op, shown(t, False), Lit("int", s.weighted([(3, 0), (2, 1), (1, s.i(2, 7))])))
        elif s.p(10) and not nz:
            x = Call(ms[t], [Arg(Lit(t, value(s, t)))])
            e = Bin(op, x, x) if s.p(50) else Bin(op, v, v)
        elif s.p(60):
            e = Bin(op, shown(t, False), const(t, nz))
        else:
            e = Bin(op, const(t, False), shown(t, nz))
        s.tag("%s with a constant, %s" % (op, t))
        k = s.draw(10)
        if k < 5:
            return [Print(e)]
        if k == 5 and e.t != "bool":
            return [Print(s.choice([Bin("+", e, num(e.t, 0)), Bin("*", e, num(e.t, 1)), Bin("-", num(e.t, 0), e)]))]
        if k == 6 and e.t == t:
            return [Ex(Assign(v, "", e)), Print(v)]
        if k == 7 and t in ("int", "long", "uint", "ulong") and op not in ("<", ">", "<=", ">=", "==", "!="):
            c = Lit("int", s.i(0, 2)) if op in ("<<", ">>") else const(t, nz)
            return [Ex(Assign(v, op, c)), Print(v)]
        c = e if e.t == "bool" else Bin(s.choice(["==", "!=", ">", "<"]), e, const(e.t, False))
        if k == 8:
            return [If(c, Print(Lit("int", s.i(0, 9))), Print(Lit("int", s.i(10, 19))) if s.p(50) else None)]
        return [Print(Cond(c, const(t, False), shown(t, False)))]

    n = 0
    for _ in s.many(8, 40, 95):
        with s.span():
            body += row()
        n += 1
    f = Method("F", "void", [], body)
    text, out, mc = program([ms[t] for t in ts] + [f], [Ex(Call(f, []))])
    s.tag("table")
    return text, out, n, n >= 8


def gen(s):
    k = s.draw(100)
    if k < 25:
        text, out, n, nt = table(s)
    elif k < 60:
        text, out, n, nt = rich(s)
    else:
        name, text, out, c = mix.draw(s)
        n, nt = c["units"], c["nontrivial"]
    lv = s.weighted([(3, [1, 2]), (2, [2, 1]), (3, [2, 0]), (1, [3, 1]), (2, [1, 3]), (1, [3, 0])])
    for l in lv:
        s.tag("level %d" % l)
    return {"files": {"S.solution": SOL, "P/P.project": PRJ, "P/a.cs": text}, "units": n, "nontrivial": nt,
            "steps": [{"argv": ["@april", "run", "S.solution", "@sys", "-O", str(l)], "rc": 0, "out": out} for l in lv]}
