"""C04 control flow and scoping."""
from vlib.stmtgen import *

RULE = ("each case is a program of 1..6 methods of random nested statements (if/else, while, do, for, "
        "blocks, break, continue, return; names reused in sibling scopes) over random locals; every "
        "loop is bounded by a fuel counter. Or it is a program of nested blocks declaring variables of mixed sizes, "
        "each showing at its end all it sees. Non-trivial: the run executes at least 40 model steps and "
        "the text contains a loop with a break or continue or a return inside.")
QUICK, THOROUGH = 1500, 15000


def make_method(s, k, weights=None, **kw):
    ret = s.choice(["void", "void", "int", "long", "bool"])
    sg = SG(s, ret=ret, weights=weights, **kw)
    ps = []
    for j in s.many(0, 3):
        t = s.choice(["int", "long", "bool"])
        n = sg.fresh()
        sg.g.add(t, n)
        ps.append(Param(t, n))
    body = sg.stmts(s.i(1, 4), 2, 9)
    if ret != "void":
        body.append(Return(sg.g.e(ret, 2), ret))
    return Method("F%d" % k, ret, ps, body)


TYPES = ["int", "long", "byte", "short", "bool", "char", "double", "string", "string", "ulong", "sbyte", "float", "uint", "ushort"]


class Scopes:
    """A method of nested blocks that declare variables of mixed sizes; every block shows what it sees at its end."""

    def __init__(self, s):
        self.s, self.k = s, 0
        self.types = [s.choice(TYPES) for _ in range(s.i(1, 5))]

    def decl(self, vis):
        s = self.s
        t = s.choice(self.types)
        used = [v.name for v in vis]
        n = s.choice([x for x in NAMES if x not in used] or ["v%d" % len(used)])
        self.k += 1
        v = Var(t, n)
        lits = [Lit(t, value(s, t))] if t in ("string", "char", "bool") or s.p(25) else [Lit(t, self.k % 100 + 1)]
        e = s.choice([x for x in vis if x.t == t] + lits * 3)
        vis.append(v)
        return Decl(t, n, e)

    def show(self, vis):
        return [Print(v) for v in vis]

    def body(self, vis, d, n):
        s = self.s
        vis = list(vis)
        ss = []
        for _ in s.many(1, n, 85):
            k = s.weighted([(8, "decl"), (5, "block"), (1, "if"), (1, "for"), (1, "try"), (2, "set")])
            if k == "decl" or d <= 0:
                ss.append(self.decl(vis))
            elif k == "set":
                if vis:
                    v = s.choice(vis)
                    ss.append(Ex(Assign(v, "", Lit(v.t, value(s, v.t)))))
            elif k == "block":
                ss.append(Blk(self.body(vis, d - 1, n)))
            elif k == "if":
                ss.append(If(Lit("bool", bool(s.draw(2))), Blk(self.body(vis, d - 1, n)), Blk(self.body(vis, d - 1, n))))
            elif k == "for":
                used = [v.name for v in vis]
                v = Var("int", s.choice([x for x in NAMES if x not in used] or ["v%d" % len(used)]))
                ss.append(For(Decl("int", v.name, Lit("int", 0)), Bin("<", v, Lit("int", s.i(0, 2))), IncDec(v, "++", False),
                              Blk(self.body(vis + [v], d - 1, n))))
            else:
                from vlib import objs
                b = self.body(vis, d - 1, n)
                if s.p(50):
                    b.append(Throw(objs.EXCEPTION))
                ss.append(Try(b, [(objs.EXCEPTION, None, self.body(vis, d - 1, n))], self.body(vis, 0, 3) if s.p(30) else None))
        return ss + self.show(vis)


def scopes(s):
    methods, calls = [], []
    for k in s.many(1, 4, 70):
        x = Scopes(s)
        ps, vis = [], []
        for j in s.many(0, 4, 60):
            v = Var(s.choice(x.types), "p%d" % j)
            vis.append(v)
            ps.append(Param(v.t, v.name))
        m = Method("F%d" % k, "void", ps, x.body(vis, s.i(1, 5), s.i(3, 8)))
        methods.append(m)
        calls.append(Ex(Call(m, [Arg(Lit(p.t, value(s, p.t))) for p in ps])))
    text, out, mc = program(methods, calls)
    s.tag("scopes")
    return run_case(text, out, units=len(calls), nontrivial=mc.steps > 20)


def gen(s, weights=None, **kw):
    if not weights and not kw and s.p(30):
        return scopes(s)
    methods, calls = [], []
    for k in s.many(1, 6, 85):
        m = make_method(s, k, weights, **kw)
        methods.append(m)
        for _ in s.many(1, 3):
            g = Gen(s)
            args = [Arg(g.lit(p.t)) for p in m.params]
            c = Call(m, args)
            calls.append(Ex(c) if m.ret == "void" else Print(c))
    text, out, mc = program(methods, calls)
    nt = mc.steps > 40 and any(w in text for w in ("break;", "continue;", "return"))
    return run_case(text, out, units=len(calls), nontrivial=nt)
