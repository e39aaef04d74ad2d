"""C03 operator binding, evaluation order, short-circuit, side effects inside expressions."""
from vlib.stmtgen import *

RULE = ("each case is a program of up to 8 units; a unit declares locals and evaluates random expression "
        "trees written with the fewest parentheses, in which operands are calls that print a trace "
        "number, assignments, compound assignments, ++/--, &&, ||, ?: and calls with several "
        "arguments. Non-trivial: the program performs at least 12 traced calls and contains an "
        "expression of depth 4 or more with a side effect inside it.")
QUICK, THOROUGH = 1500, 15000
TT = ["int", "long", "bool", "uint", "short", "double", "char"]


def tracers():
    r = {}
    for t in TT:
        def mk(t=t):
            body = [Print(Var("int", "id"), False), Print(Lit("char", 32), False),
                    Return(Var(t, "v"), t)]
            return Method("T%s" % t, t, [Param("int", "id"), Param(t, "v")], body)
        r[t] = mk()
    return r


def multi(s, k):
    """A method of several parameters that prints them and combines them."""
    ts = [s.choice(["int", "long", "bool", "short"]) for _ in range(s.i(2, 4))]
    ps = [Param(t, "p%d" % j) for j, t in enumerate(ts)]
    body = [Print(Var(p.t, p.name), False) for p in ps] + [Print(Lit("char", 59), False)]
    e = Lit("int", k)
    for p in ps:
        v = Var(p.t, p.name)
        e = Bin("-", Bin("*", e, Lit("int", 3)), v if p.t != "bool" else
                Paren(Cond(v, Lit("int", 1), Lit("int", 2))))
    ret = e.t
    return Method("M%d" % k, ret, ps, body + [Return(e, ret)])


def has_effect(e):
    return isinstance(e, (Assign, IncDec, Call)) or any(has_effect(k) for k in kids(e))


def gen(s):
    tr = tracers()
    ms = [multi(s, k) for k in range(s.i(1, 3))]
    cnt = [0]

    def extra(g, t, d):
        if t in tr and s.p(16):
            cnt[0] += 1
            n = cnt[0]
            return Call(tr[t], [Arg(Lit("int", n)), Arg(g.e(t, d - 1))])
        return None

    units, calls = [], []
    deep = 0
    for k in s.many(1, 8, 85):
        sg = SG(s, ms, types=["int", "int", "long", "bool", "uint", "short", "char"], effects=True,
                exprdepth=4, extra=extra)
        g = sg.g
        ss = []
        for _ in s.many(3, 7):
            ss.append(sg.decl(d=0))
        for _ in s.many(1, 5):
            t = s.choice(["int", "int", "long", "bool", "bool", "uint", "short"])
            j = s.draw(4)
            e = g.e(t, s.i(2, 5))
            if depth(e) >= 4 and has_effect(e):
                deep += 1
            if j == 0 and g.lv(t):
                ss.append(Ex(Assign(g.lv(t), "", e)))
                ss.append(Print(g.lv(t)))
            elif j == 1:
                ss.append(If(g.e("bool", 4), Blk([Print(Lit("string", "yes"))]),
                             Blk([Print(Lit("string", "no"))])))
                ss.append(Print(e))
            else:
                ss.append(Print(e))
        for t in ("int", "long", "uint", "short"):
            for v in g.vars.get(t, []):
                if s.p(60):
                    ss.append(Print(v))
        m = Method("U%d" % k, "void", [], ss)
        units.append(m)
        calls.append(Ex(Call(m, [])))
    text, out, mc = program(units + ms + list(tr.values()), calls)
    return run_case(text, out, units=len(units), nontrivial=deep >= 1 and text.count("(T") + cnt[0] >= 12)
