"""C01 integer expressions."""
from vlib.lang import *
from vlib.exprgen import *

RULE = ("each case is a program of up to 10 units; a unit declares up to 8 locals of random integer "
        "types and prints up to 5 random expression trees over them (all binary, unary, shift, "
        "comparison, cast, conditional forms). Non-trivial: the program prints at least 3 "
        "expressions of operator depth 3 or more whose operands mix two integer types.")
QUICK, THOROUGH = 1500, 15000


def unit(s, g, k):
    ss = []
    for j in s.many(1, 8, 75):
        t = s.choice(INT_NAMES + ["bool"])
        name = "v%d_%d" % (k, j)
        ss.append(Decl(t, name, g.lit(t)))
        g.add(t, name)
    for j in s.many(1, 5, 75):
        t = s.choice(INT_NAMES + ["bool"])
        ss.append(Print(g.e(t, s.i(1, 5))))
    return ss


def deep(methods):
    n = 0
    for m in methods:
        for st in m.body:
            if isinstance(st, Print) and depth(st.e) >= 3 and len(types_of(st.e)) >= 2:
                n += 1
    return n


def gen(s):
    methods = []
    calls = []
    for k in s.many(1, 10, 85):
        g = Gen(s)
        m = Method("U%d" % k, "void", [], unit(s, g, k))
        methods.append(m)
        calls.append(Ex(Call(m, [])))
    mc = Machine()
    fr = Frame(mc)
    try:
        for c in calls:
            c.run(fr)
    except Undef as e:
        s.tag("undef")
        from vlib.engine import Reject
        raise Reject()
    text = source("\n\n".join(m.tx() for m in methods), "\n".join(c.tx() for c in calls))
    return run_case(text, "".join(mc.out), units=len(methods), nontrivial=deep(methods) >= 3)
