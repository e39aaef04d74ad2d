"""C06 exceptions: propagation, catch selection, finally."""
from vlib.stmtgen import *
from vlib import objs

RULE = ("each case is a program of 1..6 methods (each may call the later ones) of random nested try/catch/finally "
        "statements over a random hierarchy of exception classes, with throws at any depth, rethrow of "
        "the caught object, throws inside catch and finally blocks, break/continue/return through finally, loops. "
        "Non-trivial: at least 2 exceptions are thrown and at least one is caught or a finally block "
        "runs on the way out.")
QUICK, THOROUGH = 1500, 15000


class UserExc(ExcClass):
    def tx(self):
        return "class %s : %s\n{\n}" % (self.name, self.base.name)


class TG(SG):
    """Adds `nest`: loops and try statements wrapped around a jump or a throw."""

    def pr(self):
        self.mark += 1
        return Print(Lit("int", self.mark))

    def leave(self):
        """A way to leave the layers around: mostly conditional on a variable."""
        s = self.s
        ks = [(4, "throw")]
        if self.loops:
            ks += [(3, "brk"), (3, "cont")]
        if not self.nofin:
            ks += [(3, "ret")]
        k = s.weighted(ks)
        if k == "ret":
            st = Return() if self.ret == "void" else Return(self.g.e(self.ret, 2), self.ret)
        else:
            st = {"throw": lambda: Throw(s.choice(self.excs)), "brk": Break, "cont": Continue}[k]()
        vs = self.g.vars.get("int", [])
        if vs and s.p(80):
            c = Bin(s.choice(["==", "!=", "<", ">="]), s.choice(vs), Lit("int", s.i(0, 3)))
            return If(c, Blk([st]) if s.p(50) else st)
        return st

    def nest(self, d):
        s = self.s
        if d <= 0:
            return [self.pr()] * s.draw(2) + [self.leave()] + ([self.leave()] if s.p(40) else []) + [self.pr()]
        k = s.weighted([(4, "fin"), (3, "for"), (2, "catch"), (2, "catchfin"), (2, "incatch"), (2, "infin"), (1, "if"),
                        (1, "call")])
        if k == "infin" and d < 2:
            k = "fin"
        st = self.push()
        if k == "for":
            v = self.fresh()
            self.g.readonly.add(v)
            self.g.add("int", v)
            self.loops += 1
            b = self.nest(d - 1)
            self.loops -= 1
            V = Var("int", v)
            r = For(Decl("int", v, Lit("int", 0)), Bin("<", V, Lit("int", s.i(1, 3))), IncDec(V, "++", False),
                    Blk([self.pr()] * s.draw(2) + b))
        elif k == "if":
            r = If(self.g.e("bool", 1), Blk(self.nest(d - 1)), Blk([self.pr()]))
        elif k == "call":
            r = Blk([self.make("call", 1)] + self.nest(d - 1))
        elif k == "fin":
            r = Try(self.nest(d - 1), [], [self.pr()])
        elif k in ("catch", "catchfin"):
            b = self.nest(d - 1)
            r = Try(b, self.clauses(), [self.pr()] if k == "catchfin" else None)
        elif k == "incatch":
            b = [self.leave()]
            x = s.choice(self.excs)
            r = Try(b + [self.pr()], [(x, None, self.nest(d - 1))], [self.pr()] if s.p(50) else None)
        else:
            b = [self.leave()]
            self.nofin += 1
            ol, self.loops = self.loops, 0
            f = self.nest(d - 2)
            self.loops = ol
            self.nofin -= 1
            r = Try(b, self.clauses() if s.p(50) else [], f)
        self.pop(st)
        return [r] + [self.pr()] * s.draw(2)

    def clauses(self):
        s = self.s
        out = []
        seen = []
        for x in s.shuffle(self.excs)[:s.i(1, 3)]:
            if any(x.is_a(y) for y in seen):
                continue
            seen.append(x)
            v = "e" if s.p(50) else None
            ss = [self.pr()]
            if s.p(40):
                ss.append(Throw(x, rethrow_var="e") if v and s.p(40) else self.leave())
            out.append((x, v, ss))
        return out


def gen(s):
    root = objs.EXCEPTION
    excs = [root]
    users = []
    for k in s.many(1, 5):
        e = UserExc("X%d" % k, s.choice(excs))
        excs.append(e)
        users.append(e)
    methods = []
    n = s.i(1, 5)
    for k in reversed(range(n)):
        ret = s.choice(["void", "void", "int"])
        sg = TG(s, funcs=methods, ret=ret, excs=excs, types=["int", "int", "bool", "long"], exprdepth=2,
                weights=dict(try_=16, throw=7, call=8, switch=1, if_=5, for_=4, while_=1, do_=1, print=10,
                             decl=4, brk=3, cont=3, ret=2))
        ps = []
        for j in range(s.i(0, 2)):
            nm = sg.fresh()
            sg.g.add("int", nm)
            ps.append(Param("int", nm))
        body = [sg.make("try_", 3)] if s.p(70) else []
        if s.p(75):
            body += sg.nest(s.i(2, 6))
        if s.p(60):
            body += sg.stmts(3, 1, 5)
        if ret != "void":
            body.append(Return(sg.g.e(ret, 2), ret))
        methods.insert(0, Method("F%d" % k, ret, ps, body))
    calls = []
    for m in methods:
        for _ in s.many(1, 3):
            c = Call(m, [Arg(Lit("int", s.i(0, 3)) if s.p(70) else Gen(s).lit(p.t)) for p in m.params])
            st = Ex(c) if m.ret == "void" else Print(c)
            calls.append(Try([st, Print(Lit("string", "ok"))],
                             [(root, None, [Print(Lit("string", "escaped"))])], None))
    text, out, mc = program(methods, calls, "\n".join(u.tx() for u in users))
    ev = mc.events
    for k in ("throw", "catch", "finally on exit"):
        if k in ev:
            s.tag(k, ev[k])
    return run_case(text, out, units=len(calls),
                    nontrivial=ev.get("throw", 0) >= 2 and (ev.get("catch", 0) + ev.get("finally on exit", 0) > 1))
