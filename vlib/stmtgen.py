"""Random statements over the reference model: scopes, loops, switch, try."""
from .lang import *
from .exprgen import *
from .engine import Reject

NAMES = ["a", "b", "c", "d", "i", "j", "k", "n", "m", "x", "y", "z", "p", "q", "r", "w", "t1", "t2",
         "u1", "u2", "acc", "sum", "idx", "cnt", "tmp", "val", "flag", "left", "right", "total"]


class SG:
    """Statement generator. Scopes are a stack of snapshots of the visible variables."""

    def __init__(self, s, funcs=(), types=None, effects=True, exprdepth=3, weights=None, ret="void",
                 excs=None, use_float=False, extra=None, prefix=""):
        self.s = s
        self.g = Gen(s, {}, funcs, effects=effects, allow_float=use_float, extra=extra)
        self.types = types or ["int", "int", "long", "bool", "uint", "byte", "short", "ulong"]
        self.ed = exprdepth
        self.names = []             # names visible now
        self.loops = 0
        self.sw = 0                 # innermost break target is a switch
        self.ret = ret
        self.fuel = 0
        self.excs = excs or []
        self.intry = 0
        self.nofin = 0
        self.w = dict(decl=6, assign=8, print=8, incdec=4, if_=8, for_=4, while_=3, do_=2, block=3,
                      brk=3, cont=3, switch=0, try_=0, throw=0, ret=1, call=2, empty=1)
        self.w.update(weights or {})
        self.prefix = prefix
        self.mark = 0

    # -- scopes
    def push(self):
        g = self.g
        return ({t: list(v) for t, v in g.vars.items()}, set(g.readonly), list(self.names))

    def pop(self, st):
        self.g.vars, self.g.readonly, self.names = st

    def fresh(self, base=None):
        free = [n for n in NAMES if n not in self.names]
        if not free:
            self.fuel += 1
            n = "g%d" % self.fuel
        else:
            n = self.s.choice(free)
        n = self.prefix + n
        self.names.append(n[len(self.prefix):])
        return n

    def decl(self, t=None, d=None):
        t = t or self.s.choice(self.types)
        e = self.g.e(t, self.ed if d is None else d)
        n = self.fresh()
        self.g.add(t, n)
        return Decl(t, n, e)

    def stmts(self, d, lo_=0, hi_=5):
        out = []
        for _ in self.s.many(lo_, hi_):
            out.append(self.stmt(d))
        return out

    def block(self, d, lo_=0, hi_=5, pre=()):
        st = self.push()
        b = Blk(list(pre) + self.stmts(d, lo_, hi_))
        self.pop(st)
        return b

    def sub(self, d):
        """A body: a block, or a single statement that is no declaration."""
        if self.s.p(20):
            st = self.push()
            x = self.simple()
            self.pop(st)
            return x
        return self.block(d)

    def simple(self):
        s = self.s
        k = s.choice(["print", "assign", "incdec"])
        return self.make(k, 0)

    def stmt(self, d):
        s = self.s
        w = self.w
        opts = [(w["print"], "print"), (w["assign"], "assign"), (w["decl"], "decl"),
                (w["incdec"], "incdec"), (w["call"], "call"), (w["empty"], "empty")]
        if self.loops:
            if not self.sw:
                opts += [(w["brk"], "brk")]
            opts += [(w["cont"], "cont")]
        if self.ret is not None and not self.nofin:
            opts += [(w["ret"], "ret")]
        if d > 0:
            opts += [(w["if_"], "if_"), (w["for_"], "for_"), (w["while_"], "while_"),
                     (w["do_"], "do_"), (w["block"], "block"), (w["switch"], "switch"),
                     (w["try_"], "try_")]
        opts += [(w["throw"], "throw")]
        return self.make(s.weighted([o for o in opts if o[0] > 0]), d)

    def make(self, k, d):
        s, g = self.s, self.g
        if k == "print":
            if s.p(40):
                self.mark += 1
                return Print(Lit("string", "%s%d" % (self.prefix or "m", self.mark)))
            t = s.choice(self.types)
            return Print(g.e(t, self.ed))
        if k == "decl":
            return self.decl()
        if k == "assign":
            t = s.choice(self.types)
            v = g.lv(t)
            if v is None:
                return self.make("print", 0)
            if s.p(60) or not is_num(t):
                return Ex(Assign(v, "", g.e(t, self.ed)))
            if is_int(t):
                op = s.choice(["+", "-", "*", "&", "|", "^", "<<", ">>", "/", "%"])
                if op in ("<<", ">>"):
                    return Ex(Assign(v, op, Lit("int", s.i(0, min(31, INTS[t][0] - 1)))))
                a = s.choice(INT_NAMES)
                if op in "/%":
                    return Ex(Assign(v, op, Lit(a, s.i(2, 100))))
                return Ex(Assign(v, op, g.e(a, self.ed - 1)))
            return Ex(Assign(v, s.choice(["+", "-", "*"]), g.e(t, self.ed - 1)))
        if k == "incdec":
            t = s.choice([t for t in self.types if is_num(t)])
            v = g.lv(t)
            if v is None:
                return self.make("print", 0)
            return Ex(IncDec(v, s.choice(["++", "--"]), bool(s.draw(2))))
        if k == "call":
            fs = g.funcs
            if not fs:
                return self.make("print", 0)
            c = g.call(s.choice(fs), self.ed - 1)
            return Ex(c) if isinstance(c, Call) else self.make("print", 0)
        if k == "empty":
            return RawS(";")
        if k == "brk":
            return self.guard(Break())
        if k == "cont":
            return self.guard(Continue())
        if k == "ret":
            r = Return() if self.ret == "void" else Return(g.e(self.ret, self.ed), self.ret)
            return self.guard(r)
        if k == "throw":
            if not self.excs:
                return self.make("print", 0)
            return self.guard(Throw(s.choice(self.excs)))
        if k == "block":
            return self.block(d - 1)
        if k == "if_":
            c = g.e("bool", self.ed)
            a = self.sub(d - 1)
            b = None
            j = s.draw(4)
            if j == 1 or j == 2:
                b = self.sub(d - 1)
            elif j == 3:
                b = self.make("if_", d - 1) if d > 1 else self.sub(d - 1)
            if b is None and d > 1 and s.p(15):
                # the else belongs to the nearest if
                a = If(g.e("bool", 2), a if not isinstance(a, If) else Blk([a]), self.sub(0))
            return If(c, a, b)
        if k == "for_":
            return self.for_(d)
        if k in ("while_", "do_"):
            n = s.i(0, 4)
            f = self.fresh()
            self.g.readonly.add(f)
            self.g.add("int", f)
            fuel = IncDec(Var("int", f), "++", bool(s.draw(2)))
            self.loops += 1
            osw, self.sw = self.sw, 0
            inner = self.push()
            if s.p(40):
                # condition consumes the fuel
                lim = n if not fuel.prefix else n + 1
                c = Bin("<", fuel, Lit("int", lim))
                if s.p(40):
                    c = Bin("&&", c, g.e("bool", 2))
                pre = []
            else:
                c = Bin("<", Var("int", f), Lit("int", n))
                if s.p(30):
                    c = Bin("&&", g.e("bool", 2), c)
                pre = [Ex(fuel)]
            b = self.block(d - 1, 0, 4, pre)
            self.pop(inner)
            self.loops -= 1
            self.sw = osw
            w = While(c, b) if k == "while_" else DoWhile(c, b)
            return Seq([Decl("int", f, Lit("int", 0)), w])
        if k == "switch":
            return self.switch(d)
        if k == "try_":
            return self.try_(d)
        raise ValueError(k)

    def guard(self, st):
        """Jumps are mostly conditional, so that the code after them runs sometimes."""
        if self.s.p(85):
            c = self.g.e("bool", 2)
            return If(c, Blk([st]) if self.s.p(50) else st)
        return st

    def for_(self, d):
        s, g = self.s, self.g
        st = self.push()
        t = s.choice(["int", "int", "int", "long", "uint", "short", "byte"])
        own = s.p(80)
        f = self.fresh()
        self.g.add(t, f)
        self.g.readonly.add(f)
        a = s.i(0, 3)
        n = s.i(0, 4)
        step = s.i(1, 3)
        up = s.p(50)
        v = Var(t, f)
        if up:
            c = Bin(s.choice(["<", "<="]), v, Lit("int" if t != "uint" else t, a + n * step))
            st_e = IncDec(v, "++", bool(s.draw(2))) if step == 1 else Assign(v, "+", Lit("int" if t != "uint" else t, step))
            init = a
        else:
            c = Bin(s.choice([">", "!="]) if step == 1 else ">", v, Lit("int" if t != "uint" else t, a + 3))
            st_e = IncDec(v, "--", bool(s.draw(2))) if step == 1 else Assign(v, "-", Lit("int" if t != "uint" else t, step))
            init = a + 3 + n * step
        if s.p(20):
            c = Bin("&&", c, g.e("bool", 2))
        self.loops += 1
        osw, self.sw = self.sw, 0
        lit = Lit(t, init)
        dec = Decl(t, f, lit)
        hdr, cc, ss = dec, c, st_e
        pre = []
        if s.p(8):
            ss = None
            pre = [Ex(st_e)]
        if s.p(8):
            cc = None
            pre = [If(Un("!", Paren(c)), Break())] + pre
        body_ = self.block(d - 1, 0, 4, pre) if pre or s.p(85) else self.sub(0)
        self.loops -= 1
        self.sw = osw
        self.pop(st)
        if own:
            return For(hdr, cc, ss, body_)
        # the variable lives outside
        self.names.append(f[len(self.prefix):])
        self.g.add(t, f)
        self.g.readonly.add(f)
        return Seq([Decl(t, f, Lit(t, 0)), For(Ex(Assign(v, "", lit)), cc, ss, body_)])

    def switch(self, d):
        s, g = self.s, self.g
        t = s.weighted([(6, "int"), (2, "char"), (1, "enum")]) if not hasattr(self, "sw_types") \
            else s.choice(self.sw_types)
        nlab = s.i(0, 7)
        if t == "char":
            pool = [97 + k for k in range(10)]
        else:
            t = "int"
            pool = s.choice([list(range(0, 10)), list(range(-5, 5)), [0, 1, 2, 100, 1000, 100000, -1, -100,
                             2147483647, -2147483648], list(range(0, 60, 7))])
        labels = s.shuffle(pool)[:nlab]
        items = [Lit(t, v) for v in labels]
        has_def = s.p(60)
        if has_def:
            items.insert(s.i(0, len(items)), None)
        # group labels
        groups = []
        for it in items:
            if groups and s.p(20):
                groups[-1].append(it)
            else:
                groups.append([it])
        # the subject: near the pool
        if s.p(75):
            sub = self.near(t, pool)
        else:
            sub = g.e(t, 2)
        self.sw += 1
        self.loops_sw = True
        cases = []
        for k, grp in enumerate(groups):
            st = self.push()
            ss = self.stmts(d - 1, 0, 3)
            # declarations stay inside a block of their own
            if any(isinstance(x, (Decl, Seq)) for x in ss):
                ss = [Blk(ss)]
            self.pop(st)
            if s.p(80):
                ss = ss + [Break()]
            elif s.p(30):
                ss = ss + [If(g.e("bool", 2), Break())]
            cases.append((grp, ss))
        self.sw -= 1
        if cases and not cases[-1][1]:
            cases[-1] = (cases[-1][0], [Break()])
        return Switch(sub, cases)

    def near(self, t, pool):
        s, g = self.s, self.g
        vs = g.vars.get("int", [])
        if t == "char":
            cs = g.vars.get("char", [])
            if cs:
                return s.choice(cs)
            return Lit("char", s.choice(pool + [65]))
        if vs and pool == list(range(0, 10)) and s.p(70):
            v = s.choice(vs)
            return Bin("&", v, Lit("int", 15)) if s.p(50) else \
                Bin("%", Bin("&", v, Lit("int", 0xFFFF)), Lit("int", 11))
        if vs and s.p(40):
            return s.choice(vs)
        return Lit("int", s.choice(pool + [77]))

    def try_(self, d):
        s = self.s
        has_fin = s.p(50)
        ncatch = s.i(0 if has_fin else 1, 3)
        onf = self.nofin
        self.intry += 1
        st = self.push()
        b = self.stmts(d - 1, 0, 4)
        self.pop(st)
        self.intry -= 1
        catches = []
        seen = []
        for x in s.shuffle(self.excs)[:ncatch]:
            if any(x.is_a(y) for y in seen):
                continue
            seen.append(x)
            st = self.push()
            v = None
            if s.p(60):
                v = self.fresh()
            ss = self.stmts(d - 1, 0, 3)
            if v and s.p(25):
                ss.append(self.guard(Throw(x, rethrow_var=v)))
            self.pop(st)
            catches.append((x, v, ss))
        fin = None
        if has_fin or not catches:
            st = self.push()
            ol, self.loops = self.loops, 0
            osw, self.sw = self.sw, 0
            self.nofin += 1         # no return leaves a finally block
            fin = self.stmts(min(d - 1, 1), 0, 3)
            self.loops = ol
            self.sw = osw
            self.pop(st)
        self.nofin = onf
        return Try(b, catches, fin)


class Seq(S):
    """Several statements in the current scope."""

    def __init__(self, ss):
        self.ss = ss

    def tx(self):
        return "\n".join(s.tx() for s in self.ss)

    def run(self, fr):
        for s in self.ss:
            s.run(fr)


def program(methods, main_calls, types="", limit=20000, members=()):
    """Evaluates the calls in the model; returns (source text, expected output, machine)."""
    mc = Machine(limit)
    fr = Frame(mc)
    try:
        for c in main_calls:
            c.run(fr)
    except Undef:
        raise Reject()
    except RecursionError:
        raise Reject()
    text = source("\n\n".join(list(members) + [m.tx() for m in methods]), "\n".join(c.tx() for c in main_calls), types)
    return text, "".join(mc.out), mc
